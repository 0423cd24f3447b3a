"""Rules on marshaling (C11)."""
from ..scen import *
from . import build
from .build import Param, build_interp, setup_type
from .unmarshal import Runs, flat_events, trace, is_wrapped, show_cells, is_lazy_build

TY = S + 'types.'
V = T          # the value being marshaled, described to the models like a type's attributes
LITERAL = Sym('LITERAL')
PLAIN_KINDS = frozenset(('none', 'bool', 'int', 'float', 'str', 'missing'))
STR_METHODS = {'isoformat', 'decode', 'hex', 'strftime', 'lower', 'upper', 'strip', 'format', 'join', 'ctime', 'title'}
PLAIN_ATTRS = {'imag', 'real', 'name', 'level', 'numerator', '__name__', '__qualname__'}
PLAIN_CALLS = {'builtins.str', 'builtins.int', 'builtins.float', 'builtins.bool', 'builtins.len', 'builtins.repr', 'builtins.ascii',
               'logging.getLevelName', 'binascii.hexlify', 'builtins.abs', 'builtins.round'}
RAW_CALLS = {'dataclasses.asdict', 'dataclasses.astuple', 'copy.copy', 'copy.deepcopy', 'builtins.vars', 'builtins.getattr', 'builtins.next',
             'omegaconf.OmegaConf.to_container', 'omegaconf.OmegaConf.to_object', 'omegaconf.to_container'}


def marshal_classes(p):
    base = p.get_class(BASE_M)
    return [c for c in p.classes() if c is not base and p.is_subclass(c, BASE_M) is True]


def is_a(p, c, name):
    return c.full == TY + name or p.is_subclass(c, TY + name) is True


def plain(v, st, I, depth=0):
    """Is v plain data?  (True | False | None when not known, offending value)"""
    if depth > 6:
        return None, v
    if isinstance(v, Const):
        return (True, v) if v.v is None or isinstance(v.v, (bool, int, float, str)) else (False, v)
    if isinstance(v, Aff):
        return True, v
    if isinstance(v, Term) and v.op == 'M':
        return True, v
    if isinstance(v, Term) and v.op == 'attr' and v.args[1] in PLAIN_ATTRS:
        return True, v
    if isinstance(v, Term) and v.op in ('call', 'usercall'):
        f = v.args[0]
        if isinstance(f, Term) and f.op == 'attr' and f.args[1] in STR_METHODS or isinstance(f, ExtV) and (f.name in PLAIN_CALLS or f.name.rpartition('.')[2] in STR_METHODS):
            return True, v
        if isinstance(f, ExtV) and f.name in RAW_CALLS:
            return False, v
        return None, v
    o = I.container(v, st) if isinstance(v, (Ref, Tup)) else None
    if o is not None:
        if isinstance(v, Ref) and getattr(o, 'kind', 'list') in ('set', 'frozenset'):
            return False, v
        bad = None
        for c in o.cells:
            if isinstance(o, Dct):
                pairs = [c[1:]] if c[0] == '1' else c[2]
                for k, x in pairs:
                    if not I.kinds(k, st) <= frozenset(('str', 'missing')) and not (isinstance(k, Term) and plain(k, st, I)[0] and k.op == 'attr'):
                        if not isinstance(k, (Term,)) or k.op != 'call':
                            return False, k
                        bad = k
                    r = plain(x, st, I, depth + 1)
                    if r[0] is False:
                        return r
                    if r[0] is None:
                        bad = r[1]
            else:
                for x in ([c[1]] if c[0] == '1' else c[2] if c[0] == '*' else ['?']):
                    r = plain(x, st, I, depth + 1) if x != '?' else (None, x)
                    if r[0] is False:
                        return r
                    if r[0] is None:
                        bad = r[1]
        return (True, v) if bad is None else (None, bad)
    if isinstance(v, Term) and I.kinds(v, st) <= PLAIN_KINDS:
        return True, v
    if isinstance(v, (Sym, Ref)):
        return False, v
    if isinstance(v, Term) and v.op in ('attr', 'item', 'get', 'val'):
        return False, v
    return None, v


# ---------------------------------------------------------------- scenes
def opaque_value(*kinds):
    def go(p, I, st, c):
        st.kinds[V] = frozenset(kinds)
    return go


def params_of(kind):
    if kind == 'namedtuple':
        return [(), (Param('b'), Param('a')), (Param('a'), Param('b', default=True), Param('c', default=True))]
    return [(), (Param('b'), Param('a')), (Param('a'), Param('x', init=False), Param('b', default=True)),
            (Param('x', init=False, default=True), Param('a', factory=True)), (Param('a'), Param('v', field='_FIELD_INITVAR'), Param('k', field='_FIELD_CLASSVAR'))]


def set_fields(params, kind):
    def go(p, I, st, c):
        cls = p.get_class(build.NAMEDTUPLE if kind == 'namedtuple' else build.DATACLASS)
        setup_type(p, I, st, cls, params)
        st.kinds[V] = frozenset(('sequence',) if kind == 'namedtuple' else ('other',))
        if kind == 'namedtuple':
            st.content[V] = st.new(Lst(tuple(one(Sym('item:' + q.name)) for q in params), 'list', 'input', V))
    return go


def scenes(p):
    """(class, label, params or None, scene) for every marshal method."""
    R = Runs.of(p)
    for c in marshal_classes(p):
        todo = [('any', None, opaque_value('other')), ('sequence', None, opaque_value('sequence')), ('mapping', None, opaque_value('mapping'))]
        if is_a(p, c, 'namedtuple.NamedTupleMarshalSchema'):
            todo = [(build.show(q), q, set_fields(q, 'namedtuple')) for q in params_of('namedtuple')]
        elif is_a(p, c, 'dataclass.DataclassMarshalSchema'):
            todo = [(build.show(q), q, set_fields(q, 'dataclass')) for q in params_of('dataclass')]
        elif is_a(p, c, 'generic.GenericSequenceMarshalSchema'):
            todo = todo[1:2]
        elif is_a(p, c, 'generic.GenericMappingMarshalSchema'):
            todo = todo[2:3]
        elif is_a(p, c, 'generic.GenericIterableMarshalSchema'):
            todo = todo[:1]
        elif is_a(p, c, 'primitive.PrimitiveMarshalSchema'):
            todo = [(k, None, opaque_value(k)) for k in ('bool', 'int', 'float', 'str', 'missing')]
        elif is_a(p, c, 'none.NoneMarshalSchema'):
            todo = [('none', None, opaque_value('none'))]
        elif family(p, c) != 'wrapper' and p.is_subclass(c, WRAPPER_M) is not True:
            todo = todo[:1]
        for label, params, setup in todo:
            def go(c=c, label=label, setup=setup):
                I = build_interp(R, items=2, injective=frozenset(('str',)), int_max=64)
                st = State()
                f = method(p, c, 'marshal')
                prepare(st)
                attrs = {'value': V}
                if p.is_subclass(c, WRAPPER_M) is True:
                    attrs.update(_schema=Sym('WS'), _args=Tup([one(V)]), _kwargs=st.new(Dct(())), wrapped=Tup([one(Sym('WT'))]))
                me = st.new(Inst(c, tuple(attrs.items())))
                setup(p, I, st, c)
                if is_a(p, c, 'literal.LiteralValueMarshalSchema'):
                    I.targs = Tup([one(LITERAL)])
                return execute(I, f'{c.full}.marshal [{label}]', st, FuncV(f), [me], info=f)
            yield c, label, params, R.get((c.full, 'marshal', label), go)


def result(o):
    v = o.value
    if isinstance(v, Ref):
        ob = o.st.heap.get(v.id)
        return ob if isinstance(ob, (Lst, Dct)) else v
    return v


def entries(o):
    """{key: value} of a result dict with constant keys, or None."""
    ob = result(o)
    if not isinstance(ob, Dct) or any(c[0] != '1' or not isinstance(c[1], Const) for c in ob.cells):
        return None
    return [(c[1].v, c[2]) for c in ob.cells]


def attr(n):
    return Term('attr', V, n)


def nonzero(cells, st):
    return tuple(x for x in cells if not (x[0] == '*' and st.card.get(x[1]) == 'zero'))


def marshal_rules(c):
    p = c.p
    c.rule('plain', 'The result of every marshal method is null, a boolean, a number, text, or a sequence or mapping of such; every other nested value went through marsh.marshal.')
    c.rule('complete', 'Every item, constructor field and key of the value appears in the result exactly once and in order, paired with its own marshaled value.')
    c.rule('primitive', 'A primitive is marshaled into the base class of its own kind from its own value.')
    for cls, label, params, sc in scenes(p):
        c.use(sc)
        w = sc.info.where
        for o in sc.decided():
            if not o.ok:
                if is_lazy_build(o) or o.exc.has('__user__') or o.path() is not None and isinstance(o.path(), Term):
                    continue            # raised by a nested value, user code
                if is_a(p, cls, 'namespace.NamespaceMarshalSchema') or p.is_subclass(cls, WRAPPER_M) is True:
                    continue            # C24, C25
                if params is not None or label in PLAIN_KINDS:
                    c.ob('complete', False, o.origin(), f'{sc.name} raises {o.cls_name()}', trace(o))
                continue
            ok, bad = plain(o.value, o.st, sc.I)
            if o.value == V and label in PLAIN_KINDS:
                ok = True           # the rule 'primitive' decides
            if ok is None:
                c.undecided.append(f'{sc.name}: {bad!r}'[:200])
            else:
                c.ob('plain', ok, w, f'{sc.name} gives {bad!r} as it is', trace(o))
            complete(c, cls, label, params, sc, o, w)
        if not is_a(p, cls, 'namespace.NamespaceMarshalSchema') and not sc.undecided() and not any(o.ok for o in sc.outcomes):
            c.ob('complete', False, w, f'{sc.name} never succeeds')


def complete(c, cls, label, params, sc, o, w):
    p = c.p
    what = sc.name
    if params is not None:
        got = entries(o)
        kind = 'namedtuple' if is_a(p, cls, 'namedtuple.NamedTupleMarshalSchema') else 'dataclass'
        names = [q.name for q in params if q.init and q.field == '_FIELD']
        good = got is not None and [k for k, _ in got] == names
        if good:
            for n, x in got:
                good = good and isinstance(x, Term) and x.op == 'M' and x.args[0] in ((Sym('item:' + n), attr(n)) if kind == 'namedtuple' else (attr(n),))
        if got is None and isinstance(o.value, Term):
            c.undecided.append(what)
            return
        c.ob('complete', good, w, f'{what} gives {got!r}, expected each of {names} marshaled', trace(o))
        return
    cells = o.st.obj(o.st.content[V]).cells if V in o.st.content else ()
    ob = result(o)
    if is_a(p, cls, 'generic.GenericMappingMarshalSchema'):
        if not isinstance(ob, Dct):
            if not isinstance(ob, Term):
                c.ob('complete', False, w, f'{what} gives {ob!r}', trace(o))
            return
        want = tuple(kv(Term('str', x[1]), Term('M', x[2])) if x[0] == '1' else
                     ('*', x[1], tuple((Term('str', k), Term('M', y)) for k, y in x[2])) for x in cells)
        c.ob('complete', nonzero(ob.cells, o.st) == nonzero(want, o.st), w, f'{what} gives {show_cells(ob.cells)}, expected {show_cells(want)}', trace(o))
    elif is_a(p, cls, 'generic.GenericSequenceMarshalSchema') or is_a(p, cls, 'generic.GenericIterableMarshalSchema'):
        ob = ob if isinstance(ob, Lst) else o.value
        if not isinstance(ob, (Lst, Tup)):
            if not isinstance(ob, Term):
                c.ob('complete', False, w, f'{what} gives {ob!r}', trace(o))
            return
        want = tuple(one(Term('M', x[1])) if x[0] == '1' else ('*', x[1], tuple(Term('M', y) for y in x[2])) for x in cells)
        c.ob('complete', nonzero(ob.cells, o.st) == nonzero(want, o.st), w, f'{what} gives {show_cells(ob.cells)}, expected {show_cells(want)}', trace(o))
    elif is_a(p, cls, 'slice.SliceMarshalSchema'):
        got = entries(o)
        want = {n: Term('M', attr(n)) for n in ('start', 'stop', 'step')}
        c.ob('complete', got is not None and dict(got) == want and len(got) == 3, w, f'{what} gives {got!r}', trace(o))
    elif is_a(p, cls, 'complex.ComplexMarshalSchema'):
        got = entries(o)
        src = (V, Term('call', ExtV('builtins.complex'), Tup([one(V)]), Tup((), 'kw')))
        part = {n: [Term('attr', x, n) for x in src] for n in ('real', 'imag')}
        if got is not None:
            good = sorted(k for k, _ in got) == ['imag', 'real'] and all(unwrap_float(x) in part[k] for k, x in got)
        else:
            good = unwrap_float(o.value) in part['real'] and imag_is_zero(o.st, part['imag'])
        c.ob('complete', good, w, f'{what} gives {got or o.value!r}; the imaginary part may only be left out when it is zero', trace(o))
    elif is_a(p, cls, 'logger.LoggerMarshalSchema'):
        got = entries(o)
        if got is None:
            c.undecided.append(what)
            return
        d = dict(got)
        lv = d.get('level')
        unset = [t for t, b in o.st.facts.items() if b and t.op in ('eq', 'is') and (Const('NOTSET') in t.args or Const(0) in t.args)]
        c.ob('complete', d.get('name') == attr('name'), w, f'{what}: the name is {d.get("name")!r}', trace(o))
        c.ob('complete', lv is not None and mentions(lv, attr('level')) or (lv is None and bool(unset)), w, f'{what}: the level is {lv!r}', trace(o))
    elif is_a(p, cls, 'primitive.PrimitiveMarshalSchema'):
        k = label
        v = o.value
        conv = {'bool': 'bool', 'int': 'int', 'float': 'float', 'str': 'str', 'missing': 'str'}[k]
        if k == 'bool' and isinstance(v, Const) and isinstance(v.v, bool):
            good = True
        else:
            good = v in (Term(conv, V), Term('call', ExtV('builtins.' + conv), Tup([one(V)]), Tup((), 'kw'))) or (k == 'bool' and v == Term('truth', V))
            if v == V and conv == 'str' and any(e[0] == 'str' and e[1] == V for e in flat_events(o, 'str')):
                good = True
            elif v == V:
                good = None if o.st.facts.get(Term('is', *sorted((Term('type', V), ExtV('builtins.' + conv)), key=repr))) else False
        if good is None:
            c.undecided.append(what)
        else:
            c.ob('primitive', good, w, f'{what}: a {k} becomes {v!r}', trace(o))
    elif is_a(p, cls, 'none.NoneMarshalSchema'):
        c.ob('complete', o.value == NONE, w, f'{what} gives {o.value!r}', trace(o))
    elif is_a(p, cls, 'enum.EnumValueMarshalSchema'):
        c.ob('complete', o.value == attr('name'), w, f'{what} gives {o.value!r}, expected the member\'s name', trace(o))
    elif is_a(p, cls, 'literal.LiteralValueMarshalSchema'):
        # the only literal value
        v = o.value
        c.ob('complete', v == Term('M', LITERAL), w, f'{what} gives {v!r}', trace(o))
    elif p.is_subclass(cls, WRAPPER_M) is True and not is_a(p, cls, 'namespace.NamespaceMarshalSchema'):
        v = o.value
        c.ob('complete', isinstance(v, Term) and v.op == 'M' and is_wrapped(v.args[0]), w, f'{what} gives {v!r}', trace(o))
    elif not is_a(p, cls, 'namespace.NamespaceMarshalSchema'):
        c.ob('complete', mentions(o.value, V) or not isinstance(o.value, (Term, Const)), w, f'{what} gives {o.value!r}, which does not depend on the value', trace(o))


def unwrap_float(v):
    return v.args[0] if isinstance(v, Term) and v.op == 'float' else v


def imag_is_zero(st, imag):
    for t, b in st.facts.items():
        if any(x in t.args for x in imag) and ((t.op == 'eq' and b and (Const(0) in t.args or Const(0.0) in t.args)) or (t.op in ('truth', 'bool') and not b)):
            return True
        if t.op == 'sign' and any(x in t.args for x in imag) and b in (('zero',), ('0',), (0,)):
            return True
    return any(st.facts.get(x) is False for x in imag)


def mentions(v, x, d=0):
    if v == x:
        return True
    if d > 8:
        return False
    if isinstance(v, Term):
        return any(mentions(a, x, d + 1) for a in v.args)
    if isinstance(v, Tup):
        return any(mentions(y, x, d + 1) for c in v.cells for y in c[1:])
    return False


# ---------------------------------------------------------------- entry points
def entry_rules(c):
    p = c.p
    c.rule('entry', 'marshal, cast and cast_args convert the given value with the schema chosen for it and hand the result on unchanged.')
    R = Runs.of(p)
    ARGS = S + 'argument.ArgumentsUnmarshalSchema'

    def run(name, pos):
        f = p.get_func('marsh._functional.' + name)
        I = R.interp()
        I.models[ARGS] = lambda I, pos, kw, st, fr, node: [(st, Term('schema', ExtV('args'), pos[0][1]))]
        I.call_hook = lib.call_hook
        st = State()
        prepare(st)
        st.kinds[V] = ALL_KINDS
        st.kinds[Sym('TY')] = frozenset(('type', 'other'))
        return c.use(execute(I, 'marsh.' + name, st, FuncV(f), pos, info=f))
    M = Term('M', V)
    for name, pos, want in (
        ('marshal', [V], lambda v: v == M),
        ('cast', [Sym('TY'), V], lambda v: is_conv(v, Sym('TY'), M)),
        ('cast_args', [Sym('TY'), V], lambda v: is_conv(v, Sym('TY'), M)),
        ('unmarshal', [Sym('TY'), V], lambda v: is_conv(v, Sym('TY'), V)),
        ('unmarshal_args', [Sym('TY'), V], lambda v: is_conv(v, Sym('TY'), V)),
    ):
        sc = run(name, pos)
        n = 0
        for o in sc.decided():
            if o.ok:
                n += 1
                c.ob('entry', want(o.value), sc.info.where, f'marsh.{name} gives {o.value!r}', trace(o))
        if not n and not sc.undecided():
            c.ob('entry', False, sc.info.where, f'marsh.{name} never succeeds')


def is_conv(v, ty, el):
    return isinstance(v, Term) and v.op == 'U' and len(v.args) == 2 and v.args[1] == el and mentions(v.args[0], ty) and isinstance(v.args[0], Term) and v.args[0].op == 'schema'


def c11(c):
    c.explain('Every marshal method is abstractly interpreted on values of the shapes it serves: containers of any size (summarised), field layouts of named tuples and data classes (enumerated), each primitive kind.')
    marshal_rules(c)
    entry_rules(c)


CHECKS = {'C11': c11}
