"""Rules about schema construction: which child schemas a type gets, from what,
and how its constructor is finally called (C03, C04, C07, C08, C25, C30, C31)."""
from .unmarshal import *
from . import unmarshal as um

X = 'inspect.Parameter.'
EMPTY = ExtV('inspect.Parameter.empty')
DM = ExtV('dataclasses.MISSING')
CALLABLE = S + 'template.callable.CallableUnmarshalSchema'
DATACLASS = S + 'types.dataclass.DataclassUnmarshalSchema'
NAMEDTUPLE = S + 'types.namedtuple.NamedTupleUnmarshalSchema'
KINDS = ('POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD', 'VAR_POSITIONAL', 'KEYWORD_ONLY', 'VAR_KEYWORD')


class Param:
    """One constructor parameter (or field) of the analysed type."""

    def __init__(self, name, kind='POSITIONAL_OR_KEYWORD', default=False, ann='type', init=True, field='_FIELD', factory=False):
        self.name, self.kind, self.default, self.ann = name, kind, default, ann
        self.init, self.field, self.factory = init, field, factory

    @property
    def type(self):
        return Sym('T:' + self.name)

    @property
    def dflt(self):
        return Sym('D:' + self.name)

    def __repr__(self):
        star = {'VAR_POSITIONAL': '*', 'VAR_KEYWORD': '**'}.get(self.kind, '')
        mark = {'POSITIONAL_ONLY': '/', 'KEYWORD_ONLY': '!'}.get(self.kind, '')
        return f'{star}{mark}{self.name}' + ('=' if self.default or self.factory else '') + ('' if self.init else ' (no init)') + (
            '' if self.field == '_FIELD' else f' ({self.field[7:].lower()})')


def sigs():
    P = Param
    PO, PK, VP, KO, VK = KINDS
    return [
        (),
        (P('a'), P('b', default=True), P('c')),
        (P('a', PO), P('b', PK), P('r', VP), P('c', KO, default=True), P('k', VK)),
        (P('a', PO, default=True), P('b', PK, default=True), P('k', VK)),
        (P('a', PK), P('b', PK, default=True), P('r', VP)),
        (P('a', PK), P('r', VP), P('c', KO)),
        (P('a', PO), P('b', PO, default=True), P('c', KO)),
        (P('a', ann='none'), P('b', ann='string', default=True), P('k', VK, ann='none')),
        (P('r', VP), P('k', VK)),
        (P('c', KO), P('k', VK)),
    ]


def dclasses():
    P = Param
    return [
        (P('a'), P('b'), P('c', default=True)),
        (P('a'), P('n', init=False), P('b', default=True), P('d', factory=True)),
        (P('a'), P('i', field='_FIELD_INITVAR'), P('b'), P('v', field='_FIELD_CLASSVAR', default=True)),
        (P('i', field='_FIELD_INITVAR', default=True), P('n', init=False, default=True), P('a', default=True), P('b', factory=True)),
    ]


def ntuples():
    P = Param
    return [(), (P('a'), P('b'), P('c', default=True)), (P('a', ann='none'), P('b', default=True))]


def tuples():
    P = Param
    return [(), (P('0'),), (P('0'), P('1'), P('2'))]


def tdicts():
    P = Param
    return [
        (P('a'), P('b'), P('c')),
        (P('a'), P('b', default='optional'), P('c', default='optional')),
        (P('b', default='optional'), P('a'), P('c', default='optional')),
        (P('a', default='optional'),),
        (P('a', default='optional'), P('b', default='optional')),
        (P('a'),),
        (),
    ]


def build_interp(R, **kw):
    I = R.interp(**kw)
    I.tattrs = {}
    I.targs = Tup(())
    I.hints = None
    I.attr_hook = tattr
    E = I.ext_models
    E['typing.get_args'] = E['typing_extensions.get_args'] = get_args_model
    E['typing.get_type_hints'] = E['typing_extensions.get_type_hints'] = hints_model
    E['inspect.signature'] = lambda I, pos, kw, st, fr, node: [(st, I.sig)] if getattr(I, 'sig', None) else None
    E['dataclasses.fields'] = lambda I, pos, kw, st, fr, node: [(st, I.fields)] if getattr(I, 'fields', None) else None
    E['dataclasses.is_dataclass'] = lambda I, pos, kw, st, fr, node: [(st, TRUE)]
    I.models['marsh.utils.inspect_sequence_type'] = lambda I, pos, kw, st, fr, node: [(st, Term('seqtype', pos[0][1]))]
    I.models['marsh.utils.inspect_mapping_type'] = mapping_type_model
    return I


def mapping_type_model(I, pos, kw, st, fr, node):
    k, v = Term('keytype', pos[0][1]), Term('valtype', pos[0][1])
    try:
        cls = I.p.get_class('marsh.utils._MappingKeyValueTypesInfo')
        names = [n for n in I.annotated_names(cls)] or ['key', 'value']
        return [(st, st.new(Inst(cls, tuple(zip(('key', 'value') if 'key' in names else names, (k, v))) + (('__items__', Tup([one(k), one(v)])),))))]
    except AnalysisBroken:
        return [(st, Tup([one(k), one(v)]))]


def tattr(I, v, name, st, fr, node):
    if v == T and name in I.tattrs:
        return [(st, I.tattrs[name])]
    if isinstance(v, (ModV, ExtV)) and v.name == 'dataclasses' and name == '_FIELDS':
        return [(st, Const('__dataclass_fields__'))]
    if isinstance(v, ExtV) and v.name == 'inspect.Parameter' and name in KINDS:
        return [(st, ExtV(X + name))]
    return None


def get_args_model(I, pos, kw, st, fr, node):
    v = pos[0][1]
    if v == T:
        return [(st, I.targs)]
    if isinstance(v, Term) and v.op in ('getitem', 'subscript', 'item') and len(v.args) == 2:
        return [(st, Tup([one(v.args[1])]))]
    return None


def hints_model(I, pos, kw, st, fr, node):
    if I.hints is None:
        return None
    r = st.new(st.obj(I.hints))
    return [(st, r)]


def setup_type(p, I, st, c, params):
    """Describe the constructor of T to the models."""
    st.kinds[T] = frozenset(('type',))
    for q in params:
        # a type is neither a string nor a forward reference nor an InitVar
        st.kinds[q.type] = frozenset(('type',))
        st.kinds[q.dflt] = NOT_MISSING
        for other in ('dataclasses.InitVar', 'typing.ForwardRef', 'builtins.str'):
            st.facts[Term('isinstance', q.type, ExtV(other))] = False
        for n in ('eq', 'is'):
            for other in (DM, EMPTY, ExtV('inspect._empty')):
                st.facts[Term(n, *sorted((q.dflt, other), key=repr))] = False
            for other in (EMPTY, ExtV('inspect._empty')):
                st.facts[Term(n, *sorted((q.type, other), key=repr))] = False
            st.facts[Term(n, *sorted((q.type, Tup(())), key=repr))] = False
    hints = Dct(tuple(kv(Const(q.name), q.type) for q in params if q.ann != 'none' and q.field != '_FIELD_CLASSVAR'))
    I.hints = st.new(hints)
    I.tattrs['__annotations__'] = st.new(hints)
    st.facts[Term('hasattr', T, Const('__annotations__'))] = True
    family_ = family_of(p, c)
    if family_ == 'callable':
        ps = []
        for q in params:
            ann = q.type if q.ann == 'type' else EMPTY if q.ann == 'none' else Const('ann_' + q.name)
            attrs = [('name', Const(q.name)), ('kind', ExtV(X + q.kind)), ('annotation', ann),
                     ('default', q.dflt if q.default else EMPTY), ('empty', EMPTY)] + [(k, ExtV(X + k)) for k in KINDS]
            ps.append(kv(Const(q.name), st.new(Inst('inspect.Parameter', tuple(attrs)))))
        I.sig = st.new(Inst('inspect.Signature', (('parameters', st.new(Dct(tuple(ps)))),)))
    elif family_ == 'dataclass':
        fs = []
        for q in params:
            ty = q.type
            if q.field == '_FIELD_INITVAR':
                ty = Sym('IV:' + q.name)
                st.kinds[ty] = frozenset(('other',))
                st.facts[Term('isinstance', ty, ExtV('dataclasses.InitVar'))] = True
                ty = st.new(Inst('dataclasses.InitVar', (('type', q.type),)))
            attrs = (('name', Const(q.name)), ('type', ty), ('init', mk(q.init)), ('default', q.dflt if q.default else DM),
                     ('default_factory', q.dflt if q.factory else DM), ('kw_only', FALSE), *((n, Sym(f'{n}:{q.name}')) for n in ('compare', 'repr', 'hash', 'metadata')), ('_field_type', ExtV('dataclasses.' + q.field)))
            fs.append((q, st.new(Inst('dataclasses.Field', attrs))))
        I.fields = Tup([one(f) for q, f in fs if q.field == '_FIELD'])
        I.tattrs['__dataclass_fields__'] = st.new(Dct(tuple(kv(Const(q.name), f) for q, f in fs)))
        st.facts[Term('hasattr', T, Const('__dataclass_fields__'))] = True
    elif family_ == 'namedtuple':
        I.tattrs['_fields'] = Tup([one(Const(q.name)) for q in params])
        I.tattrs['_field_defaults'] = st.new(Dct(tuple(kv(Const(q.name), q.dflt) for q in params if q.default)))
        for n in ('_fields', '_field_defaults'):
            st.facts[Term('hasattr', T, Const(n))] = True
    elif family_ == 'tuple':
        I.targs = Tup([one(q.type) for q in params])
    elif family_ == 'typeddict':
        I.tattrs['__required_keys__'] = Tup([one(Const(q.name)) for q in params if not q.default])
        I.tattrs['__optional_keys__'] = Tup([one(Const(q.name)) for q in params if q.default])
        for n in ('__required_keys__', '__optional_keys__'):
            st.facts[Term('hasattr', T, Const(n))] = True


def family_of(p, c):
    for full, n in ((CALLABLE, 'callable'), (DATACLASS, 'dataclass'), (NAMEDTUPLE, 'namedtuple'), (TUPLE, 'tuple'), (TD, 'typeddict')):
        if p.is_subclass(c, full) is True:
            return n
    return None


LAYOUTS = {'callable': sigs, 'dataclass': dclasses, 'namedtuple': ntuples, 'tuple': tuples, 'typeddict': tdicts}


def structured_classes(p):
    out = []
    for full in (CALLABLE, DATACLASS, NAMEDTUPLE, TUPLE, TD):
        p.get_class(full)
    for c in classes(p, 'structured'):
        fam = family_of(p, c)
        f = p.find_member(c, '__init__')
        if fam and f and f[1][0] == 'func':
            if any(f[1][1] is p.find_member(d, '__init__')[1][1] and p.find_member(c, 'construct') == p.find_member(d, 'construct')
                   and p.find_member(c, 'unmarshal') == p.find_member(d, 'unmarshal') for d, _ in out):
                continue
            out.append((c, fam))
    return out


def child_model(I):
    """C04 for the children: a schema with a default answers MISSING with it."""
    base = I.call_hook

    def hook(I, f, pos, kw, st, fr, node):
        recv = name = None
        if isinstance(f, ExtBound):
            recv, name = f.recv, f.name
        elif isinstance(f, Term) and f.op == 'attr':
            recv, name = f.args
        if name == 'unmarshal' and isinstance(recv, Term) and recv.op == 'schema':
            a = pos[0][1] if pos else kw[0][2]
            d, fac = schema_defaults(recv)
            if a == MISSING and d is not None:
                st.event('U', recv, a)
                return [(st, d)]
        return base(I, f, pos, kw, st, fr, node)
    I.call_hook = hook
    return I


def schema_defaults(t):
    """(default, factory) given to a child schema, None when not given."""
    kw = {c[1].v: c[2] for c in t.args[2].cells if c[0] == '1' and isinstance(c[1], Const)}
    d, f = kw.get('default', MISSING), kw.get('default_factory', MISSING)
    return (None if d == MISSING else d), (None if f == MISSING else f)


def initialise(p, R, c, params, **ikw):
    """Abstractly run `c.__init__(T)`; -> scene, self."""
    I = build_interp(R, **ikw)
    st = State()
    prepare(st)
    setup_type(p, I, st, c, params)
    me = st.new(Inst(c, ()))
    sc = execute(I, f'{c.full}.__init__ [{show(params)}]', st, FuncV(method(p, c, '__init__')), [me, T], info=method(p, c, '__init__'))
    sc.me = me
    return sc


def show(params):
    return ', '.join(map(repr, params)) or 'no fields'


def init_runs(p):
    R = Runs.of(p)
    for c, fam in structured_classes(p):
        for params in LAYOUTS[fam]():
            yield c, fam, params, R.get(('init', c.full, show(params)), lambda: initialise(p, R, c, params))


# ------------------------------------------------------------------ C03
def check_build_paths(c):
    p = c.p
    n = 0
    for cls, fam, params, sc in init_runs(p):
        c.use(sc)
        for o in sc.decided():
            if o.ok or o.exc.get('__what__') != Const('build'):
                continue
            base, fields = path_fields(o.path())
            q = next((q for q in params if base == Term('buildpath', q.type) or (q.ann == 'none' and base == Term('buildpath', ExtV('typing.Any')))), None)
            if q is None:
                continue
            n += 1
            same = [x for x in params if x.ann == 'none'] if q.ann == 'none' else [q]
            ok = len(fields) == 1 and any(same_field(fields[0], Const(x.name), o.st, sc.I) for x in same)
            c.ob('build-path', ok, o.origin(), f'{cls.full} [{show(params)}]: the error about the type of {q.name!r} leaves the constructor with path {fields!r}', trace(o))
    if not n:
        c.undecided.append('no failing nested schema was followed')


# ------------------------------------------------------------------ C30 / C31
def element_layouts(params):
    names = [q.name for q in params if q.kind not in ('VAR_POSITIONAL', 'VAR_KEYWORD') and q.init and q.field != '_FIELD_CLASSVAR']
    req = [q.name for q in params if q.name in names and not (q.default or q.factory)]
    extra = ['x', 'y'] if any(q.kind == 'VAR_KEYWORD' for q in params) else []
    pos = [q for q in params if q.kind in ('POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD') and q.name in names]
    out = [('mapping', tuple(names + extra)), ('mapping', tuple(reversed(names))), ('mapping', tuple(req))]
    if len(names) > 1:
        out.append(('mapping', (names[-1],)))
    top = len(pos) + (2 if any(q.kind == 'VAR_POSITIONAL' for q in params) else 0)
    for n in range(top + 1):
        out.append(('sequence', tuple(range(n))))
    out.append(('missing', ()))
    return list(dict.fromkeys(out))


def expected_fields(params, kind, keys):
    """-> {param: element value | [values] | {key: value}}, surplus"""
    out, left = {}, list(keys)
    for q in params:
        if not q.init or q.field == '_FIELD_CLASSVAR':
            continue
        if q.kind == 'VAR_POSITIONAL':
            out[q.name] = []
            if kind == 'sequence':
                out[q.name], left = [val(k) for k in left], []
        elif q.kind == 'VAR_KEYWORD':
            out[q.name] = {}
            if kind == 'mapping':
                names = {x.name for x in params if x.kind not in ('VAR_POSITIONAL', 'VAR_KEYWORD', 'POSITIONAL_ONLY')}
                out[q.name] = {k: val(k) for k in left if k not in names}
                left = [k for k in left if k not in out[q.name]]
        elif kind == 'sequence' and left and q.kind != 'KEYWORD_ONLY':
            out[q.name] = val(left.pop(0))
        elif kind == 'mapping' and q.name in left:
            left.remove(q.name)
            out[q.name] = val(q.name)
        else:
            out[q.name] = MISSING
    return out, left


def bind(params, args, kwargs):
    """Python's argument binding -> ({param: value}, error or None)."""
    ps = [q for q in params if q.init and q.field != '_FIELD_CLASSVAR']
    pos = [q for q in ps if q.kind in ('POSITIONAL_ONLY', 'POSITIONAL_OR_KEYWORD')]
    vp = next((q for q in ps if q.kind == 'VAR_POSITIONAL'), None)
    vk = next((q for q in ps if q.kind == 'VAR_KEYWORD'), None)
    out = {}
    for q, a in zip(pos, args):
        out[q.name] = a
    rest = list(args[len(pos):])
    if vp is not None:
        out[vp.name] = rest
    elif rest:
        return out, f'{len(rest)} positional argument(s) too many'
    if vk is not None:
        out[vk.name] = {}
    for k, v in kwargs:
        q = next((q for q in ps if q.name == k and q.kind in ('POSITIONAL_OR_KEYWORD', 'KEYWORD_ONLY')), None)
        if q is not None:
            if k in out:
                return out, f'two values for {k}'
            out[k] = v
        elif vk is not None:
            out[vk.name][k] = v
        else:
            return out, f'unexpected keyword {k}'
    for q in ps:
        if q.name not in out and not (q.default or q.factory):
            return out, f'no value for {q.name}'
    return out, None


def end_to_end(p, R, c, fam, params):
    """For each successful construction, unmarshal each layout. Yields
    (kind, keys, scene, init outcome)."""
    init = R.get(('init-ok', c.full, show(params)), lambda: initialise(p, R, c, params, schema_may_fail=False))
    yield None, None, init, None
    done = 0
    for o in init.decided():
        if not o.ok:
            continue
        done += 1
        if done > 4:
            break
        for kind, keys in element_layouts(params):
            if fam == 'typeddict' and kind == 'sequence':
                continue
            I = init.I
            st = o.st.fork()
            e = put_element(st, kind, keys)
            I.call_hook = lib.call_hook
            child_model(I)
            sc = execute(I, f'{c.full} [{show(params)}] <- {kind}{keys}', st, FuncV(method(p, c, 'unmarshal')), [init.me, e],
                         info=method(p, c, 'unmarshal'))
            yield kind, keys, sc, o


def conv(q, e):
    """The expected converted value(s) of parameter q for element e."""
    if isinstance(e, list):
        return [conv(q, x) for x in e]
    if isinstance(e, dict):
        return {k: conv(q, x) for k, x in e.items()}
    return (q, e)


def matches(got, want):
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(map(matches, got, want))
    if isinstance(want, dict):
        return isinstance(got, dict) and list(got) == list(want) and all(matches(got[k], want[k]) for k in want)
    q, e = want
    if e == MISSING and q.default and q.default != 'optional':
        return got == q.dflt
    if not (isinstance(got, Term) and got.op == 'U' and len(got.args) == 2 and got.args[1] == e):
        return False
    return right_schema(q, got.args[0])


def right_schema(q, s):
    if not (isinstance(s, Term) and s.op == 'schema'):
        return False
    ty = ExtV('typing.Any') if q.ann == 'none' else q.type
    d, f = schema_defaults(s)
    if s.args[1].cells:
        return False
    if q.default == 'optional':
        return s.args[0] == ty and f is None
    return s.args[0] == ty and d == (q.dflt if q.default else None) and f == (q.dflt if q.factory else None)


def c30(c):
    p = c.p
    R = Runs.of(p)
    c.rule('parameters', 'The call of the constructor binds, under Python\'s own argument binding, each accepted parameter to its own item converted by a schema built from its own annotation and default.')
    c.rule('bindable', 'The constructor call made from a fitting input is one the parameter kinds accept.')
    c.rule('constructible', 'A signature of any shape can be given a schema.')
    c.explain('Constructors of callable, data class, named tuple and fixed tuple schemas are abstractly run on enumerated signatures (all parameter kinds, defaults, '
              'factories, fields excluded from the constructor, init-only variables, missing and textual annotations) and the schema built is then run on mapping, '
              'sequence and missing elements; the resulting constructor call is bound to the signature.')
    c.assumptions.append('signatures are enumerated (up to five parameters); annotations and defaults are unknown values')
    for cls, fam in structured_classes(p):
        if fam == 'typeddict':
            continue
        for params in LAYOUTS[fam]():
            seen_ok = False
            for kind, keys, sc, o0 in end_to_end(p, R, cls, fam, params):
                c.use(sc)
                if kind is None:
                    good = any(o.ok for o in sc.outcomes)
                    if not sc.undecided():
                        c.ob('constructible', good, sc.info.where, f'{cls.full}: no schema can be built for [{show(params)}]: {sc.outcomes[:1]!r}')
                    continue
                want, left = expected_fields(params, kind, keys)
                want = {k: conv(next(q for q in params if q.name == k), v) for k, v in want.items()}
                w = method(p, cls, '__init__').where
                n = 0
                for o in sc.decided():
                    if not o.ok:
                        if o.is_marsh(p) and not o.exc.has('__child__') and not o.exc.has('__user__') and not left:
                            c.ob('parameters', False, o.origin(), f'{cls.full} [{show(params)}]: {show_el(kind, keys)} is refused: {o!r}', trace(o))
                        continue
                    n += 1
                    got = constructed(p, cls, o)
                    if got is None:
                        c.ob('parameters', False, w, f'{cls.full} [{show(params)}]: {show_el(kind, keys)} gives {o.value!r}', trace(o))
                        continue
                    args, kwargs = got
                    if cls.full == TUPLE or p.is_subclass(cls, TUPLE) is True:
                        bound, err = dict(zip((q.name for q in params), args)), None if len(args) == len(params) else f'{len(args)} items for {len(params)} types'
                    else:
                        bound, err = bind(params, args, kwargs)
                    c.ob('bindable', err is None, w, f'{cls.full} [{show(params)}]: {show_el(kind, keys)} calls the constructor with {args!r}, {kwargs!r}: {err}', trace(o))
                    if err is None:
                        for q in params:
                            if q.name not in want:
                                continue
                            g = bound.get(q.name)
                            if g is None and (q.default or q.factory) and want[q.name][1] == MISSING:
                                continue
                            c.ob('parameters', matches(g, want[q.name]), w,
                                 f'{cls.full} [{show(params)}]: {show_el(kind, keys)} passes {g!r} for parameter {q!r}', trace(o))
                        c.ob('parameters', set(bound) <= set(want), w, f'{cls.full} [{show(params)}]: passes values for {sorted(set(bound) - set(want))}', trace(o))
                if not n and not left and not sc.undecided():
                    c.ob('parameters', False, w, f'{cls.full} [{show(params)}]: {show_el(kind, keys)} never succeeds')


def c31(c):
    p = c.p
    R = Runs.of(p)
    cls = p.get_class(TD)
    c.rule('required', 'Each required key is in the result with its own converted item.')
    c.rule('optional', 'An optional key is in the result exactly when the element has it, with its own converted item.')
    c.rule('placeholder', 'No internal object of the schema appears in the result.')
    c.rule('refused', 'A typed dict is refused only because of a key\'s value, a missing required key or an unknown key.')
    c.explain('The typed dict schema is constructed abstractly for total, partial and mixed key sets and run on all subsets of keys, present or absent, in different orders, and on sequences that give the first keys by position.')
    import itertools
    for params in tdicts():
        init = R.get(('init-ok', cls.full, show(params)), lambda: initialise(p, R, cls, params, schema_may_fail=False))
        c.use(init)
        oks = [o for o in init.decided() if o.ok]
        if not init.undecided():
            c.ob('required', bool(oks), init.info.where, f'no schema can be built for [{show(params)}]: {init.outcomes[:1]!r}')
        names = [q.name for q in params]
        subsets = [k for n in range(len(names) + 1) for k in itertools.combinations(names, n)] + [tuple(reversed(names))]
        subsets += [(names[1], names[0])] if len(names) > 1 else []
        jobs = [('mapping', k) for k in subsets]
        if [bool(q.default) for q in params] == sorted(bool(q.default) for q in params):
            jobs += [('sequence', tuple(names[:n])) for n in range(len(names) + 1)]     # by position
        for o0 in oks[:4]:
            for kind, keys in jobs:
                I = init.I
                st = o0.st.fork()
                e = put_element(st, kind, keys)
                I.call_hook = lib.call_hook
                I.private_identity = True
                child_model(I)
                sc = c.use(execute(I, f'{cls.full} [{show(params)}] <- {kind} {keys}', st, FuncV(method(p, cls, 'unmarshal')), [init.me, e], info=method(p, cls, 'unmarshal')))
                w = method(p, cls, 'construct').where
                ok_n = 0
                for o in sc.decided():
                    what = f'[{show(params)}] with keys {keys}' + (' by position' if kind == 'sequence' else '')
                    if not o.ok:
                        missing = [q for q in params if not q.default and q.name not in keys]
                        if not o.exc.has('__child__') and not o.exc.has('__user__') and o.is_marsh(p) and not missing:
                            c.ob('refused', False, o.origin(), f'{what} is refused: {o!r}', trace(o))
                        continue
                    ok_n += 1
                    got = td_entries(p, cls, o)
                    if got is None:
                        c.ob('required', False, w, f'{what} gives {o.value!r}', trace(o))
                        continue
                    d = dict(got)
                    for q in params:
                        if q.default:
                            good = (q.name in d) == (q.name in keys) and (q.name not in d or matches(d[q.name], (q, val(q.name))))
                            c.ob('optional', good, w, f'{what}: optional key {q.name!r} gives {d.get(q.name, "no entry")!r}', trace(o))
                        else:
                            good = q.name in d and matches(d[q.name], (q, val(q.name) if q.name in keys else MISSING))
                            c.ob('required', good, w, f'{what}: required key {q.name!r} gives {d.get(q.name, "no entry")!r}', trace(o))
                    priv = [k for k, v in got if isinstance(v, Ref) and isinstance(o.st.heap.get(v.id), Inst)]
                    c.ob('placeholder', not priv and set(d) <= set(names), w, f'{what}: the result holds {got!r}', trace(o))
                if not ok_n and not sc.undecided():
                    c.ob('refused', False, w, f'[{show(params)}] with keys {keys} never succeeds')


def td_entries(p, cls, o):
    got = constructed(p, cls, o)
    if got is not None and not got[0]:
        return got[1]
    v = o.value
    if isinstance(v, Term) and v.op == 'usercall' and len(v.args[1].cells) == 1:
        r = v.args[1].cells[0][1]
        ob = o.st.heap.get(r.id) if isinstance(r, Ref) else None
        if isinstance(ob, Dct) and all(x[0] == '1' and isinstance(x[1], Const) for x in ob.cells):
            return [(x[1].v, x[2]) for x in ob.cells]
    return None


# ------------------------------------------------------------------ defaults, wrapping
def construct_with(p, R, c, default, targs=(), attrs=None, extra_kw=(), **ikw):
    I = build_interp(R, schema_may_fail=False, **ikw)
    st = State()
    prepare(st)
    I.targs = Tup([one(x) for x in targs])
    if attrs:
        attrs(I, st)
    me = st.new(Inst(c, ()))
    kw = [('default', D)] if default == 'default' else [('default_factory', F)] if default == 'factory' else []
    sc = execute(I, f'{c.full}.__init__ [{default}]', st, FuncV(method(p, c, '__init__')), [me, T], kw + list(extra_kw), info=method(p, c, '__init__'))
    sc.me = me
    return sc


A1, A2 = Sym('A1'), Sym('A2')


def own_init(p):
    out = []
    for c in classes(p):
        if c.full.startswith(S + 'types.') or c.full.startswith(S + 'template.') or family(p, c) == 'wrapper':
            out.append(c)
    return out


def wrap_kw(p, c):
    return [('wrapped', Tup([one(Sym('WT'))]))] if family(p, c) == 'wrapper' else []


def tsetup(p, c):
    def go(I, st):
        for a in (A1, A2):
            st.kinds[a] = frozenset(('type',))
            for n in ('eq', 'is'):
                st.facts[Term(n, *sorted((a, Tup(())), key=repr))] = False
        st.facts[Term('issubclass', Sym('WT'), ExtV('marsh.schema.core.base.Schema'))] = True
        I.tattrs['__bound__'] = A1
        I.tattrs['__constraints__'] = Tup(())
        if family_of(p, c):
            setup_type(p, I, st, c, LAYOUTS[family_of(p, c)]()[1])
    return go


def check_defaults_forwarded(c):
    p = c.p
    R = Runs.of(p)
    c.rule('keeps-default', 'The constructor of every schema keeps the default and the default factory it is given, unchanged.')
    for cls in own_init(p):
        for d in DEFAULTS:
            sc = R.get(('init-default', cls.full, d), lambda: construct_with(p, R, cls, d, (A1,), tsetup(p, cls), wrap_kw(p, cls)))
            c.use(sc)
            want = DEFAULTS[d]
            for o in sc.decided():
                if not o.ok:
                    continue
                me = o.st.obj(sc.me)
                got = (me.get('default'), me.get('default_factory'))
                c.ob('keeps-default', got == want, sc.info.where, f'{cls.full} constructed with {d} has default {got[0]!r} and factory {got[1]!r}', trace(o))


def check_wrapped_build(c):
    """The schema a delegating type builds gets the same default arguments."""
    p = c.p
    R = Runs.of(p)
    for cls in wrapper_classes(p):
        for d in DEFAULTS:
            sc = R.get(('init-default', cls.full, d), lambda: construct_with(p, R, cls, d, (A1,), tsetup(p, cls), wrap_kw(p, cls)))
            c.use(sc)
            for o in sc.decided():
                if not o.ok:
                    continue
                if family(p, cls) == 'wrapper':
                    wrapped_runs(c, p, cls, d, sc, o)
                    continue
                s = o.st.obj(sc.me).get('schema')
                ok = isinstance(s, Term) and s.op == 'schema' and s.args[0] == A1
                c.ob('built-same', ok, sc.info.where, f'{cls.full}: the wrapped schema is {s!r}, not one of the wrapped type', trace(o))
                if ok:
                    got = schema_defaults(s)
                    want = tuple(None if x == MISSING else x for x in DEFAULTS[d])
                    c.ob('built-same', got == want and not s.args[1].cells, sc.info.where,
                         f'{cls.full} constructed with {d}: the wrapped schema gets default {got[0]!r}, factory {got[1]!r}', trace(o))


def wrapped_runs(c, p, cls, d, init, o0):
    """Lazily built wrapped schemas: unmarshal through a freshly constructed wrapper."""
    if p.find_member(cls, 'unmarshal')[1][1].full != WRAPPER_U + '.unmarshal':
        return
    st = o0.st.fork()
    st.kinds[E] = NOT_MISSING
    f = method(p, cls, 'unmarshal')
    sc = c.use(execute(init.I, f'{cls.full} [{d}] first use', st, FuncV(f), [init.me, E], info=f))
    for o in sc.decided():
        if not o.ok:
            continue
        v = o.value
        s = v.args[0] if isinstance(v, Term) and v.op == 'U' and len(v.args) == 2 and v.args[1] == E else None
        ok = isinstance(s, Term) and s.op in ('usercall', 'call') and s.args[0] == Sym('WT')
        c.ob('built-same', ok, f.where, f'{cls.full}: the first use gives {v!r}, not the wrapped schema\'s result', trace(o))
        if ok:
            pos = [x[1] for x in s.args[1].cells]
            kw = {x[1].v: x[2] for x in s.args[2].cells if x[0] == '1' and isinstance(x[1], Const)}
            got = (kw.get('default', MISSING), kw.get('default_factory', MISSING))
            ok = pos == [T] and got == DEFAULTS[d] and 'wrapped' not in kw
            c.ob('built-same', ok, f.where, f'{cls.full} constructed with {d}: the wrapped schema is built by {s!r}', trace(o))


def check_item_schemas(c):
    """Sequence and mapping types build their item schemas from their own item types."""
    p = c.p
    R = Runs.of(p)
    c.rule('own-type', 'The item, key and value schemas are built from the item, key and value type of the container type.')
    for fam in ('sequence', 'mapping'):
        for cls in classes(p, fam):
            f = p.find_member(cls, '__init__')[1][1]
            if f.cls is None or not f.full.startswith(S + 'types.'):
                continue
            for targs in ((A1, A2), ()):
                sc = c.use(R.get(('init-items', cls.full, targs), lambda: construct_with(p, R, cls, 'none', targs, tsetup(p, cls))))
                for o in sc.decided():
                    if not o.ok:
                        continue
                    me = o.st.obj(sc.me)
                    pairs = [('value_schema', ('seqtype', 'args') if fam == 'sequence' else ('valtype',))] + ([('key_schema', ('keytype',))] if fam == 'mapping' else [])
                    for attr, ops in pairs:
                        s = me.get(attr)
                        ok = isinstance(s, Term) and s.op == 'schema' and not s.args[1].cells and schema_defaults(s) == (None, None)
                        ty = s.args[0] if ok else None
                        ok = ok and ((isinstance(ty, Term) and ty.op in ops and ty.args[0] == T) or
                                     ('args' in ops and ty == (targs[0] if targs else ExtV('typing.Any'))))
                        c.ob('own-type', ok, f.where, f'{cls.full}: {attr} is {s!r}', trace(o))


def check_member_schemas(c):
    """Union-like types build their members in declaration order."""
    p = c.p
    R = Runs.of(p)
    c.rule('declared-order', 'The member schemas are built from the declared members, all of them, in declaration order.')
    ms = [Sym('T:m1'), Sym('T:m2'), Sym('T:m3')]
    for cls in classes(p, 'union'):
        f = p.find_member(cls, '__init__')[1][1]
        if not f.full.startswith(S + 'types.'):
            continue

        def attrs(I, st):
            for m in ms:
                st.kinds[m] = frozenset(('type', 'other'))
            st.content[T] = st.new(Lst(tuple(map(one, ms)), 'list', 'input', T))
            st.kinds[T] = frozenset(('type',))
        sc = c.use(R.get(('init-members', cls.full), lambda: construct_with(p, R, cls, 'none', ms, attrs)))
        for o in sc.decided():
            if not o.ok:
                continue
            s = o.st.obj(sc.me).get('schemas')
            cont = sc.I.container(s, o.st) if s is not None else None
            got = [member_of(x[1], o.st, ms) for x in cont.cells] if cont is not None and all(x[0] == '1' for x in cont.cells) else None
            if got is not None and None in got:
                continue        # members of unknown make: undecided
            c.ob('declared-order', got == ms, f.where, f'{cls.full}: the members {ms!r} are tried as {got!r}', trace(o))


def member_of(s, st, ms):
    if isinstance(s, Term):
        for m in ms:
            if contains(s, (m,), st):
                return m
    if isinstance(s, Ref):
        o = st.heap.get(s.id)
        if isinstance(o, Inst):
            for m in ms:
                if contains(o.get('value'), (m,), st):
                    return m
    return None


CHECKS = {'C30': c30, 'C31': c31}
