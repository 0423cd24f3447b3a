"""Conversion rules: what every schema's `unmarshal` does with its element.

One set of abstract executions of all unmarshal methods is shared by
C01-C08, C25 and C31; each property reads its own obligations off the outcomes.
"""
import itertools
from ..scen import *
from ..report import Check

ERR = lib.ERR
MISSING_ERR = 'marsh.errors.MissingValueError'
OPTIONAL = 'marsh.utils.is_optional'


# ------------------------------------------------------------------ set-ups
class Shape:
    """A structured type: fields, and which of them are positional-only."""

    def __init__(self, names, positional=()):
        self.names, self.positional = names, positional

    def schema(self, n):
        return Sym('S:' + n)

    def __repr__(self):
        return '(' + ', '.join(('/' if n in self.positional else '') + n for n in self.names) + ')'


PLAIN = Shape(('a', 'b', 'c'))
MIXED = Shape(('c', 'a', 'b'))          # not in alphabetical order
WIDE = Shape(tuple(str(i) for i in range(11)))      # '10' sorts before '2'
SHAPES = {
    'plain': [PLAIN, MIXED],
    'callable': [
        PLAIN,
        Shape(('a', 'b', '*r'), ('a', 'b')),
        Shape(('a', 'b', '**k')),
        Shape(('a', 'b', '*r', 'c', '**k'), ('a', 'b')),
        Shape(('*r', '**k')),
        Shape(('a', 'b'), ('a',)),
    ],
}
# element contents; values are atoms, keys are field names or unknown names
MAPPINGS = [(), ('a',), ('b',), ('b', 'a'), ('c', 'b', 'a'), ('a', 'b', 'c', 'x'), ('x', 'y'), ('r',), ('k', 'a'), ('*r',), ('**k',)]
SEQS = [0, 1, 2, 3, 4, 5]


def val(k):
    return Sym(f'E[{k}]')


def elements(shape):
    if shape is WIDE:
        n = shape.names
        yield from (('mapping', n), ('mapping', n[::-1]), ('mapping', n[::-1] + ('x',)), ('sequence', tuple(range(len(n)))), ('sequence', tuple(range(len(n) + 1))))
        return
    if shape is MIXED:
        yield from (('mapping', ()), ('mapping', ('a',)), ('mapping', ('a', 'b', 'c')), ('mapping', ('b', 'c', 'a', 'x')), ('sequence', (0, 1)), ('sequence', (0, 1, 2)))
        return
    for keys in MAPPINGS:
        yield 'mapping', keys
    for n in SEQS:
        yield 'sequence', tuple(range(n))
    yield 'missing', ()


def put_element(st, kind, keys):
    if kind == 'missing':
        return MISSING
    st.kinds[E] = frozenset((kind,))
    if kind == 'mapping':
        o = Dct(tuple(kv(Const(k), val(k)) for k in keys), 'dict', 'input', E)
    else:
        o = Lst(tuple(one(val(k)) for k in keys), 'list', 'input', E)
    st.content[E] = st.new(o)
    return E


def U(s, x):
    return Term('U', s, x)


def expected_structured(shape, kind, keys):
    """-> (args, kwargs, conversions) or None when the input must be refused.
    conversions: [(schema, element, path fields)] in order."""
    args, kwargs, conv = [], [], []
    left = list(keys)

    def use(n, el, *path):
        conv.append((shape.schema(n), el, path))
        return U(shape.schema(n), el)
    for n in shape.names:
        plain = n.strip('*')
        if n.startswith('**'):
            if kind != 'sequence':
                for k in left:
                    kwargs.append((k, use(n, val(k), plain, k)))
                left = []
        elif n.startswith('*'):
            if kind == 'sequence':
                for i, k in enumerate(left):
                    args.append(use(n, val(k), plain, str(i)))
                left = []
        else:
            if kind == 'sequence' and left:
                args.append(use(n, val(left.pop(0)), plain))
                continue
            if kind != 'sequence' and n in left:
                left.remove(n)
                v = use(n, val(n), plain)
            else:
                v = use(n, MISSING, plain)
            if n in shape.positional:
                args.append(v)
            else:
                kwargs.append((n, v))
    if left:
        return None, None, conv
    return args, kwargs, conv


def events(o, *ops):
    return tuple(e for e in o.st.events if e[0] in ops)


def flat_events(o, *ops):
    out = []
    for e in o.st.events:
        if e[0] == 'loop':
            out.extend(x for x in sorted(e[2], key=repr) if x[0] in ops)
        elif e[0] in ops:
            out.append(e)
    return out


def show_el(kind, keys):
    if kind == 'missing':
        return 'a missing element'
    return f'a {kind} with ' + (('keys ' + ', '.join(map(str, keys))) if kind == 'mapping' else f'{len(keys)} item(s)') if keys else f'an empty {kind}'


def trace(o):
    return ' '.join(o.st.trace)


# ------------------------------------------------------------------ runs
class Runs:
    """All abstract executions, computed once per process and shared."""
    cache = {}

    def __init__(self, p):
        self.p = p
        self.done = {}

    @classmethod
    def of(cls, p):
        if id(p) not in cls.cache:
            cls.cache[id(p)] = cls(p)
        return cls.cache[id(p)]

    def interp(self, **kw):
        I = lib.make(self.p, budget=kw.pop('budget', 25.0))
        I.default_items = kw.pop('items', 1)
        install(I)
        for k, v in kw.items():
            setattr(I, k, v)
        return I

    def get(self, key, fn):
        if key not in self.done:
            self.done[key] = fn()
        return self.done[key]

    def unmarshal(self, c, name, default, element, extra=None, setup=None, args=(), kw=(), **ikw):
        def go():
            I = self.interp(**ikw)
            st = State()
            more = extra(st) if extra else {}
            me = make_self(self.p, I, st, c, default, **more)
            el = element(st)
            if setup:
                setup(I, st, me)
            preset = tuple(st.facts)
            sc = execute(I, f'{c.full}.unmarshal [{name}, default={default}]', st,
                         FuncV(method(self.p, c, 'unmarshal')), [me, el] + list(args), kw,
                         info=method(self.p, c, 'unmarshal'))
            sc.me, sc.preset = me, preset
            return sc
        return self.get((c.full, name, default), go)


def install(I):
    """Library models specific to conversion."""
    I.models['marsh.element.has_missing'] = lambda I, pos, kw, st, fr, node: [
        (s, mk(b)) for s, b in I.fact(st, Term('has_missing', pos[0][1]))]
    I.models[OPTIONAL] = lambda I, pos, kw, st, fr, node: [
        (s, mk(b)) for s, b in I.fact(st, Term('is_optional', pos[0][1]))]
    I.models['marsh.utils.get_annotations'] = annotations_model
    I.models['marsh.schema.namespace.Namespaces.find_subclasses'] = subclasses_model
    for n, errs in RAISES.items():
        I.models['marsh.utils.' + n] = partial_model(n, errs)
    for n in ('base64_to_bytes',):
        I.models['marsh.utils.' + n] = partial_model(n, ('builtins.Exception',))
    I.ext_raises.update(EXT_RAISES)
    I.ext_models['dateparser.parse'] = dateparse


# helpers whose own contract is decided elsewhere (C28, C29)
RAISES = {'cast_primitive': ('builtins.ValueError',), 'cast_literal': ('builtins.ValueError',)}
EXT_RAISES = {
    'datetime.datetime.fromtimestamp': ('builtins.ValueError', 'builtins.OverflowError', 'builtins.OSError'),
    'datetime.datetime.fromisoformat': ('builtins.ValueError', 'builtins.TypeError'),
    'datetime.datetime.strptime': ('builtins.ValueError', 'builtins.TypeError'),
    'datetime.datetime.utcfromtimestamp': ('builtins.ValueError', 'builtins.OverflowError', 'builtins.OSError'),
    'base64.b64decode': ('binascii.Error', 'builtins.ValueError'),
    'base64.urlsafe_b64decode': ('binascii.Error', 'builtins.ValueError'),
}


def partial_model(name, errs):
    def f(I, pos, kw, st, fr, node):
        t = Term('call', ExtV(name), Tup(pos), Tup(kw, 'kw'))
        out = [(st, t)]
        for e in errs:
            s2 = st.fork()
            out.append((s2, I.raise_new(s2, e, node, fr)))
        return out
    return f


def dateparse(I, pos, kw, st, fr, node):
    v = pos[0][1]
    t = Term('call', ExtV('dateparser.parse'), Tup(pos), Tup(kw, 'kw'))
    st.kinds[t] = frozenset(('none', 'other'))
    k = I.kinds(v, st)
    out = [(st, t)]
    if not k <= frozenset(('str', 'missing')):
        s2 = st.fork()
        out.append((s2, I.raise_new(s2, 'builtins.TypeError', node, fr)))
    return out


def annotations_model(I, pos, kw, st, fr, node):
    return [(st, getattr(I, 'annotations', Tup(())))]


def subclasses_model(I, pos, kw, st, fr, node):
    pairs = [Tup([one(Const(n)), one(Sym('NS:' + n))]) for n in ('n1', 'n2')]
    return [(st, st.new(Lst(tuple(map(one, pairs)))))]


def any_el(st):
    st.kinds[E] = NOT_MISSING
    return E


def missing_el(st):
    return MISSING


def members(n):
    return [Sym(f'M{i}') for i in range(1, n + 1)]


def union_setup(n, optional=None):
    """optional: None for no optional, else index of the null member."""
    ms = members(n)

    def extra(st):
        st.facts[Term('is_optional', T)] = optional is not None
        for i, m in enumerate(ms):
            st.kinds[m] = frozenset(('other',))
            v = Term('attr', m, 'value')
            if i == optional:
                st.kinds[v] = frozenset(('none',))
            elif optional is not None:
                st.kinds[v] = frozenset(('other',))
                for n in ('types.NoneType', 'builtins.NoneType'):
                    for op in ('eq', 'is'):
                        st.facts[Term(op, *sorted((v, ExtV(n)), key=repr))] = False
        return {'schemas': Tup(map(one, ms))}
    return ms, extra


def structured_extra(shape):
    def extra(st):
        d = Dct(tuple(kv(Const(n), shape.schema(n)) for n in shape.names))
        out = {'schemas': st.new(d)}
        if shape.positional:
            out['positional'] = Tup([one(Const(n)) for n in shape.positional])
        return out
    return extra


def classes(p, fam=None):
    out = []
    for c in unmarshal_classes(p):
        if fam is None or family(p, c) == fam:
            out.append(c)
    return out


def is_named(p, c, *names):
    return any(p.is_subclass(c, S + n) is True for n in names)


def shapes_for(p, c):
    if is_named(p, c, 'template.callable.CallableUnmarshalSchema') or c.full == TEMPLATE['structured']:
        return SHAPES['callable'] + [MIXED]
    if c.full == TUPLE:
        return [PLAIN, WIDE]
    return SHAPES['plain']


TD = S + 'types.typeddict.TypedDictUnmarshalSchema'
LITV = S + 'types.literal.LiteralValueUnmarshalSchema'
LIT = S + 'types.literal.LiteralUnmarshalSchema'
ENUMV = S + 'types.enum.EnumValueUnmarshalSchema'
PROTO = S + 'types.protocol.ProtocolUnmarshalSchema'
ANN = S + 'types.annotated.AnnotatedUnmarshalSchema'
TYPEVAR = S + 'types.typevar.TypeVarUnmarshalSchema'
NONE_S = S + 'types.none.NoneUnmarshalSchema'
NS = S + 'types.namespace.NamespaceUnmarshalSchema'
LOGGER = S + 'types.logger.LoggerUnmarshalSchema'
SLICE = S + 'types.slice.SliceUnmarshalSchema'
DEFDICT = S + 'types.defaultdict.DefaultDictUnmarshalSchema'


def generic_extra(p, c):
    """Attribute presets for `c` that do not depend on a particular shape."""
    fam = family(p, c)
    if fam == 'structured':
        base = structured_extra(PLAIN)
    elif fam == 'union':
        base = union_setup(3)[1]
    else:
        base = lambda st: {}
    n = c.full

    def extra(st):
        out = base(st)
        if n == PROTO:
            out['matched'] = Tup(map(one, members(3)))
        elif n == LITV:
            out['schema'] = Sym('LS')
            out['literal_value'] = Sym('LV')
            st.kinds[out['literal_value']] = ALL_KINDS - {'mapping', 'sequence', 'type'}
        elif n == ENUMV:
            out['value'] = Sym('MEMBER')        # a member, possibly of an enum mixed with a primitive type
            st.kinds[out['value']] = frozenset(('other', 'bool', 'int', 'float', 'str'))
        elif n in (ANN, TYPEVAR):
            out['schema'] = Sym('WS')
        elif n == DEFDICT:
            out['initializer'] = Sym('INIT')
        elif n == TD:
            out['_sentinel'] = Sym('SENT')
            out['optional_keys'] = Tup([one(Const('b')), one(Const('c'))])
            out['required_keys'] = Tup([one(Const('a'))])
        return out
    return extra


# ------------------------------------------------------------------ catalogue of runs
def sweep(p):
    """Every unmarshal method x default configuration x {missing, anything else}."""
    R = Runs.of(p)
    for c in classes(p):
        for d in DEFAULTS:
            yield c, d, 'any', R.unmarshal(c, 'any element', d, any_el, generic_extra(p, c))
            yield c, d, 'missing', R.unmarshal(c, 'missing element', d, missing_el, generic_extra(p, c))


def structured_runs(p):
    """Every structured type x shape x concrete element layout."""
    R = Runs.of(p)
    for c in classes(p, 'structured'):
        for shape in shapes_for(p, c):
            base = generic_extra(p, c)

            def extra(st, shape=shape, base=base):
                out = base(st)
                out.update(structured_extra(shape)(st))
                return out
            for kind, keys in elements(shape):
                def el(st, kind=kind, keys=keys):
                    return put_element(st, kind, keys)

                def setup(I, st, me, shape=shape, c=c, kind=kind, keys=keys):
                    if c.full == TD:
                        for n in shape.names:
                            for x in [MISSING] + [val(k) for k in keys]:
                                t = Term('is', *sorted((U(shape.schema(n), x), Sym('SENT')), key=repr))
                                st.facts[t] = x == MISSING and n in ('b', 'c')
                sc = R.unmarshal(c, f'{shape} <- {kind}{keys}', 'none', el, extra, setup)
                yield c, shape, kind, keys, sc


def collection_runs(p):
    """Every sequence-like and mapping-like type on an arbitrary container."""
    R = Runs.of(p)
    for fam in ('sequence', 'mapping'):
        def el(st, fam=fam):
            st.kinds[E] = frozenset((fam,))
            return E
        for c in classes(p, fam):
            yield c, fam, R.unmarshal(c, f'any {fam}', 'none', el, generic_extra(p, c), injective=frozenset(('U',)), items=2)


def counted_runs(p):
    """The same on containers of a known number of items, where positions can be compared."""
    R = Runs.of(p)
    for fam in ('sequence', 'mapping'):
        for n in range(4):
            def el(st, fam=fam, n=n):
                return put_element(st, fam, tuple(f'k{i}' for i in range(n)))
            for c in classes(p, fam):
                yield c, fam, R.unmarshal(c, f'{fam} of {n}', 'none', el, generic_extra(p, c), injective=frozenset(('U',)))


def hashing_runs(p):
    """The same where converted keys and items may have no hash."""
    R = Runs.of(p)
    for fam in ('sequence', 'mapping'):
        def el(st, fam=fam):
            st.kinds[E] = frozenset((fam,))
            return E
        for c in classes(p, fam):
            yield c, fam, R.unmarshal(c, f'any {fam}, items without hash', 'none', el, generic_extra(p, c), injective=frozenset(('U',)), items=2,
                                      may_unhash=lambda k, st: isinstance(k, Term) and k.op == 'U')


def union_runs(p):
    R = Runs.of(p)
    for c in classes(p):
        if not (family(p, c) == 'union' or c.full == PROTO):
            continue
        for n in (1, 2, 3):
            for opt in ((None, 0, 1) if n == 2 and family(p, c) == 'union' and c.full != LIT else (None,)):
                if family(p, c) == 'union':
                    ms, ex = union_setup(n, opt)
                else:
                    ms = members(n)

                    def ex(st, ms=ms):
                        return {'matched': Tup(map(one, ms))}
                for nm, elf in (('any', any_el), ('missing', missing_el)):
                    sc = R.unmarshal(c, f'{n} members, null member {opt}, {nm} element', 'none', elf, ex, child_any_exc=True,
                                     schema_may_fail=False)
                    yield c, n, opt, nm, ms, sc


def wrapper_classes(p):
    return [c for c in classes(p) if family(p, c) == 'wrapper' or c.full in (ANN, TYPEVAR)]


# ------------------------------------------------------------------ C01
def report_mutations(c, sc, roots, what):
    bad = {}
    for o in sc.decided():
        for e in flat_events(o, 'mutate'):
            r = e[1]
            if rooted(r, roots, o.st):
                bad.setdefault(e[3], (e, o))
    for loc, (e, o) in bad.items():
        c.ob('no-mutation', False, loc, f'{what}: `{e[2]}` modifies the caller\'s object {e[1]!r}', trace(o))
    if not bad:
        for o in sc.decided()[:1]:
            c.ob('no-mutation', True, sc.name, '')


def rooted(v, roots, st):
    if v in roots:
        return True
    if isinstance(v, Sym):
        return any(v.name.startswith(f'{x}({r!r})') or v.name.startswith(f'{r!r}[') or f'({r!r})' in v.name
                   for r in roots for x in ('item', 'val', 'key'))
    if isinstance(v, Term):
        return v.op in ('item', 'val', 'get', 'attr') and bool(v.args) and rooted(v.args[0], roots, st)
    return False


# ------------------------------------------------------------------ C02
def c02(c):
    p = c.p
    c.rule('library-error', 'An exception that leaves `unmarshal` is a subclass of MarshError, unless user code (a constructor, default factory or hook) raised it itself.')
    c.explain('Every unmarshal method (all built-in types, all default configurations, structured types in all shapes, unions of 1-3 members) '
              'is abstractly executed on an element of unknown kind; the exceptions of every partial operation on the way are followed to the nearest matching handler.')

    def look(cls, sc, exempt=True):
        c.use(sc)
        for o in sc.decided():
            if o.ok:
                continue
            if exempt and o.exc.has('__user__'):
                continue
            c.ob('library-error', o.is_marsh(p), o.origin(), f'{cls.full}: {o.cls_name()} escapes from {sc.name}', trace(o))
    for cls, d, nm, sc in sweep(p):
        look(cls, sc)
    for cls, shape, kind, keys, sc in structured_runs(p):
        look(cls, sc)
    for cls, fam, sc in itertools.chain(collection_runs(p), counted_runs(p)):
        # the only foreign call is the constructor, also of builtin collections, given converted input
        look(cls, sc, exempt=False)
    for cls, fam, sc in hashing_runs(p):
        look(cls, sc, exempt=False)
    for cls, n, opt, nm, ms, sc in union_runs(p):
        look(cls, sc)
    casts_only_value_error(c)


def casts_only_value_error(c):
    """The contract under which the callers above were analysed."""
    from . import primitive
    for sc in primitive.cast_scenes(c.p):
        c.use(sc)
        for o in sc.decided():
            if not o.ok and not o.exc.has('__user__'):
                ok = c.p.is_subclass(o.exc.cls, 'builtins.ValueError')
                c.ob('cast-error', ok is not False, o.origin(), f'{o.cls_name()} escapes from {sc.name}, whose callers handle ValueError', trace(o))
    c.rule('cast-error', 'cast_primitive and cast_literal report unsuitable values by ValueError only (the error their callers convert).')


# ------------------------------------------------------------------ C03
def nest(path, fields):
    for f in reversed(fields):
        path = Term('prepend', path, f)
    return path


def path_fields(v):
    """Split prepend(prepend(base, inner), outer) -> (base, [outer, inner])."""
    out = []
    while isinstance(v, Term) and v.op == 'prepend':
        out.append(v.args[1])
        v = v.args[0]
    return v, out


def same_field(a, b, st, I):
    """Does the prepended field denote position/key b?"""
    if isinstance(b, Term) and b.op == 'idx':
        if isinstance(a, Term) and a.op in ('str', 'fstr') and len(a.args) == 1:
            a = a.args[0]
            return I.norm_index(a, st) == I.norm_index(b, st)
        nb = I.norm_index(b, st)
        return isinstance(a, Const) and isinstance(nb, Const) and a.v == str(nb.v)
    if isinstance(b, Const):
        if isinstance(a, Term) and a.op == 'str' and isinstance(a.args[0], Term):
            a = I.norm_index(a.args[0], st)
        return isinstance(a, Const) and str(a.v) == str(b.v)
    return a == b or a == Term('str', b)


def c03(c):
    p = c.p
    c.rule('path', 'An error from the schema of a nested element leaves the parent with exactly that element\'s position (field name, key or index) prepended to its path.')
    c.rule('build-path', 'An error from building a nested schema leaves the constructor of the parent schema with the field name prepended to its path.')
    c.explain('Each child conversion in every container, structured and component type is made to fail with a library error carrying an unknown path; '
              'the path attribute of the error that leaves the method is compared with the position of that child in the element.')
    for cls, shape, kind, keys, sc in structured_runs(p):
        c.use(sc)
        _, _, conv = expected_structured(shape, kind, keys)
        want = {}
        for s, e, path in conv:
            want.setdefault((s, e), []).append(path)
        for o in sc.decided():
            if o.ok or not o.exc.has('__child__'):
                continue
            ch = o.exc.get('__child__')
            pair = (ch.cells[0][1], ch.cells[1][1])
            base, fields = path_fields(o.path())
            for path in want.get(pair, ()):
                exp = list(path)
                if base == Term('childpath', *pair) and len(fields) == len(exp) and all(
                        same_field(a, Const(b), o.st, sc.I) for a, b in zip(fields, exp)):
                    break
            else:
                if pair in want:
                    c.ob('path', False, o.origin(), f'{cls.full} {shape}, {show_el(kind, keys)}: the error of {pair[1]!r} leaves with path {fields!r}, expected {list(want[pair][0])!r}', trace(o))
                continue
            c.ob('path', True, o.origin(), '')
    for cls, fam, sc in itertools.chain(collection_runs(p), counted_runs(p)):
        c.use(sc)
        for o in sc.decided():
            if o.ok or not o.exc.has('__child__'):
                continue
            ch = o.exc.get('__child__')
            recv, a = ch.cells[0][1], ch.cells[1][1]
            pos = position(o, fam, a, sc.I)
            if pos is None:
                continue
            base, fields = path_fields(o.path())
            ok = base == Term('childpath', recv, a) and len(fields) == 1 and same_field(fields[0], pos, o.st, sc.I)
            if not ok and base == Term('childpath', recv, a) and not fields and empty_key(o.st, pos):
                ok = True
            c.ob('path', ok, o.origin(), f'{cls.full}: the error of {a!r} leaves with path {o.path()!r}, expected the field {pos!r} prepended', trace(o))
    component_paths(c)
    blame(c)
    from . import build
    build.check_build_paths(c)


def blame(c):
    """What the error itself says about the element and the type at fault."""
    c.rule('blame', 'An error a schema raises about its own element names, where it names them, the type of that schema and that element, never something unrelated.')
    for cls, d, nm, sc in sweep(c.p):
        c.use(sc)
        for o in sc.decided():
            if o.ok or o.exc.has('__child__') or o.exc.has('__user__') or not o.is_marsh(c.p):
                continue
            if o.exc.has('type'):
                t = o.exc.get('type')
                c.ob('blame', not unrelated(t, cls) and t != E, o.origin(), f'{cls.full}: the error about {sc.name} names the type {t!r}, expected the type of the schema', trace(o))
            if o.exc.has('element'):
                e = o.exc.get('element')
                c.ob('blame', not (isinstance(e, (ClassV, FuncV, ExtV)) or e == T), o.origin(),
                     f'{cls.full}: the error about {sc.name} names {e!r} as the element, expected the element that was given', trace(o))


def unrelated(t, cls):
    """A class or function written into the code that is not the type this schema is for."""
    if isinstance(t, (ClassV, FuncV, ExtV, BoundV)):
        return repr(t).strip('<>').split('.')[-1].lower() not in cls.full.split('.')[-1].lower()
    return False


def empty_key(st, pos):
    for t in (Term('truth', pos), Term('truth', Term('str', pos))):
        if st.facts.get(t) is False:
            return True
    return False


def position(o, fam, a, I):
    """The key or index of child element a of E."""
    r = o.st.content.get(E)
    if r is None:
        return None
    cells = o.st.obj(r).cells
    for n, cell in enumerate(cells):
        if fam == 'sequence':
            if a in (cell[1:] if cell[0] == '1' else cell[2]):
                return I.index(cells, n)
        else:
            for k, v in ([cell[1:]] if cell[0] == '1' else cell[2]):
                if a == v or a == k:
                    return k
    return None


def component_paths(c):
    """A component name that does not resolve is reported at field `name`."""
    p = c.p
    cls = p.get_class(NS)
    for sc in ns_runs(p):
        c.use(sc)
        for o in sc.decided():
            if not o.ok and not o.exc.has('__child__') and o.is_marsh(p):
                c.ob('path', o.path() == Const('name') or path_fields(o.path())[1] == [Const('name')], o.origin(),
                     f'an unresolvable component name is reported with path {o.path()!r}, expected the field `name`', trace(o))


def ns_runs(p):
    R = Runs.of(p)
    cls = p.get_class(NS)
    NAME = Sym('NAME')

    def layout(keys):
        def el(st):
            st.kinds[E] = frozenset(('mapping',))
            st.kinds[NAME] = frozenset(('str',))
            o = Dct(tuple(kv(Const(k), NAME if k == 'name' else val(k)) for k in keys), 'dict', 'input', E)
            st.content[E] = st.new(o)
            return E
        return el
    for keys in (('name',), ('a', 'name', 'b'), ('a',), ()):
        yield R.unmarshal(cls, f'mapping{keys}', 'none', layout(keys))


# ------------------------------------------------------------------ C04
def c04(c):
    p = c.p
    c.rule('default-on-missing', 'With a missing element and a default, every outcome is exactly that default, and no child schema is consulted.')
    c.rule('factory-on-missing', 'With a missing element and a default factory, the factory is called exactly once and its result returned.')
    c.rule('explicit-wins', 'With a given element, neither the default is returned nor the factory called.')
    c.explain('All unmarshal methods of the built-in types, with no default, a default of unknown (possibly falsy or null) value, or a factory.')
    wr = wrapper_classes(p)
    for cls, d, nm, sc in sweep(p):
        if cls.full == NONE_S or cls in wr or d == 'none':
            continue
        c.use(sc)
        w = sc.info.where
        for o in sc.decided():
            calls = flat_events(o, 'usercall')
            fcalls = [e for e in calls if e[1] == F]
            if nm == 'any':
                bad = (o.ok and contains(o.value, (D,), o.st)) or bool(fcalls)
                c.ob('explicit-wins', not bad, w, f'{cls.full}: a given element is replaced by the default', trace(o))
            elif d == 'default':
                ok = o.ok and o.value == D and not flat_events(o, 'U') and not calls
                c.ob('default-on-missing', ok, w if o.ok else o.origin(), f'{cls.full}: missing element with a default gives {o!r}', trace(o))
            else:
                if not o.ok:
                    ok = len(fcalls) == 1 and (o.exc.has('__user__') or o.is_marsh(p))
                else:
                    ok = len(fcalls) == 1 and isinstance(o.value, Term) and o.value.op == 'usercall' and o.value.args[0] == F
                ok = ok and not flat_events(o, 'U') and len(calls) == len(fcalls)
                c.ob('factory-on-missing', ok, w if o.ok else o.origin(), f'{cls.full}: missing element with a factory gives {o!r} after {len(fcalls)} factory call(s)', trace(o))
    # per-call defaults of structured types (default_args / default_kwargs)
    call_defaults(c)
    # the null type: a missing element is null, whatever the default
    from . import build
    build.check_defaults_forwarded(c)


def call_defaults(c):
    p = c.p
    R = Runs.of(p)
    cls = p.get_class(TEMPLATE['structured'])
    names = ['a', 'b', 'c']
    DA = tuple(Sym(f'DA{i}') for i in range(3))
    DK = {n: Sym(f'DK{n}') for n in names}
    c.rule('call-default', 'default_args/default_kwargs stand in for missing fields only: a given field is converted, a missing one takes the given default unconverted; a default given twice is refused.')
    layouts = [('mapping', k) for r in range(4) for k in itertools.combinations(names, r)] + [('sequence', tuple(range(n))) for n in (1, 2, 3)]
    givens = [(n, k) for n in range(4) for r in range(3) for k in itertools.combinations(names, r) if n or k]
    for (kind, keys), (n, by_name) in [(x, y) for x in layouts for y in givens]:
        twice = [x for x in by_name if names.index(x) < n]
        if twice and (kind != 'mapping' or len(keys) not in (0, 3) or len(by_name) > 1):
            continue

        def el(st):
            return put_element(st, kind, keys) if keys else MISSING
        shape = Shape(tuple(names))
        what = f'{kind} {keys}, {n} positional defaults' + (f', defaults for {", ".join(by_name)}' if by_name else '')

        def go():
            I = R.interp()
            st = State()
            for x in (*DK.values(), *DA):
                st.kinds[x] = NOT_MISSING
            more = structured_extra(shape)(st)
            me = make_self(p, I, st, cls, 'none', **more)
            e = el(st)
            d = []
            if n:
                d.append(('default_args', st.new(Lst(tuple(map(one, DA[:n])), 'list', 'input', Sym('DEFAULTS')))))
            if by_name:
                d.append(('default_kwargs', st.new(Dct(tuple(kv(Const(x), DK[x]) for x in by_name), 'dict', 'input', Sym('DEFAULTS')))))
            return execute(I, f'{cls.full}.unmarshal [{what}]', st, FuncV(method(p, cls, 'unmarshal')), [me, e], d)
        sc = c.use(R.get(('calldefault', what), go))
        if twice:
            for o in sc.decided():
                c.ob('call-default', not o.ok, sc.info.where, f'{what}: the default for {twice[0]} is given twice and accepted', trace(o))
            continue
        exp = {}
        for i, x in enumerate(names):
            if kind == 'mapping' and x in keys:
                exp[x] = U(shape.schema(x), val(x))
            elif kind == 'sequence' and i in keys:
                exp[x] = U(shape.schema(x), val(i))
            elif x in by_name:
                exp[x] = DK[x]
            elif i < n:
                exp[x] = DA[i]
            else:
                exp[x] = U(shape.schema(x), MISSING)
        for o in sc.decided():
            got = constructed(p, cls, o)
            if not o.ok or got is None:
                if not o.ok:
                    # only a conversion or the constructor may fail
                    c.ob('call-default', bool(flat_events(o, 'U')) or bool(exp) and o.exc.has('__user__') or not any(v.op == 'U' for v in exp.values() if isinstance(v, Term)) and o.exc.has('__user__') or o.is_marsh(p),
                         o.origin(), f'{what}: refused with {o!r}', trace(o))
                continue
            args, kw = got
            vals = dict(kw)
            for x, a in zip(names, args):
                vals[x] = a
            c.ob('call-default', vals == exp and len(args) + len(kw) == len(exp), sc.info.where, f'{what}: constructed with {vals!r}, expected {exp!r}', trace(o))
        if not any(o.ok for o in sc.outcomes) and not sc.undecided():
            c.ob('call-default', False, sc.info.where, f'{what}: never succeeds')


def contains(v, atoms, st, depth=0, seen=None):
    if v in atoms:
        return True
    if depth > 8:
        return False
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, (Lst, Dct)):
            return any(contains(x, atoms, st, depth + 1) for c in o.cells for x in c[1:])
        if isinstance(o, Inst) and depth < 3:
            return any(contains(x, atoms, st, depth + 1) for _, x in o.attrs)
        return False
    if isinstance(v, (Term, Tup, SliceV)):
        return any(contains(x, atoms, st, depth + 1) for x in v.a)
    if isinstance(v, tuple):
        return any(contains(x, atoms, st, depth + 1) for x in v)
    return False


# ------------------------------------------------------------------ C05
ZERO_OK = (NONE_S, LOGGER, SLICE)        # documented: a missing value is valid input
DELEGATE = (LITV, PROTO, ANN, TYPEVAR)   # a child schema sees the missing marker


def c05(c):
    p = c.p
    c.rule('missing-leaf', 'A leaf type without default answers a missing element with MissingValueError on every path.')
    c.rule('marker', 'No schema returns the missing marker, or a value made from it other than by handing it to a child schema.')
    c.rule('missing-child', 'A fixed field absent from the input is handed to its schema as the missing marker.')
    c.explain('All unmarshal methods with a missing element and no default.')
    for cls, d, nm, sc in sweep(p):
        if d != 'none' or nm != 'missing':
            continue
        c.use(sc)
        leaf = family(p, cls) == 'leaf' and cls.full not in ZERO_OK + DELEGATE
        for o in sc.decided():
            if leaf:
                ok = not o.ok and p.is_subclass(o.exc.cls, MISSING_ERR) is True
                c.ob('missing-leaf', ok, sc.info.where if o.ok else o.origin(), f'{cls.full}: a missing element gives {o!r}', trace(o))
            elif o.ok:
                c.ob('marker', not marker_leaks(o.value, o.st), sc.info.where, f'{cls.full}: a missing element gives {o!r}, built from the missing marker', trace(o))
    R = Runs.of(p)
    any_cls = p.get_class(S + 'types.any.AnyUnmarshalSchema')
    c.rule('nested-marker', 'The unchecked type refuses an element in which the missing marker occurs.')
    sc = c.use(R.unmarshal(any_cls, 'element with nested marker', 'none', any_el, None, lambda I, st, me: st.facts.update({Term('has_missing', E): True})))
    for o in sc.decided():
        ok = not o.ok and p.is_subclass(o.exc.cls, MISSING_ERR) is True
        c.ob('nested-marker', ok, sc.info.where, f'{any_cls.full}: an element containing the marker gives {o!r}', trace(o))
    for cls, shape, kind, keys, sc in structured_runs(p):
        if kind == 'missing' or keys == ():
            c.use(sc)
            args, kwargs, conv = expected_structured(shape, kind, keys)
            exp = sorted((repr(U(s, e)) for s, e, _ in conv))
            for o in sc.decided():
                if o.ok:
                    got = sorted(repr(U(e[1], e[2])) for e in flat_events(o, 'U'))
                    c.ob('missing-child', got == exp, sc.info.where, f'{cls.full} {shape}, {show_el(kind, keys)}: converted {got}, expected {exp}', trace(o))


def marker_leaks(v, st, depth=0):
    if v == MISSING:
        return True
    if isinstance(v, Term) and v.op in ('U', 'usercall', 'schema', 'childpath'):
        if v.op == 'usercall':
            return any(marker_leaks(x, st, depth + 1) for x in v.args[1:])
        return False
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, (Lst, Dct)) and depth < 6:
            return any(marker_leaks(x, st, depth + 1) for c in o.cells for x in c[1:])
        return False
    if isinstance(v, (Term, Tup)):
        return any(marker_leaks(x, st, depth + 1) for x in v.a)
    if isinstance(v, tuple):
        return any(marker_leaks(x, st, depth + 1) for x in v)
    return False


# ------------------------------------------------------------------ C06 / C07 structured
def constructed(p, cls, o):
    """-> (args, kwargs) with which the value of an outcome was constructed."""
    v = o.value
    st = o.st
    if isinstance(v, Term) and v.op == 'usercall' and v.args[0] in (T, Term('gettype', T)):
        pos, kw = v.args[1], v.args[2]
        if all(x[0] == '1' for x in pos.cells) and all(x[0] == '1' for x in kw.cells):
            return [x[1] for x in pos.cells], [(x[1].v, x[2]) for x in kw.cells]
        return None
    if isinstance(v, Tup) and all(x[0] == '1' for x in v.cells):
        return [x[1] for x in v.cells], []
    if isinstance(v, Ref):
        ob = st.heap.get(v.id)
        if isinstance(ob, Dct) and all(x[0] == '1' and isinstance(x[1], Const) for x in ob.cells):
            return [], [(x[1].v, x[2]) for x in ob.cells]
        if isinstance(ob, Inst) and ob.get('args') is not None:
            a = st.heap.get(ob.get('args').id) if isinstance(ob.get('args'), Ref) else ob.get('args')
            k = st.heap.get(ob.get('kwargs').id) if isinstance(ob.get('kwargs'), Ref) else None
            if k is not None and a is not None and all(x[0] == '1' for x in a.cells) and all(x[0] == '1' for x in k.cells):
                return [x[1] for x in a.cells], [(x[1].v, x[2]) for x in k.cells]
    return None


TUPLE = S + 'types.tuple.TupleUnmarshalSchema'


def expect_call(cls, shape, args, kwargs, kind, keys):
    """Expected (args, kwargs) of the constructor of class cls."""
    if cls.full == TUPLE:
        return list(args) + [v for _, v in kwargs], []
    if cls.full == TD:
        pairs = list(zip(shape.names, args)) + list(kwargs)
        pairs = [(n, v) for n, v in pairs if not (n in ('b', 'c') and v.args[1] == MISSING)]
        return [], pairs
    return list(args), list(kwargs)


def c06(c):
    p = c.p
    c.rule('surplus', 'A structured type without catch-all parameters raises the unmarshal error for every key that names no field and every item beyond the last field.')
    c.explain('All structured types in all field shapes on mappings with unknown keys and sequences longer than the field list; inputs are enumerated up to the layout, their values are unknown.')
    for cls, shape, kind, keys, sc in structured_runs(p):
        args, kwargs, conv = expected_structured(shape, kind, keys)
        if args is not None:
            continue
        c.use(sc)
        for o in sc.decided():
            ok = not o.ok and (o.is_marsh(p) or o.exc.has('__user__'))
            c.ob('surplus', ok, sc.info.where if o.ok else o.origin(), f'{cls.full} {shape}: {show_el(kind, keys)} gives {o!r}; the surplus input must be refused', trace(o))
    from . import leaf
    leaf.check_leaf_surplus(c)


def c07(c):
    p = c.p
    c.rule('fields', 'Each field of a structured type is constructed from its own item converted exactly once by its own schema, by the route (position or name) its kind requires.')
    c.rule('items', 'A sequence type is constructed from all items, converted once each, in order.')
    c.rule('entries', 'A mapping type is constructed from all entries, key and value converted once each by the key and value schema.')
    c.rule('accepts', 'An input whose layout fits the type is not refused unless a child schema or the constructor refuses it.')
    c.explain('All sequence-like, mapping-like and structured types; containers of arbitrary size are summarised (items before, at and after two distinguished ones), structured layouts enumerated.')
    for cls, shape, kind, keys, sc in structured_runs(p):
        args, kwargs, conv = expected_structured(shape, kind, keys)
        if args is None:
            continue
        c.use(sc)
        a2, k2 = expect_call(cls, shape, args, kwargs, kind, keys)
        n_ok = 0
        for o in sc.decided():
            if o.ok:
                n_ok += 1
                got = constructed(p, cls, o)
                ok = got is not None and got[0] == a2 and dict(got[1]) == dict(k2) and len(got[1]) == len(k2)
                c.ob('fields', ok, sc.info.where, f'{cls.full} {shape}: {show_el(kind, keys)} is constructed with {got!r}, expected {(a2, k2)!r}', trace(o))
                ev = [U(e[1], e[2]) for e in flat_events(o, 'U', 'twice') if e[0] == 'U']
                exp = [U(s, e) for s, e, _ in conv]
                c.ob('fields', sorted(map(repr, ev)) == sorted(map(repr, exp)), sc.info.where,
                     f'{cls.full} {shape}: {show_el(kind, keys)} runs the conversions {ev!r}, expected each of {exp!r} once', trace(o))
            elif not o.exc.has('__child__') and not o.exc.has('__user__'):
                c.ob('accepts', False, o.origin(), f'{cls.full} {shape}: {show_el(kind, keys)} is refused: {o!r}', trace(o))
        if not n_ok and not sc.undecided():
            c.ob('accepts', False, sc.info.where, f'{cls.full} {shape}: {show_el(kind, keys)} is always refused')
    for cls, fam, sc in itertools.chain(collection_runs(p), counted_runs(p)):
        c.use(sc)
        n_ok = 0
        for o in sc.decided():
            if not o.ok:
                continue
            n_ok += 1
            cells = o.st.obj(o.st.content[E]).cells if E in o.st.content else ()
            got = result_cells(o)
            exp = expected_cells(fam, cells, o.st)
            ok = got is not None and norm_cells(got, o.st) == norm_cells(exp, o.st)
            c.ob('items' if fam == 'sequence' else 'entries', ok, sc.info.where,
                 f'{cls.full}: constructed from {show_cells(got)}, expected {show_cells(exp)}', trace(o))
            want, have = conversions(fam, cells), {}
            dup = [e for e in flat_events(o, 'twice') if e[1][0] == 'U']
            for e in flat_events(o, 'U'):
                have[(e[1], e[2])] = have.get((e[1], e[2]), 0) + 1
            ok = not dup and set(have) == set(want) and all(n == 1 for n in have.values())
            c.ob('items' if fam == 'sequence' else 'entries', ok, sc.info.where,
                 f'{cls.full}: ran the conversions {sorted(map(repr, have))}{" twice per item" if dup else ""}, expected {sorted(map(repr, want))} once each', trace(o))
        if not n_ok and not sc.undecided():
            c.ob('accepts', False, sc.info.where, f'{cls.full}: never accepts a {fam}')
    from . import leaf, build
    build.check_item_schemas(c)
    leaf.check_leaf_components(c)


def result_cells(o):
    v = o.value
    if isinstance(v, Term) and v.op == 'usercall':
        pos = [x for x in v.args[1].cells]
        if len(pos) == 2 and pos[0] == one(Sym('INIT')):
            pos = pos[1:]       # what makes the missing items of a defaultdict
        if v.args[0] in (T, Term('gettype', T)) and len(pos) == 1 and pos[0][0] == '1' and not v.args[2].cells:
            v = pos[0][1]
        else:
            return None
    if isinstance(v, Ref):
        ob = o.st.heap.get(v.id)
        return ob.cells if isinstance(ob, (Lst, Dct)) else None
    if isinstance(v, Tup):
        return v.cells
    return None


def expected_cells(fam, cells, st):
    VS, KS = Sym('VS'), Sym('KS')
    out = []
    for cell in cells:
        if fam == 'sequence':
            out.append(one(U(VS, cell[1])) if cell[0] == '1' else ('*', cell[1], tuple(U(VS, x) for x in cell[2])))
        else:
            out.append(kv(U(KS, cell[1]), U(VS, cell[2])) if cell[0] == '1' else ('*', cell[1], tuple((U(KS, k), U(VS, v)) for k, v in cell[2])))
    return tuple(out)


def conversions(fam, cells):
    VS, KS = Sym('VS'), Sym('KS')
    out = []
    for cell in cells:
        if fam == 'sequence':
            out.extend((VS, x) for x in ((cell[1],) if cell[0] == '1' else cell[2]))
        else:
            for k, v in ([cell[1:]] if cell[0] == '1' else cell[2]):
                out += [(KS, k), (VS, v)]
    return out


def norm_cells(cells, st):
    return tuple(x for x in cells if not (x[0] == '*' and st.card.get(x[1]) == 'zero'))


def show_cells(cells):
    return 'an unknown collection' if cells is None else '[' + ', '.join(map(cell_repr, cells)) + ']'


# ------------------------------------------------------------------ C08
def c08(c):
    p = c.p
    c.rule('first-match', 'Members are tried in order on the unmodified element; the result is that of the first that succeeds.')
    c.rule('all-failed', 'An error is raised only after every member has failed, once each.')
    c.rule('optional', 'An optional tries its other member first and turns a rejected null or missing element, and nothing else, into null.')
    c.explain('Union, enum, literal and protocol schemas with 1-3 members (each may fail with any exception) and optionals with the null member in either position.')
    for cls, n, opt, nm, ms, sc in union_runs(p):
        c.use(sc)
        el = MISSING if nm == 'missing' else E
        recv = [Term('schema', m, Tup(()), Tup((), 'kw')) for m in ms] if cls.full == PROTO else ms
        w = sc.info.where
        preset = set(sc.preset)
        for o in sc.decided():
            if any(t not in preset and any(repr(Term('attr', m, 'value')) in repr(t) for m in ms) for t in o.st.facts):
                sc.unclear = True       # the path depends on an unforeseen question about a member's type
                continue
            tried = [(e[1], e[2]) for e in flat_events(o, 'U')]
            if opt is not None:
                m = ms[1 - opt]
                if o.ok and o.value == NONE:
                    k = o.st.kinds.get(E, NOT_MISSING) if nm == 'any' else frozenset(('missing',))
                    ok = tried == [(m, el)] and k <= frozenset(('none', 'missing'))
                elif o.ok:
                    ok = o.value == U(m, el) and tried == [(m, el)]
                else:
                    k = o.st.kinds.get(E, NOT_MISSING) if nm == 'any' else frozenset(('missing',))
                    ok = tried == [(m, el)] and not (k & {'none', 'missing'})
                c.ob('optional', ok, w if o.ok else o.origin(), f'{cls.full}: optional with null member {opt}, {nm} element: {o!r} after trying {tried!r}', trace(o))
                continue
            exp = [(r, el) for r in recv]
            if o.ok:
                i = len(tried)
                ok = 0 < i <= n and tried == exp[:i] and o.value == U(*exp[i - 1])
                c.ob('first-match', ok, w, f'{cls.full} with {n} member(s): returns {o.value!r} after trying {tried!r}', trace(o))
            else:
                if cls.full == PROTO and o.exc.get('__what__') == Const('build'):
                    continue
                ok = tried == exp or (cls.full == PROTO and set(tried) <= set(exp))
                c.ob('all-failed', ok and o.is_marsh(p), o.origin(), f'{cls.full} with {n} member(s): raises {o!r} after trying {tried!r}', trace(o))
        if opt is None and not sc.undecided():
            got = {len(flat_events(o, 'U')) for o in sc.outcomes if o.ok}
            c.ob('first-match', got >= set(range(1, n + 1)), w, f'{cls.full} with {n} member(s): the result is never taken from member(s) {sorted(set(range(1, n + 1)) - got)}')


    from . import build
    build.check_member_schemas(c)


# ------------------------------------------------------------------ C25
def c25(c):
    p = c.p
    c.rule('delegate', 'unmarshal and select return exactly what the wrapped schema returns for the same argument, and pass its errors through.')
    c.rule('built-same', 'The wrapped schema is built from the wrapped type with the same default and default factory.')
    c.explain('Annotated (without hooks), constrained type variable, wrapper, recursive-reference schemas.')
    R = Runs.of(p)
    WS = Sym('WS')
    for cls in wrapper_classes(p):
        if cls.full == NS:
            continue
        for nm, el in (('any element', any_el), ('missing element', missing_el)):
            sc = c.use(R.unmarshal(cls, nm, 'none', el, generic_extra(p, cls)))
            x = MISSING if nm == 'missing element' else E
            for o in sc.decided():
                ev = [(e[1], e[2]) for e in flat_events(o, 'U')]
                if o.ok:
                    ok = delegated(o.value, x) and len(ev) == 1
                else:
                    ok = (o.exc.has('__child__') and isinstance(o.path(), Term) and o.path().op == 'childpath') or is_lazy_build(o)
                c.ob('delegate', ok, sc.info.where if o.ok else o.origin(), f'{cls.full}.unmarshal: {o!r} after {ev!r}', trace(o))

        def go(cls=cls):
            I = R.interp()
            st = State()
            me = make_self(p, I, st, cls, 'none', **generic_extra(p, cls)(st))
            st.kinds[Sym('PATH')] = frozenset(('str',))
            return execute(I, f'{cls.full}.select', st, FuncV(method(p, cls, 'select')), [me, Sym('PATH')])
        sc = c.use(R.get((cls.full, 'select'), go))
        for o in sc.decided():
            ev = [(e[1], e[2]) for e in flat_events(o, 'SEL')]
            if o.ok:
                ok = isinstance(o.value, Term) and o.value.op == 'SEL' and o.value.args[1] == Sym('PATH') and is_wrapped(o.value.args[0])
            else:
                ok = (isinstance(o.path(), Term) and o.path().op == 'selpath') or is_lazy_build(o)
            c.ob('delegate', ok, sc.info.where if o.ok else o.origin(), f'{cls.full}.select: {o!r} after {ev!r}', trace(o))
    from . import build
    build.check_wrapped_build(c)
    # the component schema only steps in when a name is given
    for sc in ns_runs(p):
        if "'name'" in sc.name:
            continue
        c.use(sc)
        for o in sc.decided():
            if o.ok:
                v = o.value
                ok = isinstance(v, Term) and v.op == 'U' and is_wrapped(v.args[0]) and same_entries(v.args[1], o)
                c.ob('delegate', ok, sc.info.where, f'{NS}: an element without a name gives {o!r}, expected the wrapped schema\'s result for it', trace(o))


def is_wrapped(v):
    return v == Sym('WS') or (isinstance(v, Term) and v.op in ('schema', 'usercall') and contains(v, (T, Sym('WT')), State()))


def delegated(v, x):
    return isinstance(v, Term) and v.op == 'U' and len(v.args) == 2 and v.args[1] == x and is_wrapped(v.args[0])


def is_lazy_build(o):
    return o.exc.has('__user__') or o.exc.get('__what__') == Const('build') or o.cls_name() == 'builtins.AttributeError'


def same_entries(v, o):
    if v == E:
        return True
    r = o.st.content.get(E)
    if isinstance(v, Ref) and r is not None:
        a, b = o.st.heap.get(v.id), o.st.obj(r)
        return isinstance(a, Dct) and a.cells == b.cells
    return False


CHECKS = {'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C25': c25}
