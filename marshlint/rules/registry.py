"""Rules on component namespaces (C24) and on lookups after registrations (C13)."""
import ast
from ..scen import *
from ..interp import Raise
from .unmarshal import Runs, trace

NSM = S + 'namespace.'
NSU, NSMAR = S + 'types.namespace.NamespaceUnmarshalSchema', S + 'types.namespace.NamespaceMarshalSchema'
META = S + 'core.unmarshal.UnmarshalSchemaMeta'
REGISTRY = S + 'core.unmarshal.UnmarshalSchemaRegistry'
MEMO_DECORATORS = {'new_callable_cache', 'lru_cache', 'cache', 'memoize'}
T2 = Sym('T2')
T3, T4 = Sym('T3'), Sym('T4')       # unions of the same members in another order


# ---------------------------------------------------------------- engine set-up
def eager(I, pos, kw, st, fr, node):
    """A buffered iterator stands for the sequence of its items (C33 decides that it is faithful)."""
    out = []
    for s, cells in I.collect(pos[0][1], st, fr, node):
        out.append((s, cells if isinstance(cells, Raise) else s.new(Lst(cells, 'list'))))
    return out


def merged(cells, pairs):
    return [tuple(pairs.get(x, x) for x in c) for c in cells]


def memo_key(f, pos, kw):
    pos, kw = merged(pos, {T4: T3}), merged(kw, {T4: T3})
    return ('memo', f, tuple(pos), tuple(sorted(kw, key=repr)))


def memo_call(I, key, st, run):
    if key in st.data:
        return [(st, st.data[key])]
    out = []
    for s, v in run(st):
        if not isinstance(v, Raise):
            s.data = dict(s.data)
            s.data[key] = v
        out.append((s, v))
    return out


def forget(st, f):
    st.data = {k: v for k, v in st.data.items() if not (isinstance(k, tuple) and k and k[0] == 'memo' and k[1] == f)}


def option(info, name, default):
    """A constant keyword of the memoising decorator."""
    for d in info.decorators:
        if isinstance(d, ast.Call) and ast.unparse(d.func).split('.')[-1] in MEMO_DECORATORS:
            for k in d.keywords:
                if k.arg == name and isinstance(k.value, ast.Constant):
                    return k.value.value
    return default


def untyped(cells):
    """T2 stands for a type that equals T and has another class."""
    return merged(cells, {T2: T})


def union_attrs(I, v, name, st, fr, node):
    if name == '__origin__' and v in (T, T2, T3, T4):
        return [(st, ExtV('typing.Union') if v in (T3, T4) else I.raise_new(st, 'builtins.AttributeError', node, fr))]
    return None


UNHASHABLE = ('collections.abc.Mapping', 'collections.abc.MutableMapping', 'collections.abc.Set', 'typing.Mapping', 'builtins.dict', 'builtins.list', 'builtins.set')


def hashable(I, v, st):
    """Can the receiver be a part of a memo key (a class that defines __eq__ and not __hash__ can not)?"""
    o = st.heap.get(v.id) if isinstance(v, Ref) else None
    if not isinstance(o, Inst) or not isinstance(o.cls, ClassInfo):
        return True
    for c in I.p.mro(o.cls):
        if not isinstance(c, ClassInfo):
            if c in UNHASHABLE:
                return False
            continue
        if '__hash__' in c.members:
            return True
        if '__eq__' in c.members:
            return False
    return True


def static_memo(full, info):
    f = FuncV(info)
    typed, binding = option(info, 'typed', False), option(info, 'binding', None)

    def model(I, pos, kw, st, fr, node):
        p, k = list(pos), list(kw)
        if binding != 'ignore' and p and not hashable(I, p[0][1], st):
            return I.call_func(f, pos, kw, st, fr, node)
        if binding == 'ignore':
            p = p[1:]
        if not typed:
            p, k = untyped(p), untyped(k)
        return memo_call(I, memo_key(full, p, k), st, lambda s: I.call_func(f, pos, kw, s, fr, node))
    return model


def hook(I, f, pos, kw, st, fr, node):
    if isinstance(f, Term) and f.op == 'memofunc':
        return memo_call(I, memo_key(f, pos, kw), st, lambda s: I.call(f.args[0], pos, kw, s, fr, node))
    if isinstance(f, Term) and f.op == 'attr' and f.args[1] == 'cache_clear':
        t = f.args[0]
        if isinstance(t, BoundV):
            t = t.func
        forget(st, t.info.full if isinstance(t, FuncV) else t)
        return [(st, NONE)]
    return lib.call_hook(I, f, pos, kw, st, fr, node)


def new_cache(I, pos, kw, st, fr, node):
    """caches.new_callable_cache(function, ...): a memoised function."""
    fn = [c[1] for c in pos[1:]] + [c[2] for c in kw if c[1] == Const('fn')]
    if not fn or not isinstance(fn[0], (FuncV, BoundV)):
        return None
    return [(st, Term('memofunc', fn[0]))]


def head_model(I, pos, kw, st, fr, node):
    """The first field of an unknown path and the rest of it (C15 decides the splitting itself)."""
    return [(st, Tup([one(Term('head', pos[0][1])), one(Term('tail', pos[0][1]))]))]


def registered_schema(p):
    """UnmarshalSchema(component): the wrapper a registered component gets, around its own schema."""
    cls = p.get_class(NSU)

    def f(I, pos, kw, st, fr, node):
        value = lib.P(pos, 0) if pos else lib.KW(kw, 'value')
        st.event('build', value)
        inner = Term('inner', value)
        st.kinds[inner] = frozenset(('other',))
        st.facts[Term('isinstance', inner, ClassV(cls))] = False
        return [(st, st.new(Inst(cls, (('value', value), ('default', MISSING), ('default_factory', MISSING), ('_schema', inner),
                                       ('wrapped', Tup([one(Sym('WT'))])), ('_args', Tup([one(value)])), ('_kwargs', st.new(Dct(())))))))]
    return f


def functions(p):
    for m in p.modules.values():
        yield from (b[1] for b in m.bindings.values() if b[0] == 'func')
    for k in p.classes():
        yield from (b[1] for b in k.members.values() if b[0] == 'func')


PRIO = 'marsh.utils.PriorityOrder'
SCHEMAS = {n: Sym(n, None, 'schema') for n in ('S1', 'S2', 'S9')}


def priority_models(p, I):
    """A priority order as a list whose latest addition comes first (C32 decides the orders themselves)."""
    cls = p.get_class(PRIO)

    def new(I, pos, kw, st, fr, node):
        return [(st, st.new(Inst(cls, (('__items__', st.new(Lst((), 'list'))),), True, 'fresh', '')))]

    def add(I, pos, kw, st, fr, node):
        given = [x[1] for x in pos[1:]] + [x[2] for x in kw if x[1] in (Const('item'), Const('value'), Const('schema'))]
        if not given or given[0] == NONE:
            return [(st, PartialV(FuncV(method(p, cls, 'add')), tuple(pos[:1]), tuple(kw)))]
        ref = st.obj(pos[0][1]).get('__items__')
        st.put(ref, replace(st.obj(ref), cells=(one(given[0]),) + st.obj(ref).cells))
        return [(st, given[0])]

    I.models[cls.full] = new
    I.models[method(p, cls, 'add').full] = add


def engine(p):
    I = lib.make(p)
    I.models['marsh.utils.IterableFromIterator'] = eager
    I.models['marsh.utils.CachePool.new_callable_cache'] = new_cache
    I.models[BASE_U] = registered_schema(p)
    I.models['marsh.path.head'] = head_model
    I.models['marsh.utils.ValueCache'] = lambda I, pos, kw, s, fr, node: [(s, s.new(Dct((), 'dict')))]
    I.models['marsh.utils.WeakTypeCache'] = lambda I, pos, kw, s, fr, node: [(s, s.new(Lst((), 'set')))]
    priority_models(p, I)
    for info in functions(p):
        if info.full.startswith('marsh.schema.') and I.deco(info) & MEMO_DECORATORS:
            I.models[info.full] = static_memo(info.full, info)
    I.call_hook = hook
    return I


class World:
    """The singleton of namespaces with components, built by the analysed constructors."""

    def __init__(self, p, spaces, existing=True):
        self.p, self.I, self.st = p, engine(p), State()
        st = self.st
        prepare(st)
        st.kinds[T] = frozenset(('type',))
        self.spaces = spaces
        self.ns = []
        NS, NSP = p.get_class(NSM + 'Namespace'), p.get_class(NSM + 'Namespaces')
        self.world = st.new(Inst(NSP, (), True, 'fresh', ''))
        self.run(method(p, NSP, '__init__'), self.world)
        self.I.models[NSP.full] = lambda I, pos, kw, s, fr, node: [(s, self.world)]
        for i, comps in enumerate(spaces):
            base = Sym(f'B{i}')
            self.st.kinds[base] = frozenset(('type',))
            n = self.run(method(p, NSP, 'new'), self.world, Const(f'ns{i}'), base)
            self.ns.append(n)
            for k, c in comps.items():
                self.st.kinds[comp(c)] = frozenset(('type',))
                self.st.facts[Term('issubclass', comp(c), base)] = True
                self.run(method(p, NS, 'register'), n, comp(c), name=Const(k))

    def run(self, info, *args, **kw):
        res = [(s, v) for s, v in self.I.run(FuncV(info), [one(a) for a in args], list(kw.items()), st=self.st)]
        if len(res) != 1 or isinstance(res[0][1], Raise):
            raise AnalysisBroken(f'{info.full}: setting up the namespaces has no single outcome')
        self.st = res[0][0]
        return res[0][1]

    def all(self):
        return [(k, comp(c)) for comps in self.spaces for k, c in comps.items()]

    def __repr__(self):
        return ' + '.join('{' + ', '.join(f'{k}: {c}' for k, c in s.items()) + '}' for s in self.spaces)


def steps(w, st, todo):
    """Run a history of calls; -> [(state, [results])], a result being a value or Raise."""
    front = [(st, [])]
    for f, args, kw in todo:
        nxt = []
        for s, rs in front:
            g = f(s, rs) if callable(f) else f
            if g is None:
                nxt.append((s, rs + [None]))
                continue
            for s2, v in w.I.run(g, [one(a) for a in args], list(kw.items()), st=s):
                nxt.append((s2, rs + [v]))
        front = nxt
    return front


def history(w, name, todo):
    """A history as a scene; the outcomes carry the results of every step in .steps."""
    sc = Scene(name, w.I)
    from ..interp import Budget
    try:
        for s, rs in steps(w, w.st.fork(), todo):
            o = Outcome(s, rs[-1])
            sc.outcomes.append(o)
            o.st.data = dict(o.st.data)
            o.st.data['__steps__'] = rs
    except Budget:
        sc.cut = True
    except (RecursionError, AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError) as e:
        if STRICT:
            raise
        sc.cut = True
    return sc


def steps_of(o):
    return o.st.data['__steps__']


def bound(p, ref, cls, name):
    return BoundV(FuncV(method(p, p.get_class(cls), name)), ref)


def schema_of(v, st):
    """The component whose schema v is."""
    if isinstance(v, Ref):
        o = st.obj(v)
        if isinstance(o, Inst) and o.cls.full == NSU:
            return o.get('value')
    if isinstance(v, Term) and v.op == 'inner':
        return v.args[0]
    return None


def equal(st, name, v):
    """Is the (constant) registered name equal to v on this path?  True / False / None."""
    if isinstance(v, Const):
        return v.v == name
    for a, b in ((Const(name), v), (v, Const(name))):
        f = st.facts.get(Term('eq', a, b))
        if f is not None:
            return f
    return None


def subclass(st, c, of):
    return st.facts.get(Term('issubclass', c, of))


def comp(name):
    """A component class; differently named ones are different classes."""
    return Sym(name, None, 'component')


WORLDS = [[{'N.1': 'C1'}, {'n2': 'C2'}], [{'N.1': 'C1', 'n2': 'C2'}], [{'N.1': 'C1'}, {'N.1': 'C2'}], [{}], []]
NV, AV = Sym('NV'), Sym('AV')



def targets(w, o, name):
    """Components of the name that match T on this path: (certainly, possibly)."""
    sure, may = [], []
    for k, c in w.all():
        e, s = equal(o.st, k, name), subclass(o.st, c, T)
        if e is False or s is False:
            continue
        may.append(c)
        if e and s:
            sure.append(c)
    return sure, may


def put_elem(st, kind, cells=None):
    if kind == 'missing':
        return MISSING
    st.kinds[E] = frozenset((kind,))
    if kind == 'mapping':
        st.content[E] = st.new(Dct(tuple(kv(Const(k), v) for k, v in cells.items()), 'dict', 'input', E))
    return E


ELEMENTS = [('mapping', {'name': NV, 'a': AV}), ('mapping', {'a': AV, 'name': NV}), ('mapping', {'a': AV}), ('mapping', {}), ('mapping', {'name': MISSING, 'a': AV}),
            ('mapping', {'name': Const('N.1')}), ('mapping', {'name': Const('zz'), 'a': AV}), ('sequence', None), ('str', None), ('int', None), ('none', None), ('missing', None)]


def own_raise(o):
    """Raised by the analysed code itself and not by a child or the schema builder."""
    return not o.ok and o.exc.get('__child__') is None and o.exc.get('__what__') is None


def c24_unmarshal(c):
    p = c.p
    cls = p.get_class(NSU)
    f = method(p, cls, 'unmarshal')
    for spaces in WORLDS:
        for kind, cells in ELEMENTS:
            w = World(p, spaces)
            st = w.st
            me = make_self(p, w.I, st, cls)
            st.kinds[T] = frozenset(('type',))
            e = put_elem(st, kind, cells)
            sc = c.use(execute(w.I, f'{cls.name}.unmarshal [{w!r}, {kind} {cells if cells is not None else ""}]', st, FuncV(f), [me, e], info=f))
            name = cells.get('name', MISSING) if cells else MISSING
            rest = {k: v for k, v in (cells or {}).items() if k != 'name'}
            for o in sc.decided():
                named = name != MISSING
                if isinstance(name, Sym) and o.st.facts.get(Term('eq', name, MISSING)):
                    named = False
                elif isinstance(name, Sym) and w.I.kinds(name, o.st) == frozenset(('missing',)):
                    named = False
                sure, may = targets(w, o, name) if named else ([], [])
                where = o.origin() if not o.ok else f.where
                if o.ok:
                    v = o.value
                    if not (isinstance(v, Term) and v.op == 'U'):
                        c.ob('dispatch', False, f.where, f'{sc.name}: the result {v!r} is not converted by a schema', trace(o))
                        continue
                    to, arg = v.args[0], v.args[1]
                    if named:
                        got = schema_of(to, o.st)
                        c.ob('dispatch', got in may and (not sure or got in sure), f.where,
                             f'{sc.name}: name {name!r} goes to {got or to!r} instead of the component registered under it', trace(o))
                    else:
                        c.ob('dispatch', to == Sym('WS'), f.where, f'{sc.name}: an element without a name is not left to the wrapped schema but to {to!r}', trace(o))
                    if kind == 'mapping':
                        oc = w.I.container(arg, o.st)
                        have = {x[1].v: x[2] for x in oc.cells if x[0] == '1' and isinstance(x[1], Const)} if isinstance(oc, Dct) else None
                        exact = have is not None and len(have) == len(oc.cells)
                        if not exact and have is not None:
                            continue
                        c.ob('name-key', have == rest and 'name' not in (have or {}), f.where, f'{sc.name}: the schema is given {oc.cells if oc else arg!r} instead of the element without its name', trace(o))
                    else:
                        c.ob('name-key', arg == e, f.where, f'{sc.name}: the element is not passed on unchanged: {arg!r}', trace(o))
                elif own_raise(o):
                    c.ob('known-name', named and not sure, where, f'{sc.name}: {o.cls_name()} although ' + (f'{sure} is registered under that name' if sure else 'no name was given'), trace(o))
                    if named:
                        c.ob('unknown-name', o.is_marsh(p) and o.path() == Const('name'), where, f'{sc.name}: an unknown name is reported as {o.cls_name()} with path {o.path()!r}', trace(o))
                else:
                    ch = o.exc.get('__child__')
                    if isinstance(ch, Tup):
                        to = ch.cells[0][1]
                        ok = (schema_of(to, o.st) in may and (not sure or schema_of(to, o.st) in sure)) if named else to == Sym('WS')
                        c.ob('dispatch', ok, where, f'{sc.name}: fails in {to!r}', trace(o))


def c24_select(c):
    p = c.p
    cls = p.get_class(NSU)
    f = method(p, cls, 'select')
    PATH = Sym('PATH')
    for spaces in WORLDS:
        w = World(p, spaces)
        me = make_self(p, w.I, w.st, cls)
        w.st.kinds[T] = frozenset(('type',))
        w.st.kinds[PATH] = frozenset(('str',))
        sc = c.use(execute(w.I, f'{cls.name}.select [{w!r}]', w.st, FuncV(f), [me, PATH], info=f))
        name, rest = Term('head', PATH), Term('tail', PATH)
        for o in sc.decided():
            sure, may = targets(w, o, name)
            if o.ok:
                v = o.value
                if v == me:
                    continue
                ok = isinstance(v, Term) and v.op == 'SEL' and v.args[1] == rest and schema_of(v.args[0], o.st) in may and (not sure or schema_of(v.args[0], o.st) in sure)
                ok = ok or v == Term('SEL', Sym('WS'), PATH)
                c.ob('select', ok, f.where, f'{sc.name}: the first path field selects {v!r}', trace(o))
            elif own_raise(o):
                c.ob('select', not sure and o.is_marsh(p), o.origin(), f'{sc.name}: {o.cls_name()} although {sure} is registered under the field', trace(o))


def getitem_scene(p, spaces, i, name):
    w = World(p, spaces)
    return w, history(w, f'Namespace[{name!r}] [{w!r}]', [(bound(p, w.ns[i], NSM + 'Namespace', '__getitem__'), [name], {})])


def c24_getitem(c):
    p = c.p
    f = method(p, p.get_class(NSM + 'Namespace'), '__getitem__')
    for spaces in WORLDS[:3]:
        for i in range(len(spaces)):
            for name in (NV, Const('N.1'), Const('n2'), Const('zz')):
                w, sc = getitem_scene(p, spaces, i, name)
                c.use(sc)
                for o in sc.decided():
                    sure = [comp(x) for k, x in spaces[i].items() if equal(o.st, k, name)]
                    may = [comp(x) for k, x in spaces[i].items() if equal(o.st, k, name) is not False]
                    if o.ok:
                        got = schema_of(o.value, o.st)
                        c.ob('dispatch', got in may and (not sure or got in sure), f.where, f'{sc.name}: gives the schema of {got or o.value!r}', trace(o))
                    elif own_raise(o):
                        c.ob('known-name', not sure and o.cls_name() == 'builtins.KeyError' or o.is_marsh(p), o.origin(), f'{sc.name}: {o.cls_name()}', trace(o))


def comps(w, st, i):
    """name -> component of namespace i, as its public lookups give it (None: not known)."""
    get = method(w.p, w.p.get_class(NSM + 'Namespace'), '__getitem__')
    s = st.fork()
    rs = w.I.collect(w.ns[i], s, None, None)
    if len(rs) != 1 or isinstance(rs[0][1], Raise) or any(x[0] != '1' or not isinstance(x[1], Const) for x in rs[0][1]):
        return None
    out, s = {}, rs[0][0]
    for x in rs[0][1]:
        r = [v for v in w.I.run(FuncV(get), [one(w.ns[i]), x], [], st=s)]
        if len(r) != 1 or isinstance(r[0][1], Raise):
            return None
        s = r[0][0]
        out[x[1].v] = schema_of(r[0][1], s)
    return out


NEW = comp('C9')


def c24_register(c):
    p = c.p
    cls = NSM + 'Namespace'
    f = method(p, p.get_class(cls), 'register')
    spaces = [{'N.1': 'C1', 'n2': 'C2'}]
    for name in ('N.1', 'n2', 'n3', '', MISSING_TEXT):
        for replace_ in (None, False, True):
            for how in ('call', 'decorator', 'late'):
                w = World(p, spaces)
                w.st.kinds[NEW] = frozenset(('type',))
                old = comps(w, w.st, 0)
                kw = {'name': Const(name)}
                if replace_ is not None:
                    kw['replace'] = mk(replace_)
                reg = bound(p, w.ns[0], cls, 'register')
                if how == 'call':
                    todo = [(reg, [NEW], kw)]
                else:
                    todo = [(reg, [], kw)]
                    if how == 'late':
                        todo.append((reg, [comp('C1')], {'name': Const(name), 'replace': TRUE}))
                    todo.append((lambda s, rs: None if isinstance(rs[0], Raise) or len(rs) > 1 and isinstance(rs[1], Raise) else rs[0], [NEW], {}))
                sc = c.use(history(w, f'register(name={name!r}, replace={replace_}) as {how}', todo))
                for o in sc.decided():
                    rs = steps_of(o)
                    now = comps(w, o.st, 0)
                    if now is None:
                        continue
                    before = dict(old)
                    if how == 'late' and not isinstance(rs[1], Raise):
                        before[name] = comp('C1')
                    failed = any(isinstance(r, Raise) for r in rs)
                    if how == 'late' and failed and not isinstance(rs[0], Raise) and isinstance(rs[1], Raise):
                        continue
                    r = [x for x in rs if isinstance(x, Raise)]
                    where = f.where if not r else o.st.obj(r[0].exc).origin
                    if failed:
                        c.ob('register', now == before, where, f'{sc.name}: a refused registration changes the components to {now}', trace(o))
                        continue
                    c.ob('register', name not in ('', MISSING_TEXT), f.where, f'{sc.name}: accepts a name that can not be addressed', trace(o))
                    c.ob('no-silent-replace', name not in before or replace_ is True, f.where, f'{sc.name}: replaces the component registered under the name', trace(o))
                    want = dict(before)
                    want[name] = NEW
                    c.ob('register', now == want, f.where, f'{sc.name}: the components are {now} instead of {want}', trace(o))
                    c.ob('register', rs[-1] == NEW, f.where, f'{sc.name}: returns {rs[-1]!r} instead of the registered component', trace(o))


def c24_marshal(c):
    p = c.p
    cls = p.get_class(NSMAR)
    f = method(p, cls, 'marshal')
    V, OTHER = Sym('VALUE'), comp('SUBCLASS')
    inner = Term('M', Sym('WS'))
    bodies = [('mapping', {'a': AV}), ('mapping', {}), ('mapping', {'name': NV, 'a': AV}), ('sequence', None), ('str', None), ('none', None), ('missing', None)]
    spaces = [[{'N.1': 'C1'}, {'n2': 'C2'}], [{'N.1': 'C1', 'n2': 'C2'}], [{'N.1': 'C1'}, {'N.1': 'C2'}], [{'n2': 'C1', 'N.1': 'C1'}, {}]]
    for sp in spaces:
        for kind, cells in bodies:
            for of in ('C1', 'C2', 'SUBCLASS'):
                w = World(p, sp)
                st = w.st
                of_ = comp(of)
                st.kinds[V] = frozenset(('other',))
                st.kinds[of_] = frozenset(('type',))
                for i in range(len(sp)):
                    st.facts[Term('issubclass', OTHER, Sym(f'B{i}'))] = True
                    st.facts[Term('issubclass', OTHER, comp(f'C{i + 1}'))] = True
                w.I.models['marsh.utils.get_type'] = lambda I, pos, kw, s, fr, node, of_=of_: [(s, of_)]
                st.kinds[inner] = frozenset((kind,))
                if kind == 'mapping':
                    st.content[inner] = st.new(Dct(tuple(kv(Const(k), v) for k, v in cells.items()), 'dict', 'input', inner))
                wt = ClassV(p.get_class(S + 'types.generic.GenericMappingMarshalSchema'))
                me = st.new(Inst(cls, (('_schema', Sym('WS')),), True, 'fresh', ''))
                m = method(p, cls, 'match')
                todo = [(BoundV(FuncV(m), ClassV(cls)), [V], {}),
                        (lambda s, rs: BoundV(FuncV(method(p, cls, '__init__')), me), [V], {'wrapped': Tup([one(wt)])}),
                        (lambda s, rs: BoundV(FuncV(f), me), [], {})]
                sc = c.use(history(w, f'{cls.name} [{w!r}, value of type {of}, marshaled to {kind} {cells if cells is not None else ""}]', todo))
                names = [k for k, x in w.all() if x == of_]
                for o in sc.decided():
                    rs = steps_of(o)
                    if rs[0] in (TRUE, FALSE):
                        c.ob('match', rs[0] == mk(bool(names)), m.where, f'{sc.name}: match() is {rs[0]!r}, registered names of the type: {names}', trace(o))
                    if rs[0] != TRUE or isinstance(rs[1], Raise) or not names:
                        continue
                    if o.ok:
                        if kind != 'mapping' or 'name' in cells:
                            c.ob('marshal', False, f.where, f'{sc.name}: returns {o.value!r} although ' + ('the component has a field of its own called name' if kind == 'mapping' else 'no name can be added'), trace(o))
                            continue
                        oc = w.I.container(o.value, o.st)
                        if not isinstance(oc, Dct):
                            c.ob('marshal', not isinstance(o.value, (Const, Sym, Tup)) and o.value != inner, f.where, f'{sc.name}: returns {o.value!r}', trace(o))
                            continue
                        if any(x[0] != '1' or not isinstance(x[1], Const) for x in oc.cells):
                            continue
                        have = {x[1].v: x[2] for x in oc.cells}
                        c.ob('marshal', have.pop('name', None) in [Const(k) for k in names] and have == cells, f.where,
                             f'{sc.name}: the result is {oc.cells} for a component registered under {names}', trace(o))
                    elif own_raise(o):
                        c.ob('marshal', o.is_marsh(p) and (kind != 'mapping' or 'name' in cells), o.origin(), f'{sc.name}: {o.cls_name()}', trace(o))


def c24_match(c):
    p = c.p
    cls = p.get_class(NSU)
    f = method(p, cls, 'match')
    for spaces in WORLDS:
        w = World(p, spaces)
        sc = c.use(history(w, f'{cls.name}.match [{w!r}]', [(BoundV(FuncV(f), ClassV(cls)), [T], {})]))
        for o in sc.decided():
            facts = [subclass(o.st, T, Sym(f'B{i}')) for i in range(len(spaces))]
            if o.ok and (any(facts) or None not in facts) and o.value in (TRUE, FALSE):
                c.ob('match', o.value == mk(any(facts)), f.where, f'{sc.name}: match() is {o.value!r} for a type that is {"" if any(facts) else "not "}a subclass of a namespace base', trace(o))


def c24_build(c):
    p = c.p
    f = method(p, p.get_class(NSM + 'Namespace'), 'build')
    spaces = [{'N.1': 'C1', 'n2': 'C2'}]
    for name in (NV, Const('n2'), Const('zz')):
        for kind in ('mapping', 'sequence', 'missing', 'none'):
            w = World(p, spaces)
            e = put_elem(w.st, kind, {'a': AV})
            sc = c.use(history(w, f'Namespace.build(<{kind}>, name={name!r})', [(BoundV(FuncV(f), w.ns[0]), [e], {'name': name})]))
            for o in sc.decided():
                sure = [comp(x) for k, x in spaces[0].items() if equal(o.st, k, name)]
                may = [comp(x) for k, x in spaces[0].items() if equal(o.st, k, name) is not False]
                if o.ok:
                    v = o.value
                    got = schema_of(v.args[0], o.st) if isinstance(v, Term) and v.op == 'U' else None
                    c.ob('dispatch', got in may and (not sure or got in sure), f.where, f'{sc.name}: built by {got or v!r}', trace(o))
                    if got is not None:
                        c.ob('name-key', v.args[1] == e, f.where, f'{sc.name}: the schema is given {v.args[1]!r} instead of the element', trace(o))
                elif own_raise(o):
                    c.ob('known-name', not sure and o.is_marsh(p), o.origin(), f'{sc.name}: {o.cls_name()}', trace(o))


def c24(c):
    c.rule('dispatch', 'A name given in the element (or to the namespace) leads to the schema of the component registered under exactly that name and matching the type; without a name the wrapped schema converts the element.')
    c.rule('name-key', 'The schema that converts the element gets every key of it except the name, unchanged.')
    c.rule('known-name', 'No own error is raised when a matching component is registered under the name.')
    c.rule('unknown-name', 'A name nothing matching is registered under raises the library error located at the key name.')
    c.rule('select', 'The first path field selects the component registered under it and the rest of the path is selected in its schema.')
    c.rule('register', 'Registering adds exactly the given component under the name and returns it; a refused registration changes nothing; names that are empty or the missing marker are refused.')
    c.rule('no-silent-replace', 'A name that is taken when the registration takes effect is only replaced on request.')
    c.rule('marshal', 'Marshaling a registered component adds its registered name to all keys of the wrapped result, or raises the library error.')
    c.rule('match', 'The namespace schemas match exactly the registered components and the types below a namespace base.')
    c.explain('Namespaces, Namespace and both namespace schemas are executed abstractly, caches included, over worlds of up to two namespaces with up to two components '
              '(same name in two namespaces, two names in one, empty), with unknown names, elements, component classes and subclass relations.')
    c24_unmarshal(c)
    c24_select(c)
    c24_getitem(c)
    c24_register(c)
    c24_marshal(c)
    c24_match(c)
    c24_build(c)


# ---------------------------------------------------------------- C13
def c13_hook(matches, fails):
    def go(I, f, pos, kw, st, fr, node):
        if isinstance(f, Term) and f.op == 'attr' and f.args[0] in SCHEMAS.values() and f.args[1] == 'match':
            return [(st, mk((f.args[0].name, pos[0][1].name) in matches))]
        if f in SCHEMAS.values():
            value = pos[0][1] if pos else [x[2] for x in kw if x[1] == Const('value')][0]
            st.event('construct', f, value)
            if fails and not st.data.get('failed'):
                st.data = dict(st.data)
                st.data['failed'] = True
                return [(st, I.raise_new(st, 'builtins.ValueError', node, fr))]
            t = Term('schemaof', f, value, Tup([x for x in kw if x[1] != Const('value')], 'kw'))
            for k in I.p.classes():
                if k.full.startswith(S):
                    st.facts[Term('isinstance', t, ClassV(k))] = False
            return [(st, t)]
        return hook(I, f, pos, kw, st, fr, node)
    return go


class Lookups:
    """A world with registered schemas in which lookups and registrations are interleaved."""
    PAIRS = {('S1', 'T'), ('S1', 'T3'), ('S1', 'T4'), ('S2', 'T2'), ('S2', 'T')} | {('S2', f'C{i}') for i in range(1, 10)} | {('S9', 'C1'), ('S9', 'T')}

    def __init__(self, p, fails=False):
        self.p = p
        self.w = w = World(p, [{'N.1': 'C1', 'n2': 'C2'}, {'n4': 'C4'}])
        self.I, st = w.I, w.st
        self.U = ClassV(p.get_class(BASE_U))
        I = self.I
        meta = p.get_class(META)
        call = FuncV(method(p, meta, '__call__'))
        I.models[BASE_U] = lambda I, pos, kw, s, fr, node: I.call(call, [one(self.U)] + list(pos), kw, s, fr, node)
        I.models[S + 'core.unmarshal.resolve_type'] = lambda I, pos, kw, s, fr, node: [(s, pos[0][1])]
        I.ext_models['typing.get_origin'] = lambda I, pos, kw, s, fr, node: [(s, ExtV('typing.Union') if pos[0][1] in (T3, T4) else NONE)]
        I.attr_hook = union_attrs
        I.call_hook = c13_hook(self.PAIRS, fails)
        wrapper = ClassV(p.get_class(S + 'core.base.WrapperSchema'))
        base = ClassV(p.get_class(S + 'core.base.Schema'))
        for s in SCHEMAS.values():
            st.kinds[s] = frozenset(('type',))
            st.facts[Term('issubclass', s, wrapper)] = False
            st.facts[Term('issubclass', s, base)] = True
        for n in ('C9', 'C5'):
            st.kinds[comp(n)] = frozenset(('type',))
        for t in (T, T2, T3, T4):
            st.kinds[t] = frozenset(('type',))
        for b in ('B9',):
            st.kinds[Sym(b)] = frozenset(('type',))
        kinds = {'C1': 'B0', 'C2': 'B0', 'C4': 'B1', 'C9': 'B0', 'C5': 'B9', 'T': '', 'T2': '', 'T3': '', 'T4': '', 'B0': 'B0', 'B1': 'B1', 'B9': 'B9'}
        for a, b in kinds.items():
            a_ = comp(a) if a[0] == 'C' else Sym(a)
            for other in ('B0', 'B1', 'B9'):
                st.facts[Term('issubclass', a_, Sym(other))] = other == b
            for other in ('C1', 'C2', 'C4', 'C9', 'C5', 'T', 'T2', 'T3', 'T4'):
                o_ = comp(other) if other[0] == 'C' else Sym(other)
                st.facts[Term('issubclass', a_, o_)] = a == other
        self.registry = self.one(I.getattr(self.U, 'registry', st, self.frame()))
        for s in (SCHEMAS['S2'], SCHEMAS['S1']):
            self.one(I.run(FuncV(method(p, p.get_class(REGISTRY), 'register')), [self.registry, s], [], st=self.w.st))
        self.one(I.run(FuncV(method(p, p.get_class(REGISTRY), 'register')), [self.registry, ClassV(p.get_class(NSU))], [], st=self.w.st))

    def frame(self):
        return Frame(None, None, self.p.modules[self.p.PKG])

    def one(self, res):
        if len(res) != 1 or isinstance(res[0][1], Raise):
            raise AnalysisBroken('setting up the registry has no single outcome')
        self.w.st = res[0][0]
        return res[0][1]

    def fn(self, name):
        w, p = self.w, self.p
        NS, NSP = NSM + 'Namespace', NSM + 'Namespaces'
        reg = lambda **kw: (bound(p, self.registry, REGISTRY, 'register'), [], kw)
        return {
            # lookups
            'Namespaces.find_class(C9)': (bound(p, w.world, NSP, 'find_class'), [comp('C9')], {}),
            'Namespaces.find_class(C4)': (bound(p, w.world, NSP, 'find_class'), [comp('C4')], {}),
            'Namespaces.find_class(C2)': (bound(p, w.world, NSP, 'find_class'), [comp('C2')], {}),
            'Namespaces.find_subclasses(B0)': (bound(p, w.world, NSP, 'find_subclasses'), [Sym('B0')], {}),
            'Namespaces.find_subclasses(B1)': (bound(p, w.world, NSP, 'find_subclasses'), [Sym('B1')], {}),
            'Namespaces.find_subclasses(C9)': (bound(p, w.world, NSP, 'find_subclasses'), [comp('C9')], {}),
            'Namespaces.find_namespaces(C5)': (bound(p, w.world, NSP, 'find_namespaces'), [comp('C5')], {}),
            'Namespaces.find_namespaces(B1)': (bound(p, w.world, NSP, 'find_namespaces'), [Sym('B1')], {}),
            'Namespace.find_class(C9)': (lambda s, rs: self.attr(s, w.ns[0], 'find_class'), [comp('C9')], {}),
            'Namespace.find_class(C2)': (lambda s, rs: self.attr(s, w.ns[0], 'find_class'), [comp('C2')], {}),
            'Namespace.find_subclasses(B0)': (lambda s, rs: self.attr(s, w.ns[0], 'find_subclasses'), [Sym('B0')], {}),
            "Namespace['n2']": (bound(p, w.ns[0], NS, '__getitem__'), [Const('n2')], {}),
            "Namespace['N.1']": (bound(p, w.ns[0], NS, '__getitem__'), [Const('N.1')], {}),
            'UnmarshalSchema(T)': (self.U, [T], {}),
            'UnmarshalSchema(T2)': (self.U, [T2], {}),
            'UnmarshalSchema(T3)': (self.U, [T3], {}),
            'UnmarshalSchema(T4)': (self.U, [T4], {}),
            'UnmarshalSchema(C1)': (self.U, [comp('C1')], {}),
            'UnmarshalSchema(C4)': (self.U, [comp('C4')], {}),
            'UnmarshalSchema(C5)': (self.U, [comp('C5')], {}),
            # registrations
            "register(C9, name='n3')": (bound(p, w.ns[0], NS, 'register'), [comp('C9')], {'name': Const('n3')}),
            "register(C9, name='n2', replace=True)": (bound(p, w.ns[0], NS, 'register'), [comp('C9')], {'name': Const('n2'), 'replace': TRUE}),
            "namespaces.new('ns9', B9)": (bound(p, w.world, NSP, 'new'), [Const('ns9'), Sym('B9')], {}),
            "del namespaces['ns0']": (bound(p, w.world, NSP, '__delitem__'), [Const('ns0')], {}),
            "del namespaces['ns1']": (bound(p, w.world, NSP, '__delitem__'), [Const('ns1')], {}),
            'registry.register(S9)': (bound(p, self.registry, REGISTRY, 'register'), [SCHEMAS['S9']], {}),
            '@registry.register()': [(bound(p, self.registry, REGISTRY, 'register'), [], {}), (lambda s, rs: rs[-1], [SCHEMAS['S9']], {})],
        }[name]

    def attr(self, s, ref, name):
        return self.I.getattr(ref, name, s, self.frame())[0][1]

    def play(self, names, label):
        todo = []
        for n in names:
            t = self.fn(n)
            todo.extend(t if isinstance(t, list) else [t])
        return history(self.w, label, todo)


QUERIES = ['Namespaces.find_class(C9)', 'Namespaces.find_class(C4)', 'Namespaces.find_class(C2)', 'Namespaces.find_subclasses(B0)', 'Namespaces.find_subclasses(B1)',
           'Namespaces.find_subclasses(C9)', 'Namespaces.find_namespaces(C5)', 'Namespaces.find_namespaces(B1)',
           'Namespace.find_class(C9)', 'Namespace.find_class(C2)', 'Namespace.find_subclasses(B0)', "Namespace['n2']", "Namespace['N.1']",
           'UnmarshalSchema(T)', 'UnmarshalSchema(C1)', 'UnmarshalSchema(C4)', 'UnmarshalSchema(C5)']
CHANGES = ["register(C9, name='n3')", "register(C9, name='n2', replace=True)", "namespaces.new('ns9', B9)", "del namespaces['ns1']", 'registry.register(S9)', '@registry.register()']


def describe(I, v, st, d=0):
    """A value as a text that does not depend on object identities."""
    if d > 8:
        return '...'
    if isinstance(v, Raise):
        o = st.obj(v.exc)
        return f'raises {o.cls.full if isinstance(o.cls, ClassInfo) else o.cls}'
    if isinstance(v, Ref):
        o = st.obj(v)
        if isinstance(o, Inst):
            name = o.cls.full if isinstance(o.cls, ClassInfo) else o.cls
            if o.has('components'):
                return f'{name}({describe(I, o.get("name"), st)})'
            if o.has('__items__'):
                return f'{name}{describe(I, o.get("__items__"), st, d + 1)}'
            return f'{name}(' + ', '.join(f'{k}={describe(I, x, st, d + 1)}' for k, x in sorted(o.attrs, key=lambda a: a[0]) if k not in ('_schema', '_args', '_kwargs')) + ')'
        if isinstance(o, Dct):
            return '{' + ', '.join(': '.join(describe(I, x, st, d + 1) for x in c[1:]) if c[0] == '1' else repr(c) for c in o.cells) + '}'
        if isinstance(o, Lst):
            return '[' + ', '.join(describe(I, c[1], st, d + 1) if c[0] == '1' else repr(c) for c in o.cells) + ']'
    if isinstance(v, Tup):
        return '[' + ', '.join(describe(I, c[-1], st, d + 1) if c[0] == '1' else repr(c) for c in v.cells) + ']'
    if isinstance(v, Term):
        return f'{v.op}(' + ', '.join(describe(I, x, st, d + 1) if not isinstance(x, str) else x for x in v.args) + ')'
    return repr(v)


def answers(sc):
    """The possible last results of a history; None when one is not decided."""
    if sc.cut or any(o.tainted for o in sc.outcomes) or not sc.outcomes:
        return None
    return {describe(sc.I, steps_of(o)[-1], o.st) for o in sc.outcomes}


def compare(c, rule, label, plain, mixed, where):
    c.use(mixed)
    a, b = answers(plain), answers(mixed)
    if a is None or b is None:
        return
    c.ob(rule, a == b, where, f'{label}: {" | ".join(sorted(b))} instead of {" | ".join(sorted(a))}', trace(mixed.outcomes[0]))


def where_of(p, change):
    return {'reg': method(p, p.get_class(REGISTRY), 'register').where, '@re': method(p, p.get_class(REGISTRY), 'register').where, 'nam': method(p, p.get_class(NSM + 'Namespaces'), 'new').where,
            'del': method(p, p.get_class(NSM + 'Namespaces'), '__delitem__').where}[change[:3]] if not change.startswith('register') else method(p, p.get_class(NSM + 'Namespace'), 'register').where


def c13(c):
    p = c.p
    c.rule('fresh-after-change', 'A lookup after a registration, replacement or removal gives what it gives when no lookup came before.')
    c.rule('repeatable', 'Repeating a lookup, or making another one before it, does not change its result.')
    c.rule('equal-types', 'A type is never given what was looked up for another type that merely equals it (an alias of another class, a union in another order).')
    c.rule('failed-build', 'A lookup that failed leaves nothing behind that later lookups could see.')
    c.rule('own-registry', 'A registry never answers from what another registry has matched.')
    c.explain('The namespaces, the registry and the schema metaclass are executed abstractly with their memoised functions remembering results and cache_clear() dropping them; '
              'every pair of a lookup and a change (and every pair of lookups) is executed in both orders and the answers are compared.')
    base = {q: c.use(Lookups(p).play([q], q)) for q in QUERIES + [f'UnmarshalSchema({x})' for x in ('T2', 'T3', 'T4')]}
    meta = p.get_class(META).where if hasattr(p.get_class(META), 'where') else ''
    for ch in CHANGES:
        for q in QUERIES:
            plain = c.use(Lookups(p).play([ch, q], f'{ch}; {q}'))
            compare(c, 'fresh-after-change', f'{q} after {ch}, when looked up before', plain, Lookups(p).play([q, ch, q], f'{q}; {ch}; {q}'), where_of(p, ch))
    for q in QUERIES:
        compare(c, 'repeatable', f'{q} for the second time', base[q], Lookups(p).play([q, q], f'{q}; {q}'), meta)
    for q in QUERIES:
        others = [x for x in QUERIES if x != q]
        compare(c, 'repeatable', f'{q} after all other lookups', base[q], Lookups(p).play(others + [q], f'...; {q}'), meta)
    for a, b in (('T', 'T2'), ('T2', 'T'), ('T3', 'T4'), ('T4', 'T3')):
        qa, qb = f'UnmarshalSchema({a})', f'UnmarshalSchema({b})'
        compare(c, 'equal-types', f'{qb} after {qa}, which merely equals it', base[qb], Lookups(p).play([qa, qb], f'{qa}; {qb}'), meta)
    for q in ('UnmarshalSchema(T)', 'UnmarshalSchema(C1)', "Namespace['n2']"):
        compare(c, 'failed-build', f'{q} after it failed once', base[q], Lookups(p, fails=True).play([q, q], f'{q} fails; {q}'), meta)
    statistics(c)
    away, reg = "del namespaces['ns0']", "register(C9, name='n3')"
    plain = c.use(Lookups(p).play([away, reg, 'Namespace.find_class(C9)'], 'removed namespace'))
    compare(c, 'fresh-after-change', 'find_class(C9) of a namespace no longer listed, after registering C9 in it, when looked up before', plain,
            Lookups(p).play([away, 'Namespace.find_class(C9)', reg, 'Namespace.find_class(C9)'], 'removed namespace, looked up before'), where_of(p, reg))
    L = Lookups(p)
    second = L.one(L.I.construct(ClassV(p.get_class(REGISTRY)), [], [], L.w.st, L.frame(), None))
    get = lambda r, t: (bound(p, r, REGISTRY, 'match'), [t], {})
    setup = [(bound(p, second, REGISTRY, 'register'), [SCHEMAS['S2']], {})]
    st = L.w.st
    plain = c.use(history(L.w, 'second registry', setup + [get(second, T)]))
    L.w.st = st
    compare(c, 'own-registry', 'match() of a registry after another one matched the same type', plain, history(L.w, 'first registry, then the second', setup + [get(L.registry, T), get(second, T)]), method(p, p.get_class(REGISTRY), 'match').where)
    # a registry of one's own reflects its own registrations
    grow = [(bound(p, second, REGISTRY, 'register'), [SCHEMAS['S9']], {})]
    plain = c.use(history_from(L, st, 'second registry, registered twice', setup + grow + [get(second, comp('C1'))]))
    compare(c, 'fresh-after-change', 'match() of a second registry after a registration in it', plain,
            history_from(L, st, 'second registry, matched before', setup + [get(second, comp('C1'))] + grow + [get(second, comp('C1'))]), method(p, p.get_class(REGISTRY), 'register').where)



def history_from(L, st, name, todo):
    L.w.st = st
    return history(L.w, name, todo)


def statistics(c):
    """cache_info() tells what the memoised functions did, not which functions they are."""
    c.rule('info', 'cache_info() of the registry, the schemas and the namespaces consists of statistics, one for each memoised function, and no function that is still to be called.')
    p = c.p
    for label, cls, get in (('UnmarshalSchemaRegistry', REGISTRY, lambda L: L.registry), ('Namespaces', NSM + 'Namespaces', lambda L: L.w.world),
                            ('Namespace', NSM + 'Namespace', lambda L: L.w.ns[0])):
        for full in ((None, True, False) if label == 'Namespaces' else (None,)):
            L = Lookups(p)
            info = method(p, p.get_class(cls), 'cache_info')
            kw = {} if full is None else {'full': mk(full)}
            sc = c.use(history(L.w, f'{label}.cache_info({kw})', [(BoundV(FuncV(info), get(L)), [], kw)]))
            for o in sc.decided():
                c.ob('info', o.ok and not uncalled(o.value, o.st), info.where, f'{label}.cache_info() returns {o.value!r}', (sc.name,))


def uncalled(v, st, d=0):
    if isinstance(v, (FuncV, BoundV)) or isinstance(v, Term) and v.op == 'attr' and v.args[1] in ('cache_info', Const('cache_info')):
        return True
    if d > 5:
        return False
    if isinstance(v, Ref):
        o = st.obj(v)
        if isinstance(o, (Lst, Dct)):
            return any(uncalled(x, st, d + 1) for k in o.cells for x in k[1:] if not isinstance(x, tuple))
        return isinstance(o, Inst) and any(uncalled(x, st, d + 1) for _, x in o.attrs)
    if isinstance(v, Tup):
        return any(uncalled(x[-1], st, d + 1) for x in v.cells)
    return False


CHECKS = {'C24': c24, 'C13': c13}
