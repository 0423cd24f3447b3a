"""Rules on deep scans over elements and candidate lists: C27."""
from ..scen import *
from .elements import put, agrees, atom, A, Miss, MISS, Stars, interp, EL
from .unmarshal import Runs, trace
from .purity import scan_scenes

U_ = 'marsh.utils.'
KEYS = ('a', 1, None, 2.5)
LEAVES = ('none', 'bool', 'int', 'float', 'str', 'bytes', 'other')


def trees(depth=3):
    """Bounded trees with at most one missing marker, at every kind of position."""
    a = lambda k='str': atom(k)
    flat = [a(k) for k in LEAVES] + [{}, [], {KEYS[i]: a(k) for i, k in enumerate(PRIM4)}, [a(k) for k in LEAVES]]
    out = list(flat)
    hole = [MISS]
    for level in range(depth):
        nxt = []
        for h in hole:
            nxt += [[h], [a(), h], [h, a('int')], [{}, a('none'), h, []], {'a': h}, {'a': a(), 1: h}, {None: h, 'b': {'c': a()}}, {'a': [a()], 'b': h, 'c': {}}]
        if level == 0:
            nxt += [{MISSING_TEXT: a()}, {'a': a(), MISSING_TEXT: a('none')}, {'a': [a()], MISSING_TEXT: {}}]
        out += hole + nxt
        hole = nxt if level == 0 else nxt[::5]
    out += hole
    # the same nesting without a marker
    plain = [a(), {'x': a('int')}, [a('none')]]
    for _ in range(2):
        plain = [x for h in plain for x in ([h], [a(), h, {}], {'a': h}, {'a': a(), 1: h, None: []})][::2]
        out += plain
    return out


PRIM4 = ('str', 'none', 'int', 'bool')


def missing_in(t):
    if isinstance(t, Miss):
        return True
    if isinstance(t, dict):
        return any(k == MISSING_TEXT or missing_in(v) for k, v in t.items())
    if isinstance(t, list):
        return any(map(missing_in, t))
    return False


def item_scans(I):
    """Items standing for any number of unknown ones: the scan of one is a fact."""
    def model(I, pos, kw, st, fr, node):
        a = pos[0][1] if pos else kw[0][2]
        if isinstance(a, Sym) and a.name in ('preitem', 'postitem'):
            return [(s, mk(b)) for s, b in I.fact(st, Term('scan', a))]
        return None
    I.models['marsh.element.has_missing'] = model


def has_missing_rules(c):
    c.rule('finds', 'has_missing is true exactly when the missing marker is the element itself, a key or an item at any depth.')
    c.rule('total', 'The scan never raises, whatever the keys and items are.')
    p = c.p
    f = p.get_func(EL + 'has_missing')
    R = Runs.of(p)
    todo = [(repr(t), lambda st, t=t: put(st, t), missing_in(t)) for t in trees()]
    # any number of items before and after the marker, none of them known
    for x in (MISS, [MISS], {'k': MISS}):
        todo.append((f'[..., {x!r}, ...]', lambda st, x=x: put(st, Stars(x)), True))
    for name, el, want in todo:
        def go():
            I = interp(p, budget=5.0)
            st = State()
            item_scans(I)
            I.hash_check = True
            return execute(I, f'has_missing({name})', st, FuncV(f), [el(st)], info=f)
        sc = c.use(R.get(('hasmissing', name), go))
        for o in sc.decided():
            if not o.ok:
                c.ob('total', False, o.origin(), f'has_missing({name}) raises {o.cls_name()}', trace(o))
            elif isinstance(o.value, Const):
                c.ob('finds', bool(o.value.v) == want, f.where, f'has_missing({name}) is {o.value!r}', trace(o))
            else:
                c.undecided.append(f'has_missing({name}) gives {o.value!r}')


def standard(t):
    return t


def standardize_rules(c):
    c.rule('standard', 'standardize rebuilds the mappings and sequences of every level and keeps keys, order and all other values as they are.')
    p = c.p
    f = p.get_func(EL + 'standardize')
    R = Runs.of(p)
    MT, SQ = Sym('MT'), Sym('SQ')
    for t in trees(2):
        for given in (False, True):
            name = f'standardize({t!r}{", mapping_type, sequence_type" if given else ""})'

            def go():
                I = interp(p, budget=5.0)
                I.hash_check = True
                st = State()
                base = I.call_hook

                def hook(I, g, pos, kw, st, fr, node):
                    if g in (MT, SQ):
                        return I.bind(I.call(ExtV('builtins.' + ('dict' if g == MT else 'tuple')), pos, kw, st, fr, node),
                                      lambda s, r: [(s, Term('usercall', g, Tup([one(r)]), Tup((), 'kw')))])
                    return base(I, g, pos, kw, st, fr, node) if base else None
                I.call_hook = hook
                for x in (MT, SQ):
                    st.kinds[x] = frozenset(('type',))
                    st.facts[Term('is', *sorted((x, ExtV('builtins.dict')), key=repr))] = False
                    st.facts[Term('is', *sorted((x, ExtV('builtins.tuple')), key=repr))] = False
                    st.facts[Term('eq', *sorted((x, ExtV('builtins.dict')), key=repr))] = False
                    st.facts[Term('eq', *sorted((x, ExtV('builtins.tuple')), key=repr))] = False
                return execute(I, name, st, FuncV(f), [put(st, t)], [('mapping_type', MT), ('sequence_type', SQ)] if given else [], info=f)
            sc = c.use(R.get(('standardize', name), go))
            for o in sc.decided():
                if not o.ok:
                    if o.exc.has('__user__'):
                        continue
                    c.ob('total', False, o.origin(), f'{name} raises {o.cls_name()}', trace(o))
                    continue
                r = rebuilt(sc.I, o.st, o.value, t, (MT, SQ) if given else None)
                if r is None:
                    c.undecided.append(f'{name} gives {o.value!r}')
                else:
                    c.ob('standard', r, f.where, f'{name} gives {show(sc.I, o.st, o.value)}', trace(o))


def show(I, st, v, d=0):
    o = I.container(v, st) if isinstance(v, (Ref, Tup)) else None
    if o is None or d > 5:
        return repr(v)
    if isinstance(o, Dct):
        return '{' + ', '.join(f'{c[1]!r}: {show(I, st, c[2], d + 1)}' if c[0] == '1' else '...' for c in o.cells) + '}'
    return '[' + ', '.join(show(I, st, c[1], d + 1) if c[0] == '1' else '...' for c in o.cells) + ']'


def rebuilt(I, st, v, t, types, d=0):
    """Is v the tree t, in fresh standard containers on every level?  None: not known"""
    if isinstance(t, (Miss, A)):
        return agrees(I, st, v, t)
    if types:
        want = types[0] if isinstance(t, dict) else types[1]
        if not (isinstance(v, Term) and v.op == 'usercall'):
            return False if isinstance(v, (Const, Sym, Ref, Tup)) else None
        if v.args[0] != want or len(v.args[1].cells) != 1 or v.args[1].cells[0][0] != '1':
            return False
        v = v.args[1].cells[0][1]
    if isinstance(v, Sym):
        return False        # the input itself
    o = I.container(v, st) if isinstance(v, (Ref, Tup, Term)) else None
    if o is None:
        return False if isinstance(v, Const) else None
    if isinstance(t, dict):
        if not isinstance(o, Dct):
            return False
        if any(c[0] != '1' or not isinstance(c[1], Const) for c in o.cells):
            return None
        if [c[1].v for c in o.cells] != list(t):
            return False
        rs = [rebuilt(I, st, c[2], t[c[1].v], types, d + 1) for c in o.cells]
    else:
        if isinstance(o, Dct) or not types and not (isinstance(v, Tup) or getattr(o, 'kind', '') == 'tuple'):
            return False
        if any(c[0] != '1' for c in o.cells):
            return None
        if len(o.cells) != len(t):
            return False
        rs = [rebuilt(I, st, c[1], x, types, d + 1) for c, x in zip(o.cells, t)]
    return False if False in rs else None if None in rs else True


def closest_model(I, pos, kw, st, fr, node):
    """difflib.get_close_matches wants texts only."""
    w, cand = pos[0][1], pos[1][1] if len(pos) > 1 else dict((c[1].v, c[2]) for c in kw)['possibilities']
    return I.bind(I.call(ExtV('builtins.list'), [one(cand)], [], st, fr, node), lambda s, cs: matches(I, w, cs, s, fr, node))


def matches(I, w, cand, st, fr, node):
    text = frozenset(('str', 'missing'))
    ok = I.kinds(w, st) <= text
    cells = I.seq_cells(cand, st)
    if cells is None:
        st.blur('candidates not known')
    else:
        ok = ok and all(I.kinds(y, st) <= text for x in cells for y in ([x[1]] if x[0] == '1' else x[2] if x[0] == '*' else []))
    if not ok:
        return [(st, I.raise_new(st, 'builtins.TypeError', node, fr))]
    s = st.fork()
    return [(st, st.new(Lst((), 'list'))), (s, s.new(Lst((one(Term('str', Term('closest', w))),), 'list')))]


def closest_rules(c):
    c.rule('closest', 'The closest-match helpers never fail, whatever kind the value and the candidates have.')
    p = c.p
    for name in ('get_closest', 'get_closest_error_message'):
        f = p.get_func(U_ + name)
        for k in sorted(ALL_KINDS):
            for ck in sorted(ALL_KINDS):
                I = interp(p)
                I.hash_check = True
                I.ext_models = dict(I.ext_models)
                I.ext_models['difflib.get_close_matches'] = closest_model
                st = State()
                V, C = Sym('V'), Sym('CAND')
                st.kinds[V], st.kinds[C] = frozenset((k,)), frozenset((ck,))
                cands = st.new(Lst((one(C), one(Const('other'))), 'list', 'input', Sym('CANDS')))
                what = f'{name}(<{k}>, [<{ck}>, "other"])'
                sc = c.use(execute(I, what, st, FuncV(f), [V, cands], info=f))
                for o in sc.decided():
                    c.ob('closest', o.ok, o.origin() if not o.ok else f.where, f'{what} raises {o.cls_name() if not o.ok else ""}', trace(o))


def c27(c):
    c.explain('has_missing and standardize are abstractly interpreted on bounded trees with a marker at every kind of position (item, value, key; up to three levels; any number of items around it) '
              'and leaves of every kind; the closest-match helpers on values and candidates of every kind.')
    has_missing_rules(c)
    standardize_rules(c)
    closest_rules(c)


CHECKS = {'C27': c27}
