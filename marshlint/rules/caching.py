"""Rules on memoised functions (C14)."""
from ..scen import *
from ..interp import Raise
from ..models import P, KW

FN, R1, R2 = Sym('FN'), Sym('R1', None, 'recv'), Sym('R2', None, 'recv')
X, Y, U = Sym('X', None, 'arg'), Sym('Y', None, 'arg'), Sym('U', None, 'arg')
X2 = Sym('X2', None, 'arg')         # equals X, of another class
K1, K2 = 'k1', 'k2'


class World:
    def __init__(self, p):
        self.p = p
        I = self.I = lib.make(p, kinds=False, defaults=False, budget=20.0)
        st = self.st = State()
        for s in (FN, R1, R2, X, Y, U, X2):
            st.kinds[s] = frozenset(('other',))
        I.call_hook = self.hook
        E = I.ext_models
        E['weakref.ref'] = lambda I, pos, kw, s, fr, node: [(s, Term('weakref', P(pos, 0)))]
        E['weakref.proxy'] = lambda I, pos, kw, s, fr, node: [(s, P(pos, 0))]
        E['functools.lru_cache'] = self.lru_cache
        E['functools.cache'] = lambda I, pos, kw, s, fr, node: [(s, Term('lru', P(pos, 0), FALSE, Const(self.fresh())))]
        E['functools.wraps'] = E['functools.update_wrapper'] = lambda I, pos, kw, s, fr, node: [(s, ExtV('marshlint.identity'))]
        E['builtins.hash'] = self.b_hash
        E['marshlint.lru'] = lambda I, pos, kw, s, fr, node: [(s, Term('lru', P(pos, 2), P(pos, 1), Const(self.fresh())))]
        self.n = 0

    def fresh(self):
        self.n += 1
        return self.n

    def lru_cache(self, I, pos, kw, st, fr, node):
        maxsize, typed = lib.arg(pos, kw, 0, 'maxsize', Const(128)), lib.arg(pos, kw, 1, 'typed', FALSE)
        if maxsize is not None and not isinstance(maxsize, Const) and isinstance(maxsize, (FuncV, BoundV, Sym)) and not kw:
            return [(st, Term('lru', maxsize, FALSE, Const(self.fresh())))]
        return [(st, PartialV(ExtV('marshlint.lru'), (one(maxsize), one(typed)), ()))]

    # what the memo of functools compares
    def b_hash(self, I, pos, kw, st, fr, node):
        v = P(pos, 0)
        return [(s, t) for s, t in self.hash(v, st, fr, node)]

    def hash(self, v, st, fr, node):
        """-> [(st, hash value | Raise)]"""
        if v == U:
            return [(st, self.I.raise_new(st, 'builtins.TypeError', node, fr))]
        if v == X2:
            return [(st, Term('hash', X))]
        if isinstance(v, Term) and v.op == 'weakref':
            return self.hash(v.args[0], st, fr, node)
        if isinstance(v, Ref):
            o = st.obj(v)
            if isinstance(o, (Lst, Dct)):
                return [(st, self.I.raise_new(st, 'builtins.TypeError', node, fr))]
            if isinstance(o, Inst) and isinstance(o.cls, ClassInfo):
                h, e = self.p.find_member(o.cls, '__hash__'), self.p.find_member(o.cls, '__eq__')
                if h is not None:
                    return self.I.call(FuncV(h[1][1]), [one(v)], [], st, fr, node)
                if e is not None:
                    return [(st, self.I.raise_new(st, 'builtins.TypeError', node, fr))]
        if isinstance(v, Tup):
            res = [(st, ())]
            for c in v.cells:
                res = self.I.bind(res, lambda s, acc, c=c: self.I.bind(self.hash(c[1], s, fr, node), lambda s2, h: [(s2, acc + (h,))]))
            return self.I.bind(res, lambda s, acc: [(s, Term('hash', Tup([one(h) for h in acc])))])
        return [(st, Term('hash', v))]

    def eq(self, a, b, st, fr, node):
        """-> [(st, bool)]: do two parts of a key compare equal?"""
        if a == b or {a, b} == {X, X2}:
            return [(st, True)]
        if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op == 'weakref':
            return self.eq(a.args[0], b.args[0], st, fr, node)
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.cells) != len(b.cells):
                return [(st, False)]
            return self.all_eq([(x[1], y[1]) for x, y in zip(a.cells, b.cells)], st, fr, node)
        if isinstance(a, Const) and isinstance(b, Const):
            return [(st, a.v == b.v)]
        if isinstance(a, Ref) and isinstance(st.obj(a), Inst) and isinstance(st.obj(a).cls, ClassInfo):
            e = self.p.find_member(st.obj(a).cls, '__eq__')
            if e is not None and e[1][0] == 'func':
                return self.I.bind(self.I.call(FuncV(e[1][1]), [one(a), one(b)], [], st, fr, node), lambda s, v: self.I.truth(v, s))
        return [(st, False)]

    def all_eq(self, pairs, st, fr, node, kinds=False):
        res, out = [st], []
        for a, b in pairs:
            nxt = []
            if kinds and ({a, b} == {X, X2} or isinstance(a, Const) and isinstance(b, Const) and type(a.v) is not type(b.v)):
                return out + [(s, False) for s in res]
            for s in res:
                for s2, r in self.eq(a, b, s, fr, node):
                    (nxt if r is True else out).append(s2 if r is True else (s2, False))
            res = nxt
        return out + [(s, True) for s in res]

    # calls of unknown things
    def hook(self, I, f, pos, kw, st, fr, node):
        if isinstance(f, Term) and f.op == 'weakref':
            return [(st, f.args[0])]
        if isinstance(f, Term) and f.op == 'lru':
            return self.lru_call(f, pos, kw, st, fr, node)
        if isinstance(f, Term) and f.op == 'attr' and isinstance(f.args[0], Term) and f.args[0].op == 'lru':
            if f.args[1] == 'cache_clear':
                st.data = {k: v for k, v in st.data.items() if k != ('lru', f.args[0])}
                return [(st, NONE)]
            return [(st, Term('info', f.args[0]))]
        if f == FN:
            script = st.data['script']
            n = st.data['calls'] = st.data['calls'] + 1
            st.event('fn', Tup(pos), Tup(kw, 'kw'))
            if script and n <= len(script) and script[n - 1]:
                return [(st, I.raise_new(st, script[n - 1], node, fr))]
            return [(st, self.answer(pos, kw, st))]
        return None

    def answer(self, pos, kw, st):
        return Term('answer', Tup(pos), Tup(kw, 'kw'), Const(st.data['epoch']))

    def lru_call(self, f, pos, kw, st, fr, node):
        fn, typed, _ = f.args
        res = [(st, None)]
        for c in list(pos) + list(kw):
            res = self.I.bind(res, lambda s, _, v=c[-1]: self.hash(v, s, fr, node))
        if typed not in (TRUE, FALSE):
            st.blur('typed unknown')

        def go(s, _):
            out, front = [], [s]
            for p, k, v in s.data.get(('lru', f), ()):
                if len(p) != len(pos) or [c[1] for c in k] != [c[1] for c in kw]:
                    continue
                nxt = []
                for s1 in front:
                    for s2, r in self.all_eq([(a[-1], b[-1]) for a, b in zip(list(p) + list(k), list(pos) + list(kw))], s1, fr, node, typed == TRUE):
                        out.append((s2, v)) if r is True else nxt.append(s2)
                front = nxt
            meanwhile = []
            for s1 in front:
                other = s1.data.get('other')
                if other is None:
                    meanwhile.append(s1)
                    continue
                # another thread makes a whole call before this one reaches the function
                s1.data = dict(s1.data, other=None)
                for s2, _ in other(s1):
                    meanwhile.append(s2)
            for s1 in meanwhile:
                for s2, v in self.I.call(fn, pos, kw, s1, fr, node):
                    if not isinstance(v, Raise):
                        s2.data = dict(s2.data)
                        s2.data[('lru', f)] = s2.data.get(('lru', f), ()) + ((tuple(pos), tuple(kw), v),)
                    out.append((s2, v))
            return out
        return self.I.bind(res, go)


def pos_kw(args, kwargs):
    return [one(a) for a in args], [kwcell(k, v) for k, v in kwargs]


CALLS = {
    'x': ((X,), ()), 'y': ((Y,), ()), 'x,y': ((X, Y), ()), 'y,x': ((Y, X), ()), 'k1=x': ((), ((K1, X),)), 'k2=x': ((), ((K2, X),)),
    'x,k1=y': ((X,), ((K1, Y),)), 'k1=x,k2=y': ((), ((K1, X), (K2, Y))), 'k2=y,k1=x': ((), ((K2, Y), (K1, X))), 'k1=y,k2=x': ((), ((K1, Y), (K2, X))), '': ((), ()),
    'u': ((U,), ()), 'x,u': ((X, U), ()), 'k1=u': ((), ((K1, U),)), 'x2': ((X2,), ()), 'k1=x2': ((), ((K1, X2),)), 'x,k1=x2': ((X,), ((K1, X2),)), '(x,y)': ((Tup([one(X), one(Y)]),), ()),
    'x,k1=x': ((X,), ((K1, X),)), "'k1'": ((Const(K1),), ()), "'k1',x": ((Const(K1), X), ()), '1': ((Const(1),), ()), 'True': ((Const(True),), ()),
}
OPTIONS = [(t, s, b) for t in (False, True) for s in (True, False) for b in (None, 'weak', 'ignore')]


def run(w, f, pos, cells, st):
    root = Frame(None, None, w.p.modules[w.p.PKG])
    return w.I.call(f, [one(x) for x in pos], list(cells), st, root, None)


def forms(p):
    """The ways to memoise FN: (name, steps to the memoised function)."""
    def direct(w, st, o):
        return run(w, FuncV(p.get_func('marsh.utils.cache')), [FN], o, st=st)

    def deco(w, st, o):
        return w.I.bind(run(w, FuncV(p.get_func('marsh.utils.cache')), [], o, st=st),
                        lambda s, d: run(w, d, [FN], [], st=s))

    def pool(w, st, o):
        cls = p.get_class('marsh.utils.CachePool')
        f = FuncV(method(p, cls, 'new_callable_cache'))
        return w.I.bind(run(w, ClassV(cls), [], [], st=st),
                        lambda s, pl: run(w, f, [pl, FN], o + [kwcell('name', Const('n'))], st=s))

    def pooldeco(w, st, o):
        cls = p.get_class('marsh.utils.CachePool')
        f = FuncV(method(p, cls, 'new_callable_cache'))
        return w.I.bind(run(w, ClassV(cls), [], [], st=st),
                        lambda s, pl: w.I.bind(run(w, f, [pl], o + [kwcell('name', Const('n'))], st=s), lambda s2, d: run(w, d, [FN], [], st=s2)))
    return [('cache(f)', direct), ('@cache', deco), ('CachePool.new_callable_cache(f)', pool), ('@CachePool.new_callable_cache', pooldeco)]


def c14(c):
    p = c.p
    c.rule('own-answer', 'Every call returns what the function returns for exactly its own receiver and arguments (with "ignore", for its own arguments).')
    c.rule('receiver', 'The function is always called with the receiver the call was made on.')
    c.rule('unhashable', 'A call with un-hashable arguments answers like the function itself (when asked to be safe).')
    c.rule('failure', 'An exception of the function reaches the caller and is not kept: the next call is answered by the function.')
    c.rule('clear', 'After clearing, and while disabled, every call is answered by the function anew.')
    c.rule('overlap', 'A call keeps its own receiver and arguments when another call on the same function is made before it reaches the function (calls of other threads).')
    c.rule('keys', 'Keys made of different argument lists are different, and equal argument lists give equal keys.')
    c.explain('The cache decorator is executed abstractly for every combination of its options and every way to apply it, over all pairs of calls out of a set of argument lists '
              '(positional, keyword, swapped, nested, un-hashable, equal but of another class), two receivers and failures; functools.lru_cache, weakref.ref are modelled by their documented semantics.')
    f_cache = p.get_func('marsh.utils.cache')
    where = f_cache.where
    names = list(CALLS)
    for fname, make in forms(p):
        full = fname == 'cache(f)'
        for typed, safe, binding in OPTIONS:
            if not full and (typed, safe) not in ((False, True), (True, False)):
                continue
            opts = [kwcell('typed', mk(typed)), kwcell('safe', mk(safe)), kwcell('binding', Const(binding))]
            w = World(p)
            w.st.data.update(script=(), calls=0, epoch=0)
            label = f'{fname}, typed={typed}, safe={safe}, binding={binding!r}'
            sc = Scene(label, w.I)
            made = guard(sc, lambda: make(w, w.st.fork(), opts))
            for st, g in made or ():
                if isinstance(g, Raise):
                    c.ob('own-answer', bool(st.taint), where, f'{label}: decorating raises {st.obj(g.exc).cls}')
                    continue
                if st.taint:
                    continue
                recvs = (R1, R2) if binding else (None,)
                subset = names if full else ['x', 'y', 'k1=x', 'u', 'x2']
                for a in subset:
                    for b in subset:
                        for r1 in recvs[:1]:
                            for r2 in recvs:
                                if r1 != r2 and binding == 'ignore':
                                    kinds = 'shared'
                                else:
                                    kinds = 'own'
                                pair(c, w, st, g, (a, r1), (b, r2), typed, safe, kinds, label, where, sc)
                for a in ('x', 'k1=x', 'u'):
                    failing(c, w, st, g, a, recvs[0], safe, label, where, sc)
                    clearing(c, w, st, g, a, recvs[0], safe, label, where, sc)
                    disabling(c, w, st, g, a, recvs[0], safe, label, where, sc)
                for a, b in (('x', 'y'), ('x', 'k1=x'), ('k1=x', 'y')):
                    overlapping(c, w, st, g, (a, recvs[0]), (b, recvs[-1]), label, where, sc)
            c.use(sc)
    keys(c)


def guard(sc, f):
    from ..interp import Budget
    try:
        return f()
    except Budget:
        sc.cut = True
    except (RecursionError, AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError):
        if STRICT:
            raise
        sc.cut = True
    return None


def invoke(w, st, g, call, recv):
    args, kws = CALLS[call]
    pos = [recv] if recv is not None else []
    return run(w, g, pos + list(args), [kwcell(k, v) for k, v in kws], st=st)


def wanted(w, st, call, recv):
    args, kws = CALLS[call]
    pos = ([recv] if recv is not None else []) + list(args)
    return w.answer([one(a) for a in pos], [kwcell(k, v) for k, v in kws], st)


def conflated(a, b, typed):
    """May two argument lists share an entry (equal values, classes not told apart)?"""
    def merge(x):
        return str(x).replace('X2', 'X').replace('True', '1')
    return not typed and merge(CALLS[a]) == merge(CALLS[b])


def acceptable(w, st, a, b, r1, r2, typed, kinds, got):
    w2 = wanted(w, st, b, r2)
    if got == w2:
        return True
    # the order of keyword arguments is of no meaning
    if isinstance(got, Term) and got.op == 'answer' and got.args[0] == w2.args[0] and sorted(got.args[1].cells, key=repr) == sorted(w2.args[1].cells, key=repr) and got.args[2] == w2.args[2]:
        return True
    if conflated(a, b, typed):
        return got == wanted(w, st, a, r1 if kinds == 'shared' else r2)
    return kinds == 'shared' and a == b and got == wanted(w, st, a, r1)


def pair(c, w, st, g, one_, two, typed, safe, kinds, label, where, sc):
    (a, r1), (b, r2) = one_, two

    def go():
        out = []
        for s, v in invoke(w, st.fork(), g, a, r1):
            for s2, v2 in invoke(w, s, g, b, r2):
                out.append((s2, v, v2))
        return out
    for s, v, v2 in guard(sc, go) or ():
        if s.taint:
            c.undecided.append(f'{label}: {s.taint}')
            continue
        sc.outcomes.append(Outcome(s, v2))
        for call, recv, got, first in ((a, r1, v, True), (b, r2, v2, False)):
            hard = 'u' in call
            rule = 'unhashable' if hard else 'own-answer'
            what = f'{label}: f({call}) on {recv!r}' + ('' if first else f' after f({a}) on {r1!r}')
            if isinstance(got, Raise):
                e = s.obj(got.exc)
                c.ob(rule, hard and not safe and e.cls == 'builtins.TypeError', e.origin or where, f'{what}: raises {e.cls}')
                continue
            ok = got == wanted(w, s, call, recv) if first else acceptable(w, s, a, b, r1, r2, typed, kinds, got)
            c.ob(rule, ok, where, f'{what}: answers {got!r}')
        for ev in s.events:
            if ev[0] == 'fn' and r1 is not None:
                first = ev[1].cells[0][1] if ev[1].cells else None
                c.ob('receiver', first in (R1, R2), where, f'{label}: the function is called with {first!r} instead of the receiver')


def failing(c, w, st, g, call, recv, safe, label, where, sc):
    for exc in ('builtins.ValueError', 'builtins.TypeError', 'builtins.KeyError'):
        for n in (1, 2):
            def go():
                s0 = st.fork()
                s0.data.update(script=(exc,) * n, calls=0)
                out = []
                for s, v in invoke(w, s0, g, call, recv):
                    first = s.data['calls']
                    s.data = dict(s.data, script=())
                    for s2, v2 in invoke(w, s, g, call, recv):
                        out.append((s2, v, v2, first))
                return out
            for s, v, v2, first in guard(sc, go) or ():
                if s.taint:
                    continue
                sc.outcomes.append(Outcome(s, v2))
                what = f'{label}: f({call}) where the function fails {n} time(s) with {exc}'
                if isinstance(v, Raise):
                    e = s.obj(v.exc)
                    c.ob('failure', e.cls == exc or call == 'u' and not safe, e.origin or where, f'{what}: raises {e.cls}')
                else:
                    c.ob('failure', first > n and v == wanted(w, s, call, recv), where, f'{what}: answers {v!r}')
                if isinstance(v2, Raise):
                    c.ob('failure', call == 'u' and not safe, where, f'{what}: the next call raises too although the function succeeds')
                else:
                    c.ob('failure', v2 == wanted(w, s, call, recv), where, f'{what}: the next call answers {v2!r}')


def overlapping(c, w, st, g, one_, two, label, where, sc):
    (a, r1), (b, r2) = one_, two

    def go():
        s0 = st.fork()
        s0.data = dict(s0.data, other=lambda s: invoke(w, s, g, b, r2))
        return invoke(w, s0, g, a, r1)
    for s, v in guard(sc, go) or ():
        if s.taint:
            continue
        sc.outcomes.append(Outcome(s, v))
        c.ob('overlap', v == wanted(w, s, a, r1), where, f'{label}: f({a}) on {r1!r}, while f({b}) is called on {r2!r} by another thread, answers {v!r}')


def attr_call(w, st, g, name):
    return w.I.bind(w.I.getattr(g, name, st, Frame(None, None, w.p.get_func('marsh.utils.cache').module)), lambda s, m: run(w, m, [], [], st=s))


def clearing(c, w, st, g, call, recv, safe, label, where, sc):
    def go():
        out = []
        for s, v in invoke(w, st.fork(), g, call, recv):
            for s1, _ in attr_call(w, s, g, 'cache_clear'):
                s1.data = dict(s1.data, epoch=1)
                out += invoke(w, s1, g, call, recv)
        return out
    for s, v in guard(sc, go) or ():
        if s.taint or isinstance(v, Raise):
            continue
        sc.outcomes.append(Outcome(s, v))
        c.ob('clear', v == wanted(w, s, call, recv), where, f'{label}: f({call}) after cache_clear() answers {v!r}')


def disabling(c, w, st, g, call, recv, safe, label, where, sc):
    def go():
        out = []
        for s, v in invoke(w, st.fork(), g, call, recv):
            for s1, _ in attr_call(w, s, g, 'cache_disable'):
                s1.data = dict(s1.data, epoch=2)
                seen = [s0 for s0, _ in invoke(w, s1.fork(), g, call, recv)]
                for s0 in seen:
                    s0.data = dict(s0.data, epoch=1)
                for s2, v2 in [x for s0 in seen for x in invoke(w, s0, g, call, recv)]:
                    for s3, _ in attr_call(w, s2.fork(), g, 'cache_enable'):
                        out.append((s3, v2, invoke(w, s3, g, call, recv)))
        return out
    for s, v, after in guard(sc, go) or ():
        if s.taint or isinstance(v, Raise):
            continue
        sc.outcomes.append(Outcome(s, v))
        c.ob('clear', v == wanted(w, s, call, recv), where, f'{label}: f({call}) while disabled answers {v!r}')
        for s2, v2 in after:
            old = dict(s2.data)
            ok = v2 == wanted(w, s2, call, recv)
            s2.data = dict(s2.data, epoch=0)
            ok = ok or v2 == wanted(w, s2, call, recv)
            s2.data = old
            c.ob('own-answer', isinstance(v2, Raise) and 'u' in call and not safe or ok, where, f'{label}: f({call}) after enabling answers {v2!r}')


def keys(c):
    p = c.p
    for fn, typed in (('marsh.utils.make_hash_key', False), ('marsh.utils.make_typed_hash_key', True)):
        f = p.get_func(fn)
        w = World(p)
        sc = Scene(fn, w.I)
        made = {}
        st = w.st.fork()
        st.data.update(script=(), calls=0, epoch=0)
        for name, (args, kws) in CALLS.items():
            if 'u' in name:
                continue
            res = guard(sc, lambda: run(w, FuncV(f), list(args), [kwcell(k, v) for k, v in kws], st=st)) or []
            if len(res) != 1 or isinstance(res[0][1], Raise) or res[0][0].taint:
                continue
            st, made[name] = res[0]
        c.use(sc)
        c.undecided += [f'{fn}({n})' for n in CALLS if 'u' not in n and n not in made]
        for a in made:
            for b in made:
                ka, kb = flat(w, st, made[a]), flat(w, st, made[b])
                same = ka == kb
                if a == b:
                    c.ob('keys', same, f.where, f'{fn}({a}) gives different keys')
                elif not conflated(a, b, typed):
                    c.ob('keys', not same, f.where, f'{fn} gives the same key for ({a}) and ({b})')


def flat(w, st, v):
    if isinstance(v, Ref):
        o = st.obj(v)
        if isinstance(o, Lst):
            return ('seq', tuple(flat(w, st, x[1]) for x in o.cells))
        if isinstance(o, Inst):
            items = o.get('__items__')
            if items is not None:
                return ('seq', flat(w, st, items))
            return ('inst', v.id)
    if isinstance(v, Tup):
        return ('seq', tuple(flat(w, st, x[1]) for x in v.cells))
    if v == X2:
        return X
    if isinstance(v, Term) and Y in v.args:
        # X and Y are of the same class
        return Term(v.op, *[X if a == Y else a for a in v.args])
    if isinstance(v, Const) and v.v is True:
        return Const(1)
    return v


CHECKS = {'C14': c14}
