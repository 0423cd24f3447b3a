"""Rules on the containers the package builds on: dictionaries that accept any key
and caches of values (C34), buffered iterators (C33), priority orders (C32)."""
import itertools
from ..scen import *
from ..interp import Raise, SOURCE
from ..models import P
from ..values import canon
from .caching import guard, run

U_ = 'marsh.utils.'


def machine(p, **kw):
    I = lib.make(p, kinds=False, defaults=False, budget=200.0, **kw)
    I.max_steps = 4000000
    I.call_hook = None
    I.hash_check = True
    I.unroll = 20
    return I


class W:
    """A world to run method calls in."""
    def __init__(self, p, I):
        self.p, self.I = p, I

    def meth(self, ref, name, *pos, st, **kw):
        """-> [(st, value | Raise)]"""
        root = Frame(None, None, self.p.modules[self.p.PKG])
        return self.I.bind(self.I.getattr(ref, name, st, root), lambda s, m: self.I.call(m, [one(x) for x in pos], [kwcell(k, v) for k, v in kw.items()], s, root, None))

    def listed(self, v, st):
        root = Frame(None, None, self.p.modules[self.p.PKG])
        return self.I.collect(v, st, root)

    def contains(self, k, v, st):
        root = Frame(None, None, self.p.modules[self.p.PKG])
        return [(s, r if isinstance(r, Raise) else mk(r)) for s, r in self.I.contains(k, v, st, root, None)]


def exc(st, r):
    return st.obj(r.exc).cls if isinstance(r, Raise) else None


# ---------------------------------------------------------------- C34
KEYS = {'h1': frozenset(('other',)), 'h2': frozenset(('other',)), 'u1': frozenset(('sequence',)), 'u2': frozenset(('sequence',))}


def key(n):
    return Sym(n, None, 'key')


def base(p):
    I = machine(p)
    st = State()
    for n, k in KEYS.items():
        st.kinds[key(n)] = k
        for x in VKEYS.values():
            if isinstance(x, Const):
                st.facts[I.eqterm(key(n), x)] = False
    return I, st


def state_key(st, ref):
    root = Frame(None, None, None)
    return canon(st, root, (ref,))


class Explorer:
    """All states of a container reachable by the operations, each compared with a model."""

    def __init__(self, c, name, cls, make, ops, observe, depth):
        self.c, self.name, self.cls = c, name, cls
        self.ops, self.observe, self.depth = ops, observe, depth
        I, st = base(c.p)
        self.w = W(c.p, I)
        self.sc = Scene(name, I)
        self.where = f'{cls.module.path}:{cls.node.lineno} {cls.name}'
        self.make = make
        self.seen = set()
        self.st = st

    def report(self, rule, ok, what, st=None, r=None, hist=()):
        where = self.where
        if isinstance(r, Raise):
            where = st.obj(r.exc).origin or where
        self.c.ob(rule, ok, where, f'{self.name}, {" ".join(hist) or "empty"}: {what}')

    def go(self):
        got = guard(self.sc, lambda: self.make(self.w, self.st)) or []
        todo = [(s, r, model, ()) for s, r, model in got if not isinstance(r, Raise) and not s.taint]
        for d in range(self.depth + 1):
            nxt = []
            for st, ref, model, hist in todo:
                k = (state_key(st, ref), repr(model))
                if k in self.seen:
                    continue
                self.seen.add(k)
                guard(self.sc, lambda: self.observe(self, st, ref, model, hist))
                if d == self.depth:
                    continue
                for op in self.ops(model):
                    for s, r in guard(self.sc, lambda: op.run(self.w, st.fork(), ref)) or ():
                        self.sc.outcomes.append(Outcome(s, r))
                        if s.taint:
                            continue
                        s.events = ()
                        m, err, val = op.model(model)
                        h = hist + (op.name,)
                        if err is None:
                            self.report(op.rule, not isinstance(r, Raise), f'{op.name} raises {exc(s, r)}', s, r, h)
                            if isinstance(r, Raise):
                                continue
                            if val is not None:
                                self.report(op.rule, r == val, f'{op.name} answers {r!r} instead of {val!r}', s, r, h)
                        else:
                            self.report(op.rule, exc(s, r) == err, f'{op.name} {"raises " + str(exc(s, r)) if isinstance(r, Raise) else "succeeds"} instead of raising {err}', s, r, h)
                            if exc(s, r) != err:
                                continue
                        nxt.append((s, ref, m, h))
            todo = nxt
        self.c.use(self.sc)


class Op:
    def __init__(self, name, rule, run, model):
        self.name, self.rule, self.run, self.model = name, rule, run, model


def safe_dict_ops(model):
    out = []
    for n in KEYS:
        vals = ('V', 'W') if n in ('h1', 'u1') else ('V',)
        for v in vals:
            val = Sym(f'{v}.{n}')

            def m_set(m, n=n, val=val):
                m = dict(m)
                m[n] = val
                return m, None, None
            out.append(Op(f'd[{n}]={v};', 'set', lambda w, st, ref, n=n, val=val: w.meth(ref, '__setitem__', key(n), val, st=st), m_set))

        def m_del(m, n=n):
            if n not in m:
                return m, 'builtins.KeyError', None
            m = dict(m)
            del m[n]
            return m, None, None
        out.append(Op(f'del d[{n}];', 'delete', lambda w, st, ref, n=n: w.meth(ref, '__delitem__', key(n), st=st), m_del))
    return out


def safe_dict_observe(x, st, ref, model, hist):
    w = x.w
    want = [key(n) for n in model]
    for s, cells in w.listed(ref, st.fork()):
        if s.taint:
            x.c.undecided.append(f'{x.name}: {s.taint}')
            continue
        got = None if isinstance(cells, Raise) else [k[1] for k in cells]
        x.report('iterate', got == want, f'iterating gives {got if got is not None else exc(s, cells)} instead of {want}', s, cells, hist)
    for s, r in w.meth(ref, '__reversed__', st=st.fork()):
        for s2, cells in ([(s, r)] if isinstance(r, Raise) else w.listed(r, s)):
            if s2.taint:
                continue
            got = None if isinstance(cells, Raise) else [k[1] for k in cells]
            x.report('iterate', got == want[::-1], f'iterating in reverse gives {got if got is not None else exc(s2, cells)} instead of {want[::-1]}', s2, cells, hist)
    for s, r in w.meth(ref, '__len__', st=st.fork()):
        if not s.taint:
            x.report('iterate', r == Const(len(model)), f'the length is {r!r} instead of {len(model)}', s, r, hist)
    for n in KEYS:
        for s, r in w.meth(ref, '__getitem__', key(n), st=st.fork()):
            if s.taint:
                continue
            if n in model:
                x.report('get', r == model[n], f'd[{n}] is {exc(s, r) or r} instead of {model[n]!r}', s, r, hist)
            else:
                x.report('get', exc(s, r) == 'builtins.KeyError', f'd[{n}] gives {exc(s, r) or r!r} although the key was not set', s, r, hist)
        for s, r in w.contains(key(n), ref, st.fork()):
            if not s.taint:
                x.report('get', r == mk(n in model), f'{n} in d is {exc(s, r) or r}', s, r, hist)


# cached values: (key, is it typed apart)
VKEYS = {'h1': key('h1'), 'h2': key('h2'), 'u1': key('u1'), '1': Const(1), 'True': Const(True), '1.0': Const(1.0)}


def vkeys(typed):
    """An untyped cache is free to tell equal keys of different classes apart or not."""
    return [(n, k) for n, k in VKEYS.items() if typed or n not in ('True', '1.0')]


def value_cache_ops(typed):
    def ops(model):
        out = []
        m0, on = model
        for n, k in vkeys(typed):
            for v in ('V', 'W') if n == '1' else ('V',):
                val = Sym(f'{v}.{n}')

                def m_set(m, n=n, val=val):
                    d, on = m
                    if on:
                        d = dict(d)
                        d[n] = val
                    return (d, on), None, None
                out.append(Op(f'c[{n}]={v};', 'set', lambda w, st, ref, k=k, val=val: w.meth(ref, '__setitem__', k, val, st=st), m_set))

            def m_del(m, n=n):
                d, on = m
                if n not in d:
                    return m, 'builtins.KeyError', None
                d = dict(d)
                del d[n]
                return (d, on), None, None
            out.append(Op(f'del c[{n}];', 'delete', lambda w, st, ref, k=k: w.meth(ref, '__delitem__', k, st=st), m_del))
        for name, f in (('cache_clear', lambda m: (({}, m[1]), None, None)), ('cache_disable', lambda m: ((m[0], False), None, None)), ('cache_enable', lambda m: ((m[0], True), None, None))):
            out.append(Op(f'{name}();', 'switch', lambda w, st, ref, name=name: w.meth(ref, name, st=st), f))
        return out
    return ops


def value_cache_observe(typed):
    def observe(x, st, ref, model, hist):
        d, on = model
        w = x.w
        for n, k in vkeys(typed):
            for s, r in w.meth(ref, '__getitem__', k, st=st.fork()):
                if s.taint:
                    x.c.undecided.append(f'{x.name}: {s.taint}')
                    continue
                have = n in d
                if on and have:
                    x.report('get', r == d[n], f'c[{n}] is {exc(s, r) or r} instead of {d[n]!r}', s, r, hist)
                else:
                    x.report('get', exc(s, r) == 'builtins.KeyError', f'c[{n}] gives {exc(s, r) or r!r} although ' + ('the cache is disabled' if have else 'it was not set'), s, r, hist)
                for s2, r2 in w.meth(ref, '__len__', st=s):
                    if not s2.taint:
                        x.report('get', r2 == Const(len(d)), f'the length after reading c[{n}] is {r2!r} instead of {len(d)}', s2, r2, hist)
    return observe


def c34(c):
    p = c.p
    c.rule('set', 'Setting a key never raises (un-hashable keys included) and later reads give the value.')
    c.rule('get', 'Reading a key gives the value set last, a key that was not set (or a disabled cache) raises KeyError; reading changes nothing.')
    c.rule('delete', 'Deleting removes exactly this key; deleting a key that was not set raises KeyError and changes nothing.')
    c.rule('iterate', 'Iteration gives every key once in the order they were first set, reversed iteration the opposite, and the length agrees.')
    c.rule('switch', 'Clearing, disabling and enabling do what they say.')
    c.explain('All states of SafeDict and ValueCache reachable by sequences of operations on two hashable and two un-hashable unknown keys (ValueCache: also keys that are equal and of '
              'different classes) are explored abstractly, identical abstract states once; in each of them every observation is compared with that of a plain ordered dictionary.')
    sd, vc = p.get_class(U_ + 'SafeDict'), p.get_class(U_ + 'ValueCache')

    def make_sd(w, st):
        return [(s, r, {}) for s, r in w.I.run(ClassV(sd), st=st)]
    Explorer(c, 'SafeDict', sd, make_sd, safe_dict_ops, safe_dict_observe, 5).go()
    for typed in (False, True):
        def make_vc(w, st):
            return [(s, r, ({}, True)) for s, r in w.I.run(ClassV(vc), (), {'typed': mk(typed)}, st=st)]
        Explorer(c, f'ValueCache(typed={typed})', vc, make_vc, value_cache_ops(typed), value_cache_observe(typed), 3).go()


# ---------------------------------------------------------------- C33
class Replay:
    """Iterations over one buffered iterator, with any other iterations running in between."""

    def __init__(self, c, cls, n):
        self.c, self.cls, self.n = c, cls, n
        self.I = machine(c.p)
        self.w = W(c.p, self.I)
        self.root = Frame(None, None, c.p.modules[c.p.PKG])
        self.sc = Scene(f'{n} items', self.I)
        self.where = f'{cls.module.path}:{cls.node.lineno} {cls.name}'
        self.items = [Sym(f'item{i}') for i in range(n)]

    def report(self, rule, ok, what, st=None, r=None):
        where = self.where
        if isinstance(r, Raise):
            where = st.obj(r.exc).origin or where
        self.c.ob(rule, ok, where, f'a source of {self.n} item{"s" if self.n != 1 else ""}: {what}')

    def merge(self, states, ref):
        seen, out = set(), []
        for s in states:
            k = (canon(s, self.root, (ref,)), s.taint)
            if k not in seen:
                seen.add(k)
                s.events = ()
                out.append(s)
        return out

    def walk(self, ref, st, depth, rule, what, stop=None):
        """One iteration, abandoned after `stop` items; others run after each of its items.
        -> the states it can end in."""
        key = ('walk', depth, self.uid())
        st.data[key] = 0

        def body(s, item):
            k = s.data[key]
            s.data[key] = k + 1
            if s.taint:
                return [(s, ('brk',))]
            self.report(rule, k < self.n and item == self.items[k], f'{what} gives {item} as its item {k + 1}' + ('' if k < self.n else ', beyond the last one'))
            if k >= self.n or item != self.items[k] or k + 1 == stop:
                return [(s, ('brk',))]
            return [(s2, None) for s2 in self.others(ref, s, depth)]
        ends = []
        for s, ctl in self.I.iterate(ref, st, self.root, body):
            self.sc.outcomes.append(Outcome(s, NONE))
            if s.taint:
                continue
            k = s.data.pop(key)
            if ctl is not None and ctl[0] == 'exc':
                self.report(rule, False, f'{what} raises {s.obj(ctl[1]).cls} after {k} items', s, Raise(ctl[1]))
                continue
            if ctl is None:
                self.report(rule, k == self.n, f'{what} ends after {k} items')
            ends.append(s)
        return ends

    uid_ = 0

    def uid(self):
        self.uid_ += 1
        return self.uid_

    def others(self, ref, st, depth):
        out = [st]
        if depth:
            for stop in list(range(1, self.n + 1)) + [None]:
                out += self.walk(ref, st.fork(), depth - 1, 'nested', 'an iteration started while another one is going on' + (f' and abandoned after {stop} items' if stop else ''), stop)
            out += self.truth(ref, st.fork())
        return self.merge(out, ref)

    def truth(self, ref, st):
        out = []
        for s, b in self.I.truth(ref, st):
            if s.taint:
                self.sc.outcomes.append(Outcome(s, NONE))
                continue
            if isinstance(b, bool):
                self.report('truth', b == bool(self.n), f'its truth value is {b}')
            out.append(s)
        return out

    def go(self):
        st = State()
        cells = Tup([one(x) for x in self.items])
        src = st.new(Inst(SOURCE, (('pos', Const(0)), ('cells', cells))))
        starts = [(s, r) for s, r in self.I.run(ClassV(self.cls), (src,), st=st)]
        for s, ref in starts:
            if s.taint:
                self.sc.outcomes.append(Outcome(s, NONE))
                continue
            self.report('replay', not isinstance(ref, Raise), 'it can not be constructed', s, ref)
            if isinstance(ref, Raise):
                continue
            states = [s]
            for what in ('the first iteration', 'the second iteration', 'the third iteration'):
                nxt = []
                for s1 in states:
                    nxt += self.truth(ref, s1.fork())
                    for stop in list(range(1, self.n + 1)) + [None]:
                        nxt += self.walk(ref, s1.fork(), 2 if self.n < 3 else 1, 'replay', what, stop)
                    if self.c.p.find_member(self.cls, '__len__'):
                        for s2, r in self.w.meth(ref, '__len__', st=s1.fork()):
                            if not s2.taint:
                                self.report('truth', r == Const(self.n), f'its length is {exc(s2, r) or r}', s2, r)
                                nxt.append(s2)
                states = self.merge(nxt, ref)
        self.c.use(self.sc)


def c33(c):
    c.rule('replay', 'Every iteration, whatever happened before, yields the items of the source once, in order, and then ends.')
    c.rule('nested', 'So does an iteration that is started while others are going on, and those are not disturbed by it, whether it is completed or abandoned.')
    c.rule('truth', 'The truth value (and length, if there is one) is that of the complete sequence; finding it out disturbs no iteration.')
    c.explain('All iterations over IterableFromIterator on sources of zero to three unknown items. After every item an iteration yields, every other iteration may run: a fresh one that is '
              'completed or abandoned after any number of items, to a nesting depth of two, or a truth test. Since an iteration keeps nothing but its own position apart from the shared buffer, '
              'the effect of the next piece of any older iteration is that of such a fresh one, so this covers all interleavings for these lengths.')
    cls = c.p.get_class(U_ + 'IterableFromIterator')
    for n in range(4):
        r = Replay(c, cls, n)
        guard(r.sc, r.go)


# ---------------------------------------------------------------- C32
def cyclic(nodes, edges):
    nodes, edges = set(nodes), set(edges)
    while nodes:
        free = {n for n in nodes if not any(b == n and a in nodes for a, b in edges)}
        if not free:
            return True
        nodes -= free
    return False


class Entry:
    def __init__(self, prio, lower=(), higher=()):
        self.prio, self.lower, self.higher = prio, frozenset(lower), frozenset(higher)

    def __repr__(self):
        out = f'priority {self.prio}'
        for k, v in (('over', self.lower), ('under', self.higher)):
            if v:
                out += f' {k} {"+".join(sorted(v))}'
        return out


def edges_of(entries):
    out = set()
    for n, e in entries.items():
        out |= {(n, x) for x in e.lower if x in entries and x != n} | {(x, n) for x in e.higher if x in entries and x != n}
    return out


class Order:
    """Histories of a priority order, compared with what was stated."""

    def __init__(self, c, cls, scene):
        self.c, self.cls = c, cls
        self.I = machine(c.p)
        self.I.injective = frozenset(('hash', 'str'))
        self.w = W(c.p, self.I)
        self.sc = Scene(scene, self.I)
        self.where = f'{cls.module.path}:{cls.node.lineno} {cls.name}'
        st = State()
        self.V = {n: Sym(n, None, 'val') for n in 'abcd'}
        for v in self.V.values():
            st.kinds[v] = frozenset(('type',))
            st = [s for s, b in self.I.fact(st, Term('isinstance', v, ExtV('collections.abc.Iterable'))) if not b][0]
        # a value that is equal to another one without being the same object
        self.V['e'] = Sym('e', None, 'twin')
        st.kinds[self.V['e']] = frozenset(('type',))
        for n, v in self.V.items():
            if n != 'e':
                for f in (lambda x: x, lambda x: Term('hash', x), lambda x: Term('str', x)):
                    st.facts[self.I.eqterm(f(v), f(self.V['e']))] = n == 'a'
        st.facts[Term('isinstance', self.V['e'], ExtV('collections.abc.Iterable'))] = False
        self.start = [(s, r) for s, r in self.I.run(ClassV(cls), st=st) if not isinstance(r, Raise)]

    def report(self, rule, ok, hist, what, st=None, r=None):
        where = self.where
        if isinstance(r, Raise):
            where = st.obj(r.exc).origin or where
        self.c.ob(rule, ok, where, f'{"; ".join(hist)}: {what}')

    def rel(self, st, names):
        if not names:
            return NONE
        if len(names) == 1 and self.single:
            return self.V[min(names)]
        return st.new(Lst(tuple(one(self.V[n]) for n in sorted(names)), 'list'))

    single = True

    def ordered(self, st, ref):
        out = []
        for s, cells in self.w.listed(ref, st):
            self.sc.outcomes.append(Outcome(s, NONE))
            if s.taint or isinstance(cells, Raise):
                continue
            out.append((s, [self.name(x[1]) for x in cells]))
        return out

    @staticmethod
    def name(v):
        return getattr(v, 'name', str(v)).replace('e', 'a')

    def check(self, st, ref, entries, hist, before=None):
        """-> [(state, order)] after comparing the order with the statements (or with the order before)."""
        out = self.ordered(st, ref)
        for s, got in out:
            if before is not None:
                self.report('atomic', got == before, hist, f'the order changes from {before} to {got} although this was refused')
                continue
            self.report('once', sorted(got) == sorted(entries), hist, f'iterating gives {got}')
            if sorted(got) != sorted(entries):
                continue
            at = {n: i for i, n in enumerate(got)}
            rel = edges_of(entries)
            bad = [f'{a} over {b}' for a, b in sorted(rel) if at[a] > at[b]]
            self.report('relations', not bad, hist, f'the order {got} ignores {", ".join(bad)}')
            prio = {(a, b) for a in entries for b in entries if entries[a].prio > entries[b].prio}
            if not cyclic(entries, rel | prio):
                bad = [f'the priority of {a} over {b}' for a, b in sorted(prio) if at[a] > at[b]]
                self.report('priority', not bad, hist, f'the order {got} ignores {", ".join(bad)}')
            if not rel:
                names = list(entries)
                bad = [f'{b} before {a}' for i, a in enumerate(names) for b in names[i + 1:] if entries[a].prio == entries[b].prio and at[b] > at[a]]
                self.report('newest', not bad, hist, f'the order {got} does not have {", ".join(bad)}')
            for s2, n in self.w.meth(ref, '__len__', st=s.fork()):
                if not s2.taint:
                    self.report('once', n == Const(len(entries)), hist, f'the length is {exc(s2, n) or n}', s2, n)
        return out

    def add(self, st, ref, order, entries, name, e, hist, replace=False, alias=None):
        """-> [(state, order, entries, hist)]"""
        out = []
        hist = hist + (f'{"replace" if replace else "add"} {name} {e}',)
        new = dict(entries)
        exists = name in new
        new.pop(name, None)
        new[name] = e
        fails = exists and not replace or cyclic(new, edges_of(new)) or bool(e.lower & e.higher)
        kw = dict(priority=Const(e.prio), lower_priority=self.rel(st, e.lower), higher_priority=self.rel(st, e.higher), replace=mk(replace))
        for s, r in self.w.meth(ref, 'add', self.V[alias or name], st=st, **kw):
            self.sc.outcomes.append(Outcome(s, r))
            if s.taint:
                continue
            s.events = ()
            raised = isinstance(r, Raise)
            if raised:
                self.report('relations' if not exists or replace else 'existing', fails, hist, f'{exc(s, r)} although nothing contradicts this', s, r)
                self.report('relations', exc(s, r) == 'builtins.ValueError', hist, f'{exc(s, r)} is raised', s, r)
                for s2, got in self.check(s, ref, entries, hist, before=order):
                    out.append((s2, got, entries, hist))
                continue
            if exists and not replace:
                self.report('existing', False, hist, 'an existing value was added again without asking for replacement')
                continue
            if fails:
                self.report('relations', False, hist, 'contradicting relations are accepted')
                continue
            self.report('once', r == self.V[alias or name], hist, f'the answer is {r}')
            for s2, got in self.check(s, ref, new, hist):
                out.append((s2, got, new, hist))
        return out

    def remove(self, st, ref, order, entries, index, hist):
        n = len(order)
        gone = order[index] if isinstance(index, slice) else [order[index]]
        arg = SliceV(*[Const(x) for x in (index.start, index.stop, index.step)]) if isinstance(index, slice) else Const(index)
        hist = hist + (f'delete {gone}',)
        new = {k: v for k, v in entries.items() if k not in gone}
        out = []
        for s, r in self.w.meth(ref, '__delitem__', arg, st=st):
            self.sc.outcomes.append(Outcome(s, r))
            if s.taint:
                continue
            s.events = ()
            self.report('once', not isinstance(r, Raise), hist, f'deleting raises {exc(s, r)}', s, r)
            if not isinstance(r, Raise):
                for s2, got in self.check(s, ref, new, hist):
                    out.append((s2, got, new, hist))
        return out

    def part(self, st, ref, order, index, hist):
        """A slice is an order of its own."""
        want = order[index]
        arg = SliceV(*[Const(x) for x in (index.start, index.stop, index.step)])
        hist = hist + (f'take {want}',)
        for s, r in self.w.meth(ref, '__getitem__', arg, st=st):
            self.sc.outcomes.append(Outcome(s, r))
            if s.taint:
                continue
            self.report('parts', not isinstance(r, Raise), hist, f'slicing raises {exc(s, r)}', s, r)
            if isinstance(r, Const):
                self.report('parts', False, hist, f'the slice is {r}')
            if isinstance(r, (Raise, Const)):
                continue
            for s2, got in self.ordered(s, r):
                self.report('parts', got == want, hist, f'the slice holds {got}')
                if got != want or not isinstance(r, Ref):
                    continue
                for how, args in (('add', (self.V['d'],)), ('__delitem__', (Const(0),))):
                    for s3, r3 in self.w.meth(r, how, *args, st=s2.fork()):
                        if s3.taint or isinstance(r3, Raise):
                            continue
                        s3.events = ()
                        for s4, now in self.ordered(s3, ref):
                            self.report('parts', now == order, hist, f'changing the slice ({how}) changes the order itself to {now}')

    def later(self, st, ref, order, entries, name, e, hist):
        """add() without a value is a decorator."""
        hist = hist + (f'@add {e} on {name}',)
        new = dict(entries)
        new[name] = e
        kw = dict(priority=Const(e.prio), lower_priority=self.rel(st, e.lower), higher_priority=self.rel(st, e.higher))
        for s, f in self.w.meth(ref, 'add', st=st, **kw):
            if s.taint:
                continue
            self.report('once', not isinstance(f, Raise), hist, f'add() raises {exc(s, f)}', s, f)
            if isinstance(f, Raise):
                continue
            for s2, got in self.ordered(s.fork(), ref):
                self.report('once', got == order, hist, f'the order is {got} before the decorator is applied')
            for s2, r in self.I.call(f, [one(self.V[name])], [], s, Frame(None, None, self.c.p.modules[self.c.p.PKG]), None):
                self.sc.outcomes.append(Outcome(s2, r))
                if s2.taint:
                    continue
                s2.events = ()
                self.report('once', r == self.V[name], hist, f'the decorator gives {r}', s2, r)
                if r == self.V[name]:
                    self.check(s2, ref, new, hist)

    def build(self, spec):
        states = [(s, ref, [], {}, ()) for s, ref in [(s.fork(), r) for s, r in self.start]]
        for name, e in spec:
            nxt = []
            for s, ref, order, entries, hist in states:
                nxt += [(s2, ref, o2, e2, h2) for s2, o2, e2, h2 in self.add(s.fork(), ref, order, entries, name, e, hist)]
            states = nxt
        return states


class TextOrder(Order):
    """The values are texts made of the others' characters."""
    texts = {'a': 'bc', 'b': 'b', 'c': 'c'}

    def __init__(self, c, cls, scene, encode=lambda x: x):
        super().__init__(c, cls, scene)
        self.texts = {k: encode(v) for k, v in self.texts.items()}
        self.V = {k: Const(v) for k, v in self.texts.items()}

    def name(self, v):
        return next((k for k, x in self.V.items() if x == v), str(v))


def weak_orders(n):
    """Priorities of n values, one per weak ordering."""
    return sorted({tuple(sorted(set(p)).index(x) for x in p) for p in itertools.product(range(n), repeat=n)})


def relation_sets(names, k):
    single = [(a, b, how) for a in names for b in names if a != b for how in ('lower', 'higher')]
    for r in range(k + 1):
        yield from itertools.combinations(single, r)


def spec_of(names, prios, rels):
    return [(n, Entry(p, [b for a, b, how in rels if a == n and how == 'lower'], [b for a, b, how in rels if a == n and how == 'higher'])) for n, p in zip(names, prios)]


def c32(c):
    c.rule('once', 'Iteration gives every value that was added (and not deleted) exactly once, and the length agrees.')
    c.rule('priority', 'Where priorities and stated relations do not contradict one another, a value of higher priority comes first.')
    c.rule('relations', 'Every stated relation to another present value is respected, directly or through others, whatever order they were added in; relations that contradict are a ValueError, others are not.')
    c.rule('newest', 'Without relations, of two values of the same priority the one added last comes first.')
    c.rule('existing', 'Adding an existing value is refused unless replacement was asked for.')
    c.rule('parts', 'A slice holds the values at those positions in their order, and changing the slice leaves the order it was taken from alone.')
    c.rule('atomic', 'After a refused addition or replacement the order is what it was before.')
    c.explain('PriorityOrder on up to four unknown distinct values: for three values all weak orderings of priorities times all sets of up to two relations, '
              'for four values of equal priority all relation sets of up to three that form a chain or a circle, each followed by repeated additions, deletions and replacements.')
    cls = c.p.get_class(U_ + 'PriorityOrder')
    o = Order(c, cls, 'three values')

    def three():
        for rels in relation_sets('abc', 2):
            for prios in weak_orders(3):
                o.build(spec_of('abc', [p - 1 for p in prios], rels))
    guard(o.sc, three)
    c.use(o.sc)
    o = Order(c, cls, 'three values, then changes')
    o.single = False

    def then():
        for rels in relation_sets('abc', 1):
            for prios in ((0, 0, 0), (0, 1, 2), (2, 1, 0)):
                for s, ref, order, entries, hist in o.build(spec_of('abc', prios, rels)):
                    if len(entries) < 3:
                        continue
                    for ix in (slice(0, 2, None), slice(None, None, 2), slice(None, None, None), slice(1, None, None), slice(-1, None, None)):
                        o.part(s.fork(), ref, order, ix, hist)
                    for e in (Entry(0), Entry(1), Entry(-1, 'b'), Entry(0, (), 'a')):
                        o.later(s.fork(), ref, order, entries, 'd', e, hist)
                    o.add(s.fork(), ref, order, entries, 'b', Entry(1), hist)
                    o.add(s.fork(), ref, order, entries, 'a', Entry(1), hist, alias='e')
                    o.add(s.fork(), ref, order, entries, 'a', Entry(1), hist, alias='e', replace=True)
                    for n, e in (('a', Entry(5)), ('b', Entry(-1)), ('b', Entry(0, 'c')), ('c', Entry(0, (), 'ab')), ('a', Entry(0, 'b', 'b'))):
                        o.add(s.fork(), ref, order, entries, n, e, hist, replace=True)
                    for ix in (0, 1, -1, slice(0, 2, None), slice(None, None, 2), slice(None, None, None)):
                        for s2, got, e2, h2 in o.remove(s.fork(), ref, order, entries, ix, hist):
                            if ix == 1:
                                o.add(s2.fork(), ref, got, e2, order[1], Entry(0), h2)
    guard(o.sc, then)
    c.use(o.sc)
    o = Order(c, cls, 'four values')

    def four():
        for p in itertools.permutations('abcd'):
            chain = [(p[0], p[1]), (p[1], p[2]), (p[2], p[3])]
            for hows in itertools.product('lh', repeat=3):
                rels = [(x, y, 'lower') if h == 'l' else (y, x, 'higher') for (x, y), h in zip(chain, hows)]
                o.build(spec_of('abcd', (0, 0, 0, 0), rels))
            o.build(spec_of('abcd', (0, 1, 0, 1), [(x, y, 'lower') for x, y in chain[:2]]))
            o.build(spec_of('abcd', (0, 0, 0, 0), [(x, y, 'lower') for x, y in chain] + [(p[3], p[0], 'lower')]))
    guard(o.sc, four)
    c.use(o.sc)
    for what, encode in (('texts', lambda x: x), ('bytes', lambda x: x.encode())):
        o = TextOrder(c, cls, f'three {what}', encode)

        def texts():
            for o.single in (True, False):
                for rels in relation_sets('abc', 2):
                    for prios in ((0, 0, 0), (2, 1, 0), (0, 1, 2)):
                        o.build(spec_of('abc', prios, rels))
        guard(o.sc, texts)
        c.use(o.sc)


CHECKS = {'C34': c34, 'C33': c33, 'C32': c32}
