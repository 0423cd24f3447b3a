"""Abstract values, heap objects and abstract states."""
from dataclasses import dataclass, field, replace
from typing import Any, Optional

KINDS = ('none', 'missing', 'bool', 'int', 'float', 'str', 'bytes',
         'mapping', 'sequence', 'type', 'other')
ALL_KINDS = frozenset(KINDS)
MISSING_TEXT = '???'


class Const:
    __slots__ = ('v', '_k', '_h')

    def __init__(self, v):
        self.v = v
        self._k = (type(v).__name__, repr(v) if isinstance(v, float) else v)
        self._h = hash(('C', self._k))

    def __eq__(self, o):
        return isinstance(o, Const) and self._k == o._k

    def __hash__(self):
        return self._h

    def __repr__(self):
        return repr(self.v)


class _T:
    """Hash-consed style immutable node with cached hash."""
    __slots__ = ('a', '_h')

    def __init__(self, *a):
        self.a = a
        self._h = hash((type(self).__name__,) + a)

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self._h == o._h and self.a == o.a)

    def __hash__(self):
        return self._h


class Sym(_T):
    """Opaque atom. sid: the collection cell it is the generic member of.
    group: atoms of one group are pairwise different values."""
    __slots__ = ()

    def __init__(self, name, sid=None, group=None):
        super().__init__(name, sid, group)

    name = property(lambda s: s.a[0])
    sid = property(lambda s: s.a[1])
    group = property(lambda s: s.a[2])

    def __repr__(self):
        return self.a[0] + ('*' if self.a[1] else '')


class Term(_T):
    __slots__ = ()

    def __init__(self, op, *args):
        super().__init__(op, args)

    op = property(lambda s: s.a[0])
    args = property(lambda s: s.a[1])

    def __repr__(self):
        if self.op == 'attr':
            return f'{self.args[0]}.{self.args[1]}'
        return f'{self.op}({", ".join(map(repr, self.args))})'


class Ref(_T):
    __slots__ = ()

    def __init__(self, id):
        super().__init__(id)

    id = property(lambda s: s.a[0])

    def __repr__(self):
        return f'#{self.a[0]}'


class Tup(_T):
    """Immutable tuple (or frozenset/str-join source); cells as in lists."""
    __slots__ = ()

    def __init__(self, cells, kind='tuple'):
        super().__init__(tuple(cells), kind)

    cells = property(lambda s: s.a[0])
    kind = property(lambda s: s.a[1])

    def __repr__(self):
        return f'({", ".join(map(cell_repr, self.cells))})'


class Aff(_T):
    """Affine combination of non-negative parameters: sum coef*param + c."""
    __slots__ = ()

    def __init__(self, coefs, c):
        super().__init__(tuple(sorted((k, v) for k, v in dict(coefs).items() if v)), c)

    coefs = property(lambda s: dict(s.a[0]))
    c = property(lambda s: s.a[1])

    def __repr__(self):
        return '+'.join([f'{v}{k}' for k, v in self.a[0]] + [str(self.c)])


class FuncV(_T):
    __slots__ = ()

    def __init__(self, info, fid=None, defaults=None):
        super().__init__(info, fid, defaults)

    info = property(lambda s: s.a[0])
    fid = property(lambda s: s.a[1])
    defaults = property(lambda s: s.a[2])

    def __repr__(self):
        return f'<{self.info.full}>'


class BoundV(_T):
    __slots__ = ()

    def __init__(self, func, self_):
        super().__init__(func, self_)

    func = property(lambda s: s.a[0])
    self_ = property(lambda s: s.a[1])

    def __repr__(self):
        return f'{self.a[1]}.{self.a[0]}'


class ClassV(_T):
    __slots__ = ()

    def __init__(self, info):
        super().__init__(info)

    info = property(lambda s: s.a[0])

    def __repr__(self):
        return self.a[0].full


class ModV(_T):
    __slots__ = ()
    name = property(lambda s: s.a[0])

    def __repr__(self):
        return f'<module {self.a[0]}>'


class ExtV(_T):
    __slots__ = ()
    name = property(lambda s: s.a[0])

    def __repr__(self):
        return self.a[0]


class ExtBound(_T):
    """Method of a builtin container or of an opaque value."""
    __slots__ = ()

    def __init__(self, recv, name):
        super().__init__(recv, name)

    recv = property(lambda s: s.a[0])
    name = property(lambda s: s.a[1])

    def __repr__(self):
        return f'{self.a[0]}.{self.a[1]}'


class PartialV(_T):
    __slots__ = ()

    def __init__(self, func, pos, kw):
        super().__init__(func, tuple(pos), tuple(kw))


class SuperV(_T):
    __slots__ = ()

    def __init__(self, cls, self_):
        super().__init__(cls, self_)


class LazyV(_T):
    """map/filter/zip/enumerate/reversed/dict views: lazily iterated."""
    __slots__ = ()

    def __init__(self, op, *args):
        super().__init__(op, args)

    op = property(lambda s: s.a[0])
    args = property(lambda s: s.a[1])

    def __repr__(self):
        return f'{self.op}{self.args}'


class GenExprV(_T):
    __slots__ = ()

    def __init__(self, node, fid, func):
        super().__init__(id(node), fid, func)
        _NODES[id(node)] = node

    node = property(lambda s: _NODES[s.a[0]])
    fid = property(lambda s: s.a[1])
    func = property(lambda s: s.a[2])

    def __repr__(self):
        return '<genexpr>'


_NODES = {}


class SliceV(_T):
    __slots__ = ()

    def __repr__(self):
        return f'slice{self.a}'


# ---------------------------------------------------------------- heap
@dataclass(frozen=True)
class Lst:
    cells: tuple
    kind: str = 'list'
    owner: str = 'fresh'
    sym: Any = None


@dataclass(frozen=True)
class Dct:
    cells: tuple
    kind: str = 'dict'
    owner: str = 'fresh'
    sym: Any = None


@dataclass(frozen=True)
class Inst:
    cls: Any                    # ClassInfo or dotted name of an external class
    attrs: tuple = ()           # ((name, value), ...)
    exact: bool = True
    owner: str = 'fresh'
    origin: str = ''

    def get(self, name, default=None):
        for k, v in self.attrs:
            if k == name:
                return v
        return default

    def has(self, name):
        return any(k == name for k, _ in self.attrs)

    def set(self, name, value):
        if self.has(name):
            a = tuple((k, value if k == name else v) for k, v in self.attrs)
        else:
            a = self.attrs + ((name, value),)
        return replace(self, attrs=a)

    def drop(self, name):
        return replace(self, attrs=tuple((k, v) for k, v in self.attrs if k != name))


@dataclass(frozen=True)
class GenObj:
    info: Any
    fid: int
    cm: bool = False


def one(v):
    return ('1', v)


def star(sid, *vs):
    return ('*', sid, tuple(vs))


def kv(k, v):
    return ('1', k, v)


def kvstar(sid, *pairs):
    return ('*', sid, tuple(pairs))


def cell_repr(c):
    if c[0] == '1':
        return repr(c[1]) if len(c) == 2 else f'{c[1]!r}: {c[2]!r}'
    return f'*{c[1]}{list(c[2])}'


def add_star(cells, cell):
    """Append a star cell, merging with an adjacent star of the same loop."""
    if cells and cells[-1][0] == '*' and cells[-1][1] == cell[1]:
        last = cells[-1]
        vals = last[2] + tuple(v for v in cell[2] if v not in last[2])
        return cells[:-1] + (('*', cell[1], vals),)
    return cells + (cell,)


class State:
    __slots__ = ('heap', 'frames', 'parents', 'facts', 'kinds', 'content',
                 'events', 'card', 'consumed', 'leftover', 'globals',
                 'excs', 'pending', 'taint', 'active', 'trace', 'num', 'nid', 'data')

    def __init__(self):
        self.heap, self.frames, self.parents = {}, {}, {}
        self.facts, self.kinds, self.content = {}, {}, {}
        self.events = ()
        self.card = {}
        self.consumed, self.leftover = frozenset(), frozenset()
        self.globals = {}
        self.excs = ()
        self.pending = ()
        self.taint = ()
        self.active = ()
        self.trace = ()
        self.num = {}
        self.nid = 0
        self.data = {}

    def fork(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.parents = dict(self.parents)
        s.facts, s.kinds, s.content = dict(self.facts), dict(self.kinds), dict(self.content)
        s.events, s.card = self.events, dict(self.card)
        s.consumed, s.leftover = self.consumed, self.leftover
        s.globals = dict(self.globals)
        s.excs, s.pending, s.taint = self.excs, self.pending, self.taint
        s.active, s.trace, s.num, s.nid = self.active, self.trace, dict(self.num), self.nid
        s.data = dict(self.data)
        return s

    def new(self, obj):
        self.nid += 1
        self.heap[self.nid] = obj
        return Ref(self.nid)

    def obj(self, ref):
        return self.heap[ref.id]

    def put(self, ref, obj):
        self.heap[ref.id] = obj

    def event(self, *ev):
        self.events = self.events + (ev,)

    def blur(self, why):
        if why not in self.taint:
            self.taint = self.taint + (why,)


def mentions(v, sid, st, seen=None):
    if isinstance(v, Sym):
        return v.sid == sid
    if isinstance(v, Ref):
        seen = seen if seen is not None else set()
        if v.id in seen:
            return False
        seen.add(v.id)
        o = st.heap.get(v.id)
        if isinstance(o, (Lst, Dct)):
            return any(mentions(x, sid, st, seen) for c in o.cells for x in c[1:])
        if isinstance(o, Inst):
            return any(mentions(x, sid, st, seen) for _, x in o.attrs)
        return False
    if isinstance(v, _T):
        return any(mentions(x, sid, st, seen) for x in v.a)
    if isinstance(v, tuple):
        return any(mentions(x, sid, st, seen) for x in v)
    return False


def canon(st, fr, extra=()):
    """Structural key of a state: heap references are numbered in visiting order."""
    num, fnum = {}, {}

    def key(v):
        if isinstance(v, Ref):
            if v.id in num:
                return ('r', num[v.id])
            num[v.id] = len(num)
            o = st.heap.get(v.id)
            n = num[v.id]
            if isinstance(o, (Lst, Dct)):
                return ('R', n, type(o).__name__, o.kind, o.owner, key(o.sym), tuple(key(c) for c in o.cells))
            if isinstance(o, Inst):
                return ('R', n, 'I', id(o.cls) if not isinstance(o.cls, str) else o.cls, o.exact, tuple((k, key(x)) for k, x in sorted(o.attrs, key=lambda kv: kv[0])))
            if isinstance(o, GenObj):
                return ('R', n, 'G', id(o.info), frame(o.fid))
            return ('R', n, 'x')
        if isinstance(v, FuncV):
            return ('F', id(v.info), frame(v.fid), key(v.defaults))
        if isinstance(v, GenExprV):
            return ('GE', v.a[0], frame(v.fid))
        if isinstance(v, (Sym, Const)):
            return v
        if isinstance(v, _T):
            return (type(v).__name__,) + tuple(key(x) for x in v.a)
        if isinstance(v, tuple):
            return tuple(key(x) for x in v)
        if isinstance(v, frozenset):
            return ('fs',) + tuple(key(x) for x in sorted(v, key=repr))
        if isinstance(v, (str, int, bool, type(None))):
            return v
        return id(v)

    def frame(fid):
        if fid is None:
            return None
        if fid in fnum:
            return ('f', fnum[fid])
        fnum[fid] = len(fnum)
        env = st.frames.get(fid)
        if env is None:
            return ('f', fnum[fid], 'dead')
        return ('f', fnum[fid], tuple((k, key(env[k])) for k in sorted(env)), frame(st.parents.get(fid)))

    out = []
    f = fr
    while f is not None:
        out.append(frame(f.fid))
        f = f.caller
    out.append(tuple(key(x) for x in extra))
    out.append(tuple(key(e) for e in st.events))
    out.append(key(st.excs))
    out.append(key(st.pending))
    out.append(frozenset((key(k), v) for k, v in st.facts.items()))
    out.append(frozenset((key(k), v) for k, v in st.kinds.items()))
    out.append(frozenset((key(k), v) for k, v in st.num.items()))
    out.append(tuple(sorted((repr(k), key(v)) for k, v in st.content.items())))
    out.append(frozenset(st.card.items()))
    out.append(tuple(sorted((repr(k), key(v)) for k, v in st.globals.items())))
    out.append(frozenset((num.get(r, -1), s) for r, s in st.leftover))
    out.append(tuple(sorted(((repr(k), key(v)) for k, v in st.data.items()
                             if not (isinstance(k, tuple) and k[0] == 'gen-used')), key=repr)))
    out.append(bool(st.taint))
    return tuple(out)
