"""Path-partitioned abstract interpreter over the syntax trees of the package.

Loops are run to a fixpoint over summarised container cells; there is no
concrete execution and no solver.  Everything the interpreter does not
understand makes the path "tainted": rules never report from tainted paths.
"""
import ast
import builtins
import string
import sys
import time
from .program import ClassInfo, FuncInfo, Module, ext_mro, AnalysisBroken
from .values import *
from . import text

sys.setrecursionlimit(20000)


# what these return follows from their arguments: without a model nothing may be concluded
STRUCTURAL = {'itertools', 'functools', 'operator', 'collections', 'contextlib', 'copy', 'heapq', 'bisect', 'weakref'}
UNMODELLED = {'builtins.' + x for x in 'sorted min max sum vars dir locals globals eval exec divmod aiter anext setattr delattr getattr hasattr callable isinstance issubclass len range enumerate zip map filter iter reversed list tuple set frozenset dict any all next'.split()}
OPERATORS = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'BitOr': 'or', 'BitAnd': 'and', 'BitXor': 'xor', 'Mod': 'mod', 'Div': 'truediv',
             'FloorDiv': 'floordiv', 'Pow': 'pow', 'LShift': 'lshift', 'RShift': 'rshift', 'MatMult': 'matmul'}
SOURCE = 'marshlint.source'     # an iterator with its own position


class Endless(Exception):
    """A loop that repeats its state or outruns the text it reads."""


class Budget(Exception):
    pass


EXT_CONSTS = {'os.curdir': Const('.'), 'os.pardir': Const('..'), 'os.sep': Const('/'), 'os.path.sep': Const('/'), 'os.extsep': Const('.'), 'os.linesep': Const('\n'),
              'os.path.curdir': Const('.'), 'os.path.extsep': Const('.'), 'sys.maxsize': Const(2 ** 63 - 1)}
EXT_CONSTS.update({f'string.{n}': Const(getattr(string, n)) for n in ('whitespace', 'digits', 'ascii_letters', 'ascii_lowercase', 'ascii_uppercase', 'punctuation', 'hexdigits', 'octdigits', 'printable')})


class Raise:
    __slots__ = ('exc',)

    def __init__(self, exc):
        self.exc = exc


NONE, TRUE, FALSE = Const(None), Const(True), Const(False)


class Frame:
    __slots__ = ('fid', 'func', 'module', 'caller', 'yield_handler', 'depth', 'self_', 'args')

    def __init__(self, fid, func, module, caller=None, yield_handler=None):
        self.fid, self.func, self.module, self.caller = fid, func, module, caller
        self.yield_handler = yield_handler
        self.depth = 0 if caller is None else caller.depth + 1
        self.self_ = None
        self.args = None


def mk(b):
    return TRUE if b else FALSE


BUILTIN_FUNCS = {n for n in dir(builtins)}


EXACT_KINDS = {'builtins.int': {'int'}, 'builtins.bool': {'bool'}, 'builtins.float': {'float'}, 'builtins.str': {'str', 'missing'}, 'builtins.bytes': {'bytes'},
               'builtins.dict': {'mapping'}, 'builtins.list': {'sequence'}, 'builtins.tuple': {'sequence'}, 'builtins.type': {'type'}, 'types.NoneType': {'none'}}


def unordered(cells):
    """The items of a set in an order that has nothing to do with how it was made."""
    if len(cells) < 2 or any(c[0] != '1' for c in cells):
        return cells
    if all(isinstance(c[1], Const) and isinstance(c[1].v, int) for c in cells):
        return tuple(sorted(cells, key=lambda c: c[1].v))
    return tuple(sorted(cells, key=repr, reverse=True))


class Interp:
    host = False
    MAX_DEPTH = 40

    def __init__(self, program, models=None, budget=20.0, max_steps=400000):
        self.p = program
        self.models = {}            # dotted name -> handler(I, pos, kw, st, fr, node)
        self.ext_models = {}
        self.method_models = {}     # (op or '*', method) -> handler
        self.attr_hook = None
        self.call_hook = None       # opaque callee hook
        self.sub_hook = None
        self.cmp_hook = None
        self.budget = budget
        self.max_steps = max_steps
        self.steps = 0
        self.t0 = None
        self.visited = set()        # functions analysed
        self.sites = set()          # call sites seen
        self.uid = 0
        self.loop_cap = 160
        self.while_limit = None     # rounds after which a loop over known input counts as endless
        self.plain_text = False     # ordinary characters are no part of a number or a keyword
        self.no_inline = set()
        self.default_items = 0      # distinguished items of an unknown collection
        self.rec_limit = 1
        self.endless = False            # are functions of constants free of state?
        self.nan_self = False
        self.may_unhash = None      # which values of unknown type may have no hash
        self.hash_check = False     # hashing a container raises
        self.injective = frozenset()
        self.unroll = 3         # rounds of a while loop before its state is generalised
        from . import models as m
        m.install(self)
        if models:
            self.models.update(models)

    # ------------------------------------------------------------ plumbing
    def tick(self):
        self.steps += 1
        if self.t0 is None:
            self.t0 = time.time()
        if self.steps > self.max_steps or (self.steps & 255 == 0 and time.time() - self.t0 > self.budget):
            raise Budget()

    def fresh(self, name='t', sid=None):
        self.uid += 1
        return Sym(f'{name}${self.uid}', sid)

    def raise_new(self, st, cls, node=None, fr=None, msg=None, exact=True):
        """Create an exception object of class cls (ClassInfo or dotted)."""
        attrs = ()
        if msg is not None:
            attrs = (('args', Tup([one(msg)])),)
        origin = self.loc(node, fr)
        return Raise(st.new(Inst(cls, attrs, exact, 'fresh', origin)))

    def loc(self, node, fr):
        if fr is None:
            return '?'
        fn = fr.func.qualname if fr.func else '<module>'
        return f'{fr.module.rel}:{getattr(node, "lineno", 0)} ({fn})'

    def bind(self, results, fn):
        """Continue every normal result with fn(st, value)."""
        out = []
        for st, v in results:
            if isinstance(v, Raise):
                out.append((st, v))
            else:
                out.extend(fn(st, v))
        return out

    # ------------------------------------------------------------ kinds
    def kinds(self, v, st):
        if isinstance(v, Const):
            x = v.v
            if x is None:
                return frozenset(('none',))
            if isinstance(x, bool):
                return frozenset(('bool',))
            if isinstance(x, int):
                return frozenset(('int',))
            if isinstance(x, float):
                return frozenset(('float',))
            if isinstance(x, str):
                return frozenset(('missing',)) if x == MISSING_TEXT else frozenset(('str',))
            if isinstance(x, bytes):
                return frozenset(('bytes',))
            return frozenset(('other',))
        if isinstance(v, Aff):
            return frozenset(('int',))
        if text.is_text(v):
            return frozenset(('str',))
        if isinstance(v, Tup):
            return frozenset(('sequence',)) if v.kind == 'tuple' else frozenset(('other',))
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, Lst):
                return frozenset(('sequence',)) if o.kind in ('list', 'deque') else frozenset(('other',))
            if isinstance(o, Dct):
                return frozenset(('mapping',))
            if isinstance(o, Inst):
                if isinstance(o.cls, ClassInfo):
                    m = self.p.mro(o.cls)
                    if 'typing.NamedTuple' in m:
                        return frozenset(('sequence',))
                    if any(isinstance(c, str) and c in ('builtins.list', 'typing.List', 'collections.deque') for c in m):
                        return frozenset(('sequence',))
                    if any(isinstance(c, str) and c in ('builtins.dict', 'typing.Dict', 'collections.OrderedDict', 'typing.MutableMapping', 'typing.Mapping') for c in m):
                        return frozenset(('mapping',))
                return frozenset(('other',))
            return frozenset(('other',))
        if isinstance(v, (ClassV,)):
            return frozenset(('type',))
        if isinstance(v, ExtV):
            k = st.kinds.get(v)
            if k:
                return k
            n = v.name
            if n in ('types.NoneType', 'builtins.NoneType'):
                return frozenset(('type',))
            if n.startswith('builtins.') and isinstance(getattr(builtins, n[9:], None), type):
                return frozenset(('type',))
            return frozenset(('type', 'other'))
        if isinstance(v, (FuncV, BoundV, ModV, PartialV, SuperV, LazyV, GenExprV, SliceV, ExtBound)):
            return frozenset(('other',))
        k = st.kinds.get(v)
        if k is not None:
            return k
        if isinstance(v, Term):
            if v.op in ('fstr', 'fmt', 'str', 'join', 'typename', 'repr', 'sformat', 'strmeth'):
                return frozenset(('str',))
            if v.op in ('int', 'len', 'idx', 'floor'):
                return frozenset(('int',))
            if v.op in ('float',):
                return frozenset(('float',))
            if v.op in ('bool', 'not', 'eq', 'lt', 'le', 'isinstance', 'issubclass', 'in', 'truth', 'and', 'or', 'hasattr', 'is'):
                return frozenset(('bool',))
            if v.op in ('schema', 'mschema'):
                return frozenset(('other',))
        if isinstance(v, Sym) and v.name.startswith("item(split('"):
            return frozenset(('str', 'missing'))
        return ALL_KINDS

    def narrow(self, st, v, keep):
        """Restrict the kinds of an opaque value; False if impossible."""
        k = self.kinds(v, st) & keep
        if not k:
            return False
        if isinstance(v, (Sym, Term, ExtV)):
            st.kinds[v] = k
        return True

    def split_kinds(self, st, v, yes, maybe=frozenset()):
        """Fork on 'kind of v in yes'; kinds in maybe go both ways.
        -> list of (state, bool)"""
        k = self.kinds(v, st)
        a = k & (yes | maybe)
        b = k - yes
        out = []
        if a and b:
            s2 = st.fork()
            self.narrow(st, v, a)
            self.narrow(s2, v, b)
            return [(st, True), (s2, False)]
        return [(st, bool(a))]

    def fact(self, st, t):
        """Fork on an uninterpreted boolean term -> [(st, bool)]"""
        if t in st.facts:
            return [(st, st.facts[t])]
        s2 = st.fork()
        st.facts[t] = True
        s2.facts[t] = False
        return [(st, True), (s2, False)]

    # ------------------------------------------------------------ truth
    def truth(self, v, st):
        """-> [(st, bool)]"""
        if isinstance(v, Const):
            return [(st, bool(v.v))]
        if isinstance(v, Aff):
            return self.aff_cmp(st, v, 0, 'ne')
        if text.is_char(v):
            return [(st, True)]
        if isinstance(v, Tup):
            return self.nonempty(st, v.cells)
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, (Lst, Dct)):
                return self.nonempty_left(st, v, o)
            if isinstance(o, Inst) and isinstance(o.cls, ClassInfo):
                for nm in ('__bool__', '__len__'):
                    f = self.p.find_member(o.cls, nm)
                    if f and f[1][0] == 'func':
                        if st.data.get('inst_truthy'):
                            return [(st, True)]
                        return self.run_truth(v, f[1][1], st)
                if 'typing.NamedTuple' in self.p.mro(o.cls):
                    return [(st, bool(o.attrs))]
            return [(st, True)]
        if isinstance(v, (FuncV, BoundV, ClassV, ModV, PartialV, ExtV, ExtBound, GenExprV)):
            return [(st, True)]
        if isinstance(v, LazyV):
            if v.op in ('keys', 'values', 'items'):
                return self.truth(v.args[0], st)
            if v.op == 'range':
                c = self.range_cells(v, st)
                if c is not None:
                    return self.nonempty(st, c)
            return [(st, True)]
        if v in st.num:
            r = st.num[v]
            return [(st, r != 'zero')]
        if isinstance(v, Term) and v.op == 'len':
            return self.truth_len(v, st)
        if v in st.content:
            o = st.heap[st.content[v].id]
            return self.nonempty(st, o.cells)
        if isinstance(v, Term) and v.op == 'str' and self.kinds(v.args[0], st) <= frozenset(('none', 'bool', 'int', 'float', 'type')):
            return [(st, True)]
        k = self.kinds(v, st)
        if k == frozenset(('none',)):
            return [(st, False)]
        if k <= frozenset(('missing', 'type')) or isinstance(v, Term) and self.surely_text(v, st):
            return [(st, True)]
        out = []
        if 'none' in k:
            # null is false; anything else has its own truth value
            if isinstance(v, (Sym, Term)) and len(k) > 1:
                t = Term('truth', v)
                if t in st.facts:
                    return [(st, st.facts[t])]
                s1 = st.fork()
                s1.kinds[v] = k - {'none'}
                s1.facts[t] = True
                st.facts[t] = False
                return [(s1, True), (st, False)]
        return self.fact(st, self.boolterm(v))

    def boolterm(self, v):
        if isinstance(v, Term) and v.op in ('bool', 'isinstance', 'issubclass', 'eq', 'lt', 'le', 'in', 'hasattr', 'is', 'strmeth', 'call', 'not'):
            if v.op == 'bool':
                return self.boolterm(v.args[0])
            return v
        return Term('truth', v)

    def run_truth(self, v, f, st):
        out = []
        for s, r in self.call(FuncV(f), [one(v)], [], st, Frame(None, None, f.module), None):
            if isinstance(r, Raise):
                s.blur('truth test that raises')
                out.append((s, True))
            else:
                out.extend(self.truth(r, s))
        return out

    def surely_text(self, v, st):
        """Is this a text with at least one character?"""
        if isinstance(v, Const):
            return isinstance(v.v, str) and v.v != ''
        if not isinstance(v, Term):
            return False
        if st.facts.get(Term('truth', v)) and self.kinds(v, st) <= {'str', 'missing'}:
            return True
        if v.op == 'fstr':
            return any(self.surely_text(a, st) for a in v.args)
        if v.op == 'join' and len(v.args) == 2 and isinstance(v.args[1], Tup):
            cells = v.args[1].cells
            return any(c[0] == '1' and self.surely_text(c[1], st) for c in cells) or (sum(c[0] == '1' for c in cells) > 1 and self.surely_text(v.args[0], st))
        return False

    def truth_len(self, t, st):
        x = t.args[0]
        if isinstance(x, Ref) and len(t.args) > 1:
            o = st.heap.get(x.id)
            if isinstance(o, (Lst, Dct)) and self.seq_cells(x, st) == t.args[1].cells:
                return self.truth(x, st)
        return self.truth(x, st) if x in st.content else self.fact(st, Term('truth', x))

    def nonempty_left(self, st, ref, o):
        """Truth of a list from whose summarised cells items were popped already."""
        part = [c for c in o.cells if c[0] == '*' and st.data.get(('popped', ref, c[1]))]
        if not part or any(c[0] == '1' for c in o.cells):
            return self.nonempty(st, o.cells)
        if any(st.data.get(('left', ref, c[1])) for c in part):
            return [(st, True)]
        out = []
        for c in part:
            s2 = st.fork()
            s2.data[('left', ref, c[1])] = True
            out.append((s2, True))
        rest = tuple(c for c in o.cells if c not in part)
        st.put(ref, replace(o, cells=rest))
        return out + self.nonempty(st, rest)

    def nonempty(self, st, cells):
        if not cells:
            return [(st, False)]
        for c in cells:
            if c[0] == '1':
                return [(st, True)]
            if st.card.get(c[1]) == 'some':
                return [(st, True)]
        # only stars of unknown cardinality
        sids = []
        for c in cells:
            if c[1] not in sids:
                sids.append(c[1])
        s2 = st.fork()
        for s in sids:
            self.set_zero(s2, s)
        out = [(s2, False)]
        for i, s in enumerate(sids):
            s3 = st.fork()
            for z in sids[:i]:
                self.set_zero(s3, z)
            s3.card[s] = 'some'
            out.append((s3, True))
        return out

    def set_zero(self, st, sid):
        st.card[sid] = 'zero'
        for i, o in list(st.heap.items()):
            if isinstance(o, (Lst, Dct)) and any(c[0] == '*' and c[1] == sid for c in o.cells):
                st.heap[i] = replace(o, cells=tuple(c for c in o.cells if not (c[0] == '*' and c[1] == sid)))
        for fid, env in st.frames.items():
            for k, v in env.items():
                if isinstance(v, Tup):
                    env[k] = self.zero_tup(v, sid)

    def zero_tup(self, v, sid):
        if any(c[0] == '*' and c[1] == sid for c in v.cells):
            return Tup([c for c in v.cells if not (c[0] == '*' and c[1] == sid)], v.kind)
        return v

    # ------------------------------------------------------------ affine order
    def aff(self, v):
        if isinstance(v, Aff):
            return v
        if isinstance(v, Const) and isinstance(v.v, int) and not isinstance(v.v, bool):
            return Aff({}, v.v)
        return None

    def aff_add(self, a, b, k=1):
        c = dict(a.coefs)
        for n, x in b.coefs.items():
            c[n] = c.get(n, 0) + k * x
        r = Aff(c, a.c + k * b.c)
        return r if r.coefs else Const(r.c)

    star_len = None

    def cells_len(self, cells):
        """Length of cells whose summarised parts have a known symbolic length."""
        if self.star_len is None:
            return None
        n = Const(0)
        for c in cells:
            if c[0] == '1':
                n = self.aff_add(self.aff(n), Aff({}, 1))
            elif c[1] in self.star_len and len(c[2]) == 1:
                n = self.aff_add(self.aff(n), Aff({self.star_len[c[1]]: 1}, 0))
            else:
                return None
        return n

    def cut_at(self, cells, k, st, clamp=False):
        """Number of cells before symbolic position k: int, 'out', or None (unknown)."""
        total = self.cells_len(cells)
        k = self.aff(k)
        if total is None or k is None:
            return None
        total = self.aff(total)
        sign = self.aff_sign(st, k)
        if sign == {-1}:
            k = self.aff(self.aff_add(k, total))
            sign = self.aff_sign(st, k)
            if sign == {-1}:
                return 0 if clamp else 'out'
        if -1 in sign:
            return None
        over = self.aff_sign(st, self.aff(self.aff_add(k, total, -1)))
        if over == {1} or over == {0} or over == {0, 1}:
            return len(cells) if clamp else 'out'
        for n in range(len(cells) + 1):
            if self.aff(self.cells_len(cells[:n])) == k:
                # an empty summarised part may follow: the position is that of the cell after it only if equal
                return n
        return None

    def aff_sign(self, st, a):
        """Possible signs of an affine form over non-negative parameters."""
        cs = list(a.coefs.values())
        lo = a.c if all(x >= 0 for x in cs) else None
        hi = a.c if all(x <= 0 for x in cs) else None
        s = set()
        if hi is None or hi > 0:
            s.add(1)
        if lo is None or lo < 0:
            s.add(-1)
        if (lo is None or lo <= 0) and (hi is None or hi >= 0):
            s.add(0)
        return s

    def aff_cmp(self, st, a, b, op):
        b = b if isinstance(b, Aff) else Aff({}, b)
        d = self.aff_add(a, b, -1)
        if isinstance(d, Const):
            signs = {(d.v > 0) - (d.v < 0)}
        else:
            signs = self.aff_sign(st, d)
        want = {'lt': {-1}, 'le': {-1, 0}, 'eq': {0}, 'ne': {-1, 1}, 'gt': {1}, 'ge': {0, 1}}[op]
        if isinstance(d, Aff):
            # path facts may already settle the sign
            known = st.facts.get(Term('sign', d))
            nd = Aff({k: -x for k, x in d.coefs.items()}, -d.c)
            kn = st.facts.get(Term('sign', nd))
            if known is not None:
                signs = signs & set(known)
            if kn is not None:
                signs = signs & {-x for x in kn}
        yes, no = signs & want, signs - want
        if yes and no:
            s2 = st.fork()
            st.facts[Term('sign', d)] = tuple(sorted(yes))
            s2.facts[Term('sign', d)] = tuple(sorted(no))
            return [(st, True), (s2, False)]
        return [(st, bool(yes))]

    # ------------------------------------------------------------ containers
    def container(self, v, st, want=None):
        """Heap object (or Tup) behind a container value, or None."""
        if isinstance(v, Tup):
            return v
        if text.is_char(v):
            return Tup((one(v),), 'text')
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, (Lst, Dct)):
                return o
            if isinstance(o, Inst):
                b = o.get('__items__')
                if b is not None:
                    return self.container(b, st)
            return None
        if isinstance(v, (Sym, Term)):
            if v in st.content:
                return st.heap[st.content[v].id]
            k = self.kinds(v, st)
            if k == frozenset(('mapping',)) or (want == 'mapping' and 'mapping' in k):
                return self.default_content(v, st, 'mapping')
            if k == frozenset(('sequence',)) or (want == 'sequence' and k - {'str', 'missing', 'bytes', 'mapping'}):
                return self.default_content(v, st, 'sequence')
        if isinstance(v, ExtV) and v in st.content:
            return st.heap[st.content[v].id]
        return None

    def container_ref(self, v, st):
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, Inst) and o.get('__items__') is not None:
                return self.container_ref(o.get('__items__'), st)
            return v
        if self.container(v, st) is not None and v in st.content:
            return st.content[v]
        return None

    def default_content(self, v, st, kind, n=None):
        n = self.default_items if n is None else n
        nm = repr(v)
        cells = []
        for i in range(n + 1):
            sid = f'{nm}@{i}'
            if kind == 'mapping':
                k, x = Sym(f'key({nm})*{i}', sid, f'keys({nm})'), Sym(f'val({nm})*{i}', sid)
                cells.append(kvstar(sid, (k, x)))
            else:
                cells.append(star(sid, Sym(f'item({nm})*{i}', sid)))
            if i < n:
                if kind == 'mapping':
                    cells.append(kv(Sym(f'key({nm})#{i}', None, f'keys({nm})'), Sym(f'val({nm})#{i}')))
                else:
                    cells.append(one(Sym(f'item({nm})#{i}')))
        o = Dct(tuple(cells), 'dict', 'input', v) if kind == 'mapping' else Lst(tuple(cells), 'list', 'input', v)
        r = st.new(o)
        st.content[v] = r
        return o

    def seq_cells(self, v, st):
        """Cells produced by iterating v once (one item per cell), or None."""
        if isinstance(v, Const) and isinstance(v.v, str):
            return tuple(one(Const(ch)) for ch in v.v)
        o = self.container(v, st)
        if isinstance(o, Dct):
            return tuple(one(c[1]) if c[0] == '1' else ('*', c[1], tuple(dict.fromkeys(k for k, _ in c[2]))) for c in o.cells)
        if o is not None:
            return unordered(o.cells) if o.kind == 'set' else o.cells
        if isinstance(v, LazyV):
            if v.op in ('keys', 'values', 'items'):
                o = self.container(v.args[0], st, 'mapping')
                if isinstance(o, Dct):
                    if v.op == 'keys':
                        f = lambda k, x: k
                    elif v.op == 'values':
                        f = lambda k, x: x
                    else:
                        f = lambda k, x: Tup([one(k), one(x)])
                    return tuple(one(f(c[1], c[2])) if c[0] == '1' else ('*', c[1], tuple(dict.fromkeys(f(a, b) for a, b in c[2]))) for c in o.cells)
                return None
            if v.op == 'enumerate':
                inner = self.seq_cells(v.args[0], st)
                if inner is None:
                    return None
                start = v.args[1]
                return self.enum_cells(v.args[0], inner, start)
            if v.op == 'zip':
                parts = [self.seq_cells(a, st) for a in v.args]
                if any(p is None for p in parts):
                    return None
                return self.zip_cells(parts, st)
            if v.op == 'range':
                return self.range_cells(v, st)
            if v.op == 'reversed':
                inner = self.seq_cells(v.args[0], st)
                return None if inner is None else tuple(reversed(inner))
            if v.op == 'chain':
                out = ()
                for a in v.args:
                    c = self.seq_cells(a, st)
                    if c is None:
                        return None
                    out += tuple(c)
                return out
            if v.op == 'iter':
                return self.seq_cells(v.args[0], st)
        return None

    def index(self, cells, n, start=Const(0)):
        """The position of cell n: what precedes it, and the cell itself."""
        pre = Tup([one(Const('1' if c[0] == '1' else c[1])) for c in cells[:n]])
        return Term('idx', pre, Const('1') if cells[n][0] == '1' else Sym('pos', cells[n][1]), start)

    def find_cell(self, cells, k, st):
        """Index into cells of the cell that index term k denotes, or None."""
        if k.args[2] != Const(0):
            return None
        want = [c[1].v for c in k.args[0].cells if st.card.get(c[1].v) != 'zero']
        have = []
        for n, c in enumerate(cells):
            if have == want:
                if c[0] == '1' and k.args[1] == Const('1'):
                    return n
                if c[0] == '*' and isinstance(k.args[1], Sym) and k.args[1].sid == c[1]:
                    return n
            if c[0] == '*' and st.card.get(c[1]) == 'zero':
                continue
            have.append('1' if c[0] == '1' else c[1])
        return None

    def norm_index(self, v, st):
        """Constant form of an index when nothing variable precedes it."""
        if isinstance(v, Term) and v.op == 'idx' and v.args[1] == Const('1') and v.args[2] == Const(0):
            pre = [c[1].v for c in v.args[0].cells if st.card.get(c[1].v) != 'zero']
            if all(x == '1' for x in pre):
                return Const(len(pre))
            return Term('idx', Tup([one(Const(x)) for x in pre]), v.args[1], v.args[2])
        if isinstance(v, Term) and v.op == 'idx':
            pre = [c for c in v.args[0].cells if st.card.get(c[1].v) != 'zero']
            return Term('idx', Tup(pre), *v.args[1:])
        return v

    def enum_cells(self, base, inner, start=Const(0)):
        out = []
        exact = True
        for n, c in enumerate(inner):
            if c[0] == '1':
                if exact and isinstance(start, Const) and type(start.v) is int:
                    ix = Const(start.v + n)
                else:
                    ix = self.index(inner, n, start)
                out.append(one(Tup([one(ix), one(c[1])])))
            else:
                exact = False
                ix = self.index(inner, n, start)
                out.append(('*', c[1], tuple(Tup([one(ix), one(x)]) for x in c[2])))
        return tuple(out)

    def zip_cells(self, parts, st):
        out = []
        idx = [0] * len(parts)
        while True:
            cur = [p[i] if i < len(p) else None for p, i in zip(parts, idx)]
            if all(c is None for c in cur):
                break
            if any(c is None for c in cur):
                # the longer ones are truncated: only fine when definite
                break
            if all(c[0] == '1' for c in cur):
                out.append(one(Tup([one(c[1]) for c in cur])))
            elif all(c[0] == '*' for c in cur) and len({c[1] for c in cur}) == 1:
                vals = [Tup([one(x) for x in t]) for t in zip(*[c[2] * (max(len(d[2]) for d in cur) if len(c[2]) == 1 else 1) for c in cur])]
                out.append(('*', cur[0][1], tuple(vals)))
            else:
                st.blur('zip of differently shaped sequences')
                sid = 'zip'
                out.append(('*', sid, (Tup([one(self.fresh('zip', sid)) for _ in cur]),)))
                break
            idx = [i + 1 for i in idx]
        return tuple(out)

    def range_cells(self, v, st):
        a = v.args
        if len(a) == 1:
            lo, hi = Const(0), a[0]
        elif len(a) == 2:
            lo, hi = a[0], a[1]
        else:
            return None
        if isinstance(hi, Const) and isinstance(lo, Const) and isinstance(hi.v, int) and isinstance(lo.v, int):
            if hi.v - lo.v > 64:
                return None
            return tuple(one(Const(i)) for i in range(lo.v, hi.v))
        if isinstance(hi, Term) and hi.op == 'len' and lo == Const(0):
            inner = hi.args[1] if len(hi.args) > 1 else None
            if inner is None:
                inner = self.seq_cells(hi.args[0], st)
            else:
                inner = inner.cells
            if inner is None:
                return None
            out, exact = [], True
            for n, c in enumerate(inner):
                if c[0] == '1':
                    out.append(one(Const(n) if exact else self.index(inner, n)))
                else:
                    exact = False
                    out.append(('*', c[1], (self.index(inner, n),)))
            return tuple(out)
        return None

    def length(self, v, st):
        o = self.container(v, st)
        if o is None and isinstance(v, LazyV):
            c = self.seq_cells(v, st)
            if c is not None and all(x[0] == '1' for x in c):
                return Const(len(c))
            return Term('len', v)
        if isinstance(v, Const) and isinstance(v.v, (str, bytes)):
            return Const(len(v.v))
        if o is not None:
            if ('len', v) in st.data:
                return st.data[('len', v)]
            if isinstance(o, (Lst, Dct)) and o.sym is not None and ('len', o.sym) in st.data:
                return st.data[('len', o.sym)]
            if all(c[0] == '1' for c in o.cells):
                return Const(len(o.cells))
            n = self.cells_len(o.cells)
            if n is not None:
                return n
            sc = self.seq_cells(v, st)
            return Term('len', v, Tup(sc))
        return Term('len', v)

    # -- iteration -------------------------------------------------------
    def iterate(self, v, st, fr, body, node=None):
        """Run body(st, item) -> [(st, ctl)] for each item.
        -> [(st, ctl)] with ctl None when exhausted, ('brk',) when broken."""
        if isinstance(v, GenExprV):
            return self.iter_genexpr(v, st, fr, body)
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, GenObj):
                return self.iter_gen(v, o, st, fr, body)
            if isinstance(o, Inst) and isinstance(o.cls, ClassInfo) and o.get('__items__') is None:
                f = self.p.find_member(o.cls, '__iter__')
                if f and f[1][0] == 'func':
                    out = []
                    for s, r in self.call(FuncV(f[1][1]), [one(v)], [], st, fr, node):
                        if isinstance(r, Raise):
                            out.append((s, ('exc', r.exc)))
                        elif self.stepper(r, s):
                            out.extend(self.iter_steps(r, s, fr, body, node))
                        elif r == v:
                            s.blur('self iterator')
                            out.append((s, None))
                        else:
                            out.extend(self.iterate(r, s, fr, body, node))
                    return out
                if self.stepper(v, st):
                    return self.iter_steps(v, st, fr, body, node)
                if 'typing.NamedTuple' in self.p.mro(o.cls):
                    return self.iter_cells(tuple(one(x) for _, x in o.attrs), st, fr, body)
                g = self.p.find_member(o.cls, '__getitem__')
                if not f and g and g[1][0] == 'func' and any(isinstance(b, str) and b.split('.')[-1] in ('Sequence', 'MutableSequence') for b in self.p.mro(o.cls)):
                    return self.iter_index(v, g[1][1], st, fr, body, node)
            if isinstance(o, Inst) and o.cls == SOURCE:
                return self.iter_steps(v, st, fr, body, node)
        if isinstance(v, LazyV):
            if v.op == 'map':
                f, rest = v.args[0], v.args[1:]
                src = rest[0] if len(rest) == 1 else LazyV('zip', *rest)

                def mb(s, item):
                    if len(rest) == 1:
                        pos = [one(item)]
                    else:
                        pos = list(item.cells)
                    out = []
                    for s2, r in self.call(f, pos, [], s, fr, node):
                        if isinstance(r, Raise):
                            out.append((s2, ('exc', r.exc)))
                        else:
                            out.extend(body(s2, r))
                    return out
                return self.iterate(src, st, fr, mb, node)
            if v.op == 'filter':
                f, src = v.args

                def fb(s, item):
                    out = []
                    if f == NONE:
                        rs = [(s, item)]
                    else:
                        rs = self.call(f, [one(item)], [], s, fr, node)
                    for s2, r in rs:
                        if isinstance(r, Raise):
                            out.append((s2, ('exc', r.exc)))
                            continue
                        for s3, b in self.truth(r, s2):
                            out.extend(body(s3, item) if b else [(s3, None)])
                    return out
                return self.iterate(src, st, fr, fb, node)
            if v.op == 'enumerate' and self.seq_cells(v, st) is None and isinstance(v.args[0], (GenExprV, LazyV)):
                out = []
                for s, cells in self.collect(v.args[0], st, fr, node):
                    if isinstance(cells, Raise):
                        out.append((s, ('exc', cells.exc)))
                    else:
                        out.extend(self.iterate(LazyV('enumerate', Tup(cells), *v.args[1:]), s, fr, body, node))
                return out
            if v.op == 'enumerate' and self.seq_cells(v, st) is None:

                def eb(s, item):
                    self.uid += 1
                    ix = Sym(f'enum{getattr(node, "lineno", 0)}', 'gen')
                    return body(s, Tup([one(ix), one(item)]))
                return self.iterate(v.args[0], st, fr, eb, node)
            if v.op in ('chain',) and self.seq_cells(v, st) is None:
                frontier, out = [st], []
                for src in v.args:
                    nxt = []
                    for s in frontier:
                        for s2, ctl in self.iterate(src, s, fr, body, node):
                            (nxt if ctl is None else out).append(s2 if ctl is None else (s2, ctl))
                    frontier = nxt
                return out + [(s, None) for s in frontier]
            if v.op == 'iter':
                return self.iterate(v.args[0], st, fr, body, node)
        cells = self.seq_cells(v, st)
        if cells is None:
            if isinstance(v, (Sym, Term)):
                k = self.kinds(v, st)
                if k == frozenset(('none',)) or (k and k <= frozenset(('none', 'bool', 'int', 'float'))):
                    return [(st, ('exc', self.raise_new(st, 'builtins.TypeError', node, fr).exc))]
                if k & {'sequence', 'other', 'type'} or k <= frozenset(('mapping',)):
                    want = 'mapping' if k <= frozenset(('mapping',)) else 'sequence'
                    self.default_content(v, st, want)
                    cells = self.seq_cells(v, st)
                else:
                    sid = f'chars({v!r})'
                    cells = (star(sid, Sym(f'char({v!r})', sid)),)
            else:
                sid = f'items({v!r})'
                st.blur('iteration over unmodelled value')
                cells = (star(sid, Sym(f'item({v!r})', sid)),)
        root = self.live_root(v)
        if root is not None and all(c[0] == '1' for c in cells):
            o = st.heap.get(root.id)
            if isinstance(o, (Lst, Dct)):
                return self.iter_live(v, root, isinstance(o, Dct), len(cells), st, fr, body, node)
        return self.iter_cells(cells, st, fr, body)

    @staticmethod
    def live_root(v):
        while isinstance(v, LazyV) and v.op in ('iter', 'enumerate', 'keys', 'values', 'items') and v.args:
            v = v.args[0]
        return v if isinstance(v, Ref) else None

    def iter_live(self, v, root, mapping, size, st, fr, body, node=None, cap=60):
        """Iteration over a list or dictionary that may change meanwhile: a list
        shows the changes, a dictionary whose size changed refuses to go on."""
        frontier, out, k = [st], [], 0
        done = []
        while frontier:
            nxt = []
            for s in frontier:
                cells = self.seq_cells(v, s)
                if cells is None or any(c[0] != '1' for c in cells[:k + 1]):
                    if cells is None:
                        s.blur('iterated container was replaced')
                        done.append(s)
                    else:
                        for s2, ctl in self.iter_cells(cells[k:], s, fr, body):
                            (done if ctl is None else out).append(s2 if ctl is None else (s2, ctl))
                    continue
                if mapping and len(cells) != size:
                    out.append((s, ('exc', self.raise_new(s, 'builtins.RuntimeError', node, fr).exc)))
                    continue
                if k >= len(cells):
                    done.append(s)
                    continue
                if k > cap:
                    s.blur('long iteration')
                    done.append(s)
                    continue
                for s2, ctl in body(s, cells[k][1]):
                    if ctl is None or ctl[0] == 'cont':
                        nxt.append(s2)
                    else:
                        out.append((s2, ctl))
            frontier = self.dedupe(nxt, fr)
            k += 1
        return [(s, None) for s in self.dedupe(done, fr)] + out

    def stepper(self, v, st):
        o = st.heap.get(v.id) if isinstance(v, Ref) else None
        if isinstance(o, Inst) and isinstance(o.cls, ClassInfo):
            f = self.p.find_member(o.cls, '__next__')
            return bool(f and f[1][0] == 'func')
        return isinstance(o, Inst) and o.cls == SOURCE

    def step(self, v, st, fr, node=None):
        """One call of next on an object with its own state."""
        o = st.obj(v)
        if o.cls == SOURCE:
            pos, cells = o.get('pos').v, o.get('cells').cells
            if pos >= len(cells):
                return [(st, self.raise_new(st, 'builtins.StopIteration', node, fr))]
            st.put(v, replace(o, attrs=(('pos', Const(pos + 1)), ('cells', o.get('cells')))))
            return [(st, cells[pos][1])]
        return self.call(FuncV(self.p.find_member(o.cls, '__next__')[1][1]), [one(v)], [], st, fr, node)

    def iter_index(self, v, getitem, st, fr, body, node=None, cap=40):
        """Iteration of a Sequence by index."""
        out, work = [], [(st, 0)]
        while work:
            s, k = work.pop()
            if k > cap:
                s.blur('long iteration')
                out.append((s, None))
                continue
            for s2, r in self.call(FuncV(getitem), [one(v), one(Const(k))], [], s, fr, node):
                if isinstance(r, Raise):
                    end = self.exc_match(r.exc, [ExtV('builtins.IndexError')], s2) == 'yes'
                    out.append((s2, None if end else ('exc', r.exc)))
                    continue
                for s3, ctl in body(s2, r):
                    if ctl is None or ctl[0] == 'cont':
                        work.append((s3, k + 1))
                    else:
                        out.append((s3, ctl))
        return out

    def iter_steps(self, v, st, fr, body, node=None, cap=40):
        out, work = [], [(st, 0)]
        while work:
            s, k = work.pop()
            if k > cap:
                s.blur('long iteration')
                out.append((s, None))
                continue
            for s2, r in self.step(v, s, fr, node):
                if isinstance(r, Raise):
                    o = s2.heap.get(r.exc.id)
                    stop = isinstance(o, Inst) and o.cls == 'builtins.StopIteration'
                    out.append((s2, None if stop else ('exc', r.exc)))
                    continue
                for s3, ctl in body(s2, r):
                    if ctl is None or ctl[0] == 'cont':
                        work.append((s3, k + 1))
                    else:
                        out.append((s3, ctl))
        return out

    def iter_cells(self, cells, st, fr, body):
        frontier, out = [st], []
        for c in cells:
            if not frontier:
                break
            nxt, seen = [], set()
            if c[0] == '1':
                for s in frontier:
                    for s2, ctl in body(s, c[1]):
                        if ctl is None or ctl[0] == 'cont':
                            nxt.append(s2)
                        else:
                            out.append((s2, ctl))
                frontier = self.dedupe(nxt, fr)
                continue
            sid, vals = c[1], c[2]
            for s in frontier:
                done, brk = self.iter_star(sid, vals, s, fr, body)
                nxt.extend(done)
                out.extend(brk)
            frontier = self.dedupe(nxt, fr)
        return [(s, None) for s in frontier] + out

    def iter_star(self, sid, vals, st, fr, body):
        """-> (states after the star, control results)"""
        out, done = [], []
        card = st.card.get(sid)
        if card == 'zero':
            return [st], []
        if sid in st.active:
            st.blur('nested iteration over the same generic item')
        pre_heap = dict(st.heap)
        if card is None:
            s0 = st.fork()
            self.set_zero(s0, sid)
            done.append(s0)
        st.card[sid] = 'some'
        seen, work = set(), [st]
        rounds = 0
        while work:
            s = work.pop()
            rounds += 1
            if rounds > self.loop_cap:
                raise Budget()
            for v in vals:
                s1 = s.fork()
                self.begin_iter(s1, sid)
                pre = dict(s1.heap)
                pre_events = len(s1.events)
                for s2, ctl in body(s1, v):
                    if ctl is None or ctl[0] == 'cont':
                        s2.active = s.active
                        self.end_iter(s2, sid, pre, pre_events, pre_heap)
                        k = canon(s2, fr)
                        if k in seen:
                            continue
                        seen.add(k)
                        work.append(s2)
                        s3 = s2.fork()
                        self.exit_star(s3, sid, pre_heap)
                        done.append(s3)
                    else:
                        s2.active = s.active
                        out.append((s2, ctl))
        return done, out

    def begin_iter(self, st, sid):
        st.active = st.active + (sid,)
        self.forget(st, sid)
        st.consumed = frozenset(x for x in st.consumed if x[1] != sid)

    def forget(self, st, sid):
        for d in (st.facts, st.kinds, st.num):
            for k in [k for k in d if mentions(k, sid, st)]:
                del d[k]
        for k in [k for k in st.content if mentions(k, sid, st)]:
            del st.content[k]
        for k in [k for k in st.data if isinstance(k, tuple) and mentions(k, sid, st)]:
            del st.data[k]

    def end_iter(self, st, sid, pre, pre_events, pre_heap):
        for i, o in list(st.heap.items()):
            if not isinstance(o, (Lst, Dct)):
                continue
            old = pre.get(i)
            if old is None:
                continue        # created in this iteration: local to it
            if old is o:
                continue
            oldset = set(old.cells)
            cells = ()
            for c in o.cells:
                if c[0] == '1' and (c not in oldset):
                    c = ('*', sid, (c[1],)) if len(c) == 2 else ('*', sid, ((c[1], c[2]),))
                if c[0] == '*':
                    if isinstance(o, Dct):
                        # dictionary summaries of one loop merge wherever they are
                        for j, d in enumerate(cells):
                            if d[0] == '*' and d[1] == c[1]:
                                vals = d[2] + tuple(x for x in c[2] if x not in d[2])
                                cells = cells[:j] + (('*', d[1], vals),) + cells[j + 1:]
                                break
                        else:
                            cells = cells + (c,)
                    else:
                        cells = add_star(cells, c)
                else:
                    cells = cells + (c,)
            st.heap[i] = replace(o, cells=cells)
        # events of this iteration become one summary
        new = st.events[pre_events:]
        if new:
            head = st.events[:pre_events]
            grp = frozenset(x for e in new for x in (e[2] if e[0] == 'loop' and e[1] == sid else (e,)))
            grp |= frozenset(('twice', e) for e in new if e[0] in ('U', 'M', 'usercall', 'build') and new.count(e) > 1)
            if head and head[-1][0] == 'loop' and head[-1][1] == sid:
                st.events = head[:-1] + (('loop', sid, head[-1][2] | grp),)
            else:
                st.events = head + (('loop', sid, grp),)
        # lockstep bookkeeping
        for i, o in pre_heap.items():
            cur = st.heap.get(i)
            if isinstance(cur, (Lst, Dct)) and any(c[0] == '*' and c[1] == sid for c in cur.cells):
                if (Ref(i), sid) not in st.consumed:
                    st.leftover = st.leftover | {(Ref(i), sid)}
        self.forget(st, sid)

    def exit_star(self, st, sid, pre_heap):
        for i, o in pre_heap.items():
            if not any(isinstance(o, t) for t in (Lst, Dct)):
                continue
            if not any(c[0] == '*' and c[1] == sid for c in o.cells):
                continue
            if (Ref(i), sid) in st.leftover:
                st.leftover = st.leftover - {(Ref(i), sid)}
                continue
            cur = st.heap[i]
            st.heap[i] = replace(cur, cells=tuple(c for c in cur.cells if not (c[0] == '*' and c[1] == sid)))
        st.leftover = frozenset(x for x in st.leftover if x[1] != sid)

    def dedupe(self, states, fr):
        if len(states) < 2:
            return states
        seen, out = set(), []
        for s in states:
            k = canon(s, fr)
            if k not in seen:
                seen.add(k)
                out.append(s)
        return out

    def iter_gen(self, ref, g, st, fr, body):
        """Inline execution of a generator; the loop body runs at each yield."""
        if st.data.get(('gen-used', ref.id)):
            st.blur('generator iterated twice')
        st.data[('gen-used', ref.id)] = True
        gfr = Frame(g.fid, g.info, g.info.module, fr)

        def handler(s, val):
            out = []
            for s2, ctl in body(s, val):
                if ctl is None or ctl[0] == 'cont':
                    out.append((s2, NONE))
                else:
                    s2.pending = s2.pending + (ctl,)
                    ex = s2.new(Inst('builtins.GeneratorExit'))
                    out.append((s2, Raise(ex)))
            return out
        gfr.yield_handler = handler
        depth = len(st.pending)
        out = []
        for s, ctl in self.block(g.info.node.body, st, gfr):
            if len(s.pending) > depth:
                p = s.pending[-1]
                s.pending = s.pending[:-1]
                if ctl is not None and ctl[0] == 'exc':
                    o = s.heap.get(ctl[1].id)
                    if not (isinstance(o, Inst) and o.cls == 'builtins.GeneratorExit'):
                        out.append((s, ctl))
                        continue
                out.append((s, p))
            elif ctl is None or ctl[0] == 'ret':
                out.append((s, None))
            else:
                out.append((s, ctl))
        return out

    def iter_genexpr(self, v, st, fr, body):
        gfr = Frame(v.fid, v.func, v.func.module if v.func else fr.module, fr)
        return self.comp(v.node.generators, 0, st, gfr,
                         lambda s, f: self.lift(self.ev(v.node.elt, s, f), body))

    def lift(self, results, body):
        out = []
        for s, v in results:
            out.extend([(s, ('exc', v.exc))] if isinstance(v, Raise) else body(s, v))
        return out

    def comp(self, gens, i, st, fr, emit):
        """emit(st, fr) -> [(st, ctl)] for every innermost iteration."""
        if i == len(gens):
            return emit(st, fr)
        g = gens[i]

        def body(s, item):
            out = []
            for s1, c in self.assign(g.target, item, s, fr):
                if c is not None:
                    out.append((s1, c))
                    continue
                frontier = [s1]
                for cond in g.ifs:
                    nxt = []
                    for s2 in frontier:
                        for s3, v in self.ev(cond, s2, fr):
                            if isinstance(v, Raise):
                                out.append((s3, ('exc', v.exc)))
                                continue
                            for s4, b in self.truth(v, s3):
                                if b:
                                    nxt.append(s4)
                                else:
                                    out.append((s4, None))
                    frontier = nxt
                for s2 in frontier:
                    out.extend(self.comp(gens, i + 1, s2, fr, emit))
            return out
        out = []
        for s, it in self.ev(g.iter, st, fr):
            if isinstance(it, Raise):
                out.append((s, ('exc', it.exc)))
            else:
                out.extend(self.iterate(it, s, fr, body, g.iter))
        return out

    def comp_frame(self, st, fr):
        """Comprehensions get their own scope whose parent is the function's."""
        self.uid += 1
        fid = f'c{self.uid}'
        st.frames[fid] = {}
        st.parents[fid] = fr.fid
        f = Frame(fid, fr.func, fr.module, fr)
        f.yield_handler = fr.yield_handler
        f.self_ = fr.self_
        return f

    def collect(self, v, st, fr, node=None):
        """Cells of a full iteration of v -> [(st, cells | Raise)]"""
        cells = self.seq_cells(v, st)
        if cells is not None:
            return [(st, tuple(cells))]
        acc = st.new(Lst((), 'list', 'acc'))

        def body(s, item):
            o = s.obj(acc)
            s.put(acc, replace(o, cells=o.cells + (one(item),)))
            return [(s, None)]
        return self._collected(self.iterate(v, st, fr, body, node), acc)

    def _collected(self, results, acc):
        out = []
        for s, ctl in results:
            if ctl is None:
                cells = s.obj(acc).cells
                out.append((s, cells))
            elif ctl[0] == 'exc':
                out.append((s, Raise(ctl[1])))
        return out

    # ------------------------------------------------------------ names
    def lookup(self, name, st, fr):
        fid = fr.fid
        while fid is not None:
            env = st.frames.get(fid)
            if env is not None and name in env:
                return env[name]
            fid = st.parents.get(fid)
        return self.global_value(fr.module, name, st, fr)

    def global_value(self, module, name, st, fr):
        r = self.p.resolve(module.name, name)
        if r is None:
            if name in BUILTIN_FUNCS:
                return ExtV(f'builtins.{name}')
            if name in ('__name__',):
                return Const(module.name)
            if name in ('__file__',):
                return Term('file', module.name)
            return Term('unbound', name)
        return self.from_resolved(r, module.name, name, st, fr)

    def from_resolved(self, r, modname, name, st, fr):
        if r[0] == 'func':
            return FuncV(r[1])
        if r[0] == 'class':
            return ClassV(r[1])
        if r[0] == 'mod':
            return ModV(r[1])
        if r[0] == 'ext':
            return ExtV(r[1])
        mod, node = r[1], r[2]
        key = ('g', mod.name, id(node), r[3] if r[0] == 'item' else None)
        if key in st.globals:
            return st.globals[key]
        hook = self.models.get(f'{mod.name}.{name}')
        if hook is not None and not callable(hook):
            return hook
        st.globals[key] = Term('global', f'{mod.name}.{name}')
        mfr = Frame(None, None, mod, fr)
        sub = st.fork()
        try:
            res = self.ev(node, sub, mfr)
        except Budget:
            raise
        ok = [(s, v) for s, v in res if not isinstance(v, Raise)]
        if not ok:
            return st.globals[key]
        s, v = ok[0]
        if r[0] == 'item':
            c = self.seq_cells(v, s)
            v = c[r[3]][1] if c and r[3] < len(c) and c[r[3]][0] == '1' else Term('global', f'{mod.name}.{name}')
        st.heap, st.nid = s.heap, s.nid
        st.content = s.content
        for k2, v2 in s.globals.items():
            st.globals[k2] = v2
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, (Lst, Dct)):
                st.put(v, replace(o, owner='global'))
        st.globals[key] = v
        return v

    def class_attr(self, owner, name, expr, st, fr):
        key = ('c', owner.full, name)
        if key in st.globals:
            return st.globals[key]
        cfr = Frame(None, None, owner.module, fr)
        sub = st.fork()
        self.uid += 1
        fid = f'k{self.uid}'
        sub.frames[fid] = {}
        sub.parents[fid] = None
        cfr.fid = fid
        for n, k in owner.members.items():
            if n != name and k[0] == 'func':
                sub.frames[fid][n] = FuncV(k[1])
            elif n != name and k[0] == 'class':
                sub.frames[fid][n] = ClassV(k[1])
        res = [(s, v) for s, v in self.ev(expr, sub, cfr) if not isinstance(v, Raise)]
        v = Term('classattr', owner.full, name)
        if res:
            s, v = res[0]
            st.heap, st.nid, st.content = s.heap, s.nid, s.content
            st.globals.update(s.globals)
            if isinstance(v, Ref):
                o = st.heap.get(v.id)
                if isinstance(o, (Lst, Dct)):
                    st.put(v, replace(o, owner='global'))
        st.globals[key] = v
        return v

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name, st, fr, node=None):
        """-> [(st, value|Raise)]"""
        if self.attr_hook is not None:
            r = self.attr_hook(self, v, name, st, fr, node)
            if r is not None:
                return r
        if isinstance(v, ModV):
            if v.name in self.p.modules:
                q = f'{v.name}.{name}'
                if q in self.models and not callable(self.models[q]):
                    return [(st, self.models[q])]
                r = self.p.resolve(v.name, name)
                if r is not None:
                    return [(st, self.from_resolved(r, v.name, name, st, fr))]
                return [(st, Term('attr', v, name))]
            return [(st, self.ext(f'{v.name}.{name}'))]
        if isinstance(v, ExtV):
            return [(st, self.ext(f'{v.name}.{name}'))]
        if isinstance(v, ClassV):
            return self.class_getattr(v, v.info, name, st, fr, node)
        if isinstance(v, SuperV):
            cls, self_ = v.a
            start = self.class_of(self_, st)
            if start is None:
                return [(st, Term('attr', v, name))]
            f = self.p.find_member(start, name, after=cls)
            if f is None:
                return [(st, ExtBound(v, name))]
            return self.bind_member(f, self_, name, st, fr, node)
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, Inst):
                if name == '__class__':
                    return [(st, ClassV(o.cls) if isinstance(o.cls, ClassInfo) else ExtV(o.cls))]
                if name == '__dict__':
                    return [(st, Term('instdict', v))]
                if isinstance(o.cls, ClassInfo):
                    f = self.p.find_member(o.cls, name)
                    if f is not None and f[1][0] == 'func' and self.is_property(f[1][1]) == 'property':
                        return self.bind_member(f, v, name, st, fr, node)
                    if o.has(name):
                        return [(st, o.get(name))]
                    if f is not None:
                        return self.bind_member(f, v, name, st, fr, node)
                    if name.startswith('__') and name.endswith('__'):
                        return [(st, ExtBound(v, name))]
                    if o.get('__items__') is not None:
                        return [(st, ExtBound(o.get('__items__'), name))]
                    if o.has('__opaque__') or name in self.annotated_names(o.cls):
                        return [(st, Term('attr', v, name))]
                    f = self.p.find_member(o.cls, '__getattr__')
                    if f is not None and f[1][0] == 'func':
                        return self.call(FuncV(f[1][1]), [one(v), one(Const(name))], [], st, fr, node)
                    if any(isinstance(c, str) and c not in ('builtins.object', 'typing.Generic') for c in self.p.mro(o.cls)):
                        return [(st, ExtBound(v, name))]
                    return [(st, self.raise_new(st, 'builtins.AttributeError', node, fr))]
                if o.has(name):
                    return [(st, o.get(name))]
                return [(st, ExtBound(v, name))]
            if isinstance(o, (Lst, Dct, GenObj)):
                return [(st, ExtBound(v, name))]
        if isinstance(v, FuncV):
            if ('fattr', v, name) in st.data:
                return [(st, st.data[('fattr', v, name)])]
            if name in ('cache_clear', 'cache_info', 'cache', '__wrapped__'):
                return [(st, Term('attr', v, name))]
            if name in ('__name__', '__qualname__'):
                return [(st, Const(v.info.name))]
            return [(st, Term('attr', v, name))]
        if isinstance(v, (Tup, Const, LazyV, GenExprV, SliceV)):
            return [(st, ExtBound(v, name))]
        if isinstance(v, BoundV):
            return [(st, Term('attr', v, name))]
        if isinstance(v, (Sym, Term)):
            if text.pattern(v) or isinstance(v, Term) and v.op == 'found':
                return [(st, ExtBound(v, name))]
            k = self.kinds(v, st)
            if (k <= frozenset(('str', 'missing', 'mapping', 'sequence', 'bytes', 'int', 'float', 'bool')) or v in st.content) and not name.startswith('__'):
                return [(st, ExtBound(v, name))]
        return [(st, Term('attr', v, name))]

    def ext(self, name):
        return EXT_CONSTS[name] if name in EXT_CONSTS else ExtV(name)

    def annotated_names(self, cls):
        out = set()
        for c in self.p.mro(cls):
            if isinstance(c, ClassInfo):
                out |= set(c.annotations)
        return out

    def class_of(self, v, st):
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, Inst) and isinstance(o.cls, ClassInfo):
                return o.cls
        if isinstance(v, ClassV):
            return v.info
        return None

    def is_property(self, info):
        for d in info.decorators:
            s = ast.unparse(d)
            if s == 'property' or s.endswith('.getter'):
                return 'property'
            if s.split('.')[-1] == 'cached_property':
                return 'cached_property'
        return None

    def deco(self, info):
        out = set()
        for d in info.decorators:
            s = ast.unparse(d)
            out.add(s.split('(')[0].split('.')[-1])
        return out

    def bind_member(self, f, self_, name, st, fr, node):
        owner, m = f
        if m[0] == 'func':
            d = self.deco(m[1])
            if 'staticmethod' in d:
                return [(st, FuncV(m[1]))]
            if 'classmethod' in d:
                c = self_ if isinstance(self_, ClassV) else ClassV(self.class_of(self_, st))
                return [(st, BoundV(FuncV(m[1]), c))]
            p = self.is_property(m[1])
            if p == 'property':
                return self.call(FuncV(m[1]), [one(self_)], [], st, fr, node)
            if p == 'cached_property':
                def store(s, v):
                    s.put(self_, s.obj(self_).set(name, v))
                    return [(s, v)]
                return self.bind(self.call(FuncV(m[1]), [one(self_)], [], st, fr, node), store)
            return [(st, BoundV(FuncV(m[1]), self_))]
        if m[0] == 'class':
            return [(st, ClassV(m[1]))]
        return [(st, self.class_attr(owner, name, m[1], st, fr))]

    def metaclass(self, cls):
        for c in self.p.mro(cls):
            if isinstance(c, ClassInfo):
                for k in c.node.keywords:
                    if k.arg == 'metaclass':
                        r = self.p.resolve_expr(c.module, k.value)
                        if r and r[0] == 'class':
                            return r[1]
        return None

    def class_getattr(self, v, cls, name, st, fr, node):
        key = ('cattr', cls.full, name)
        if key in st.data:
            return [(st, st.data[key])]
        f = self.p.find_member(cls, name)
        if f is not None:
            owner, m = f
            if m[0] == 'func':
                d = self.deco(m[1])
                if 'classmethod' in d:
                    return [(st, BoundV(FuncV(m[1]), v))]
                return [(st, FuncV(m[1]))]
            if m[0] == 'class':
                return [(st, ClassV(m[1]))]
            return [(st, self.class_attr(owner, name, m[1], st, fr))]
        if name == '__name__':
            return [(st, Const(cls.name))]
        if name in ('__mro__', '__dict__', '__module__', '__doc__', '__bases__'):
            return [(st, Term('attr', v, name))]
        mc = self.metaclass(cls)
        if mc is not None:
            f = self.p.find_member(mc, name)
            if f is not None:
                return self.bind_member(f, v, name, st, fr, node)
        return [(st, Term('attr', v, name))]

    # ------------------------------------------------------------ calls
    def call(self, f, pos, kw, st, fr, node=None):
        """pos: list of sequence cells; kw: list of dict cells (Const str keys).
        -> [(st, value|Raise)]"""
        self.tick()
        if fr is not None and fr.depth > self.MAX_DEPTH:
            st.blur('call depth')
            return [(st, Term('deep', repr(f)))]
        if isinstance(f, FuncV):
            m = self.models.get(f.info.full)
            if m is None and f.info.module.name == self.p.PKG:
                m = None
            if m is not None and callable(m):
                r = m(self, pos, kw, st, fr, node)
                if r is not None:
                    return r
            return self.call_func(f, pos, kw, st, fr, node)
        if isinstance(f, BoundV):
            return self.call(f.func, [one(f.self_)] + list(pos), kw, st, fr, node)
        if isinstance(f, ClassV):
            return self.construct(f, pos, kw, st, fr, node)
        if isinstance(f, PartialV):
            fn, p, k = f.a
            return self.call(fn, list(p) + list(pos), list(k) + list(kw), st, fr, node)
        if isinstance(f, ExtV):
            if f.name in text.RE or f.name in ('re.match', 're.search', 're.fullmatch'):
                r = text.external(self, f.name, pos, kw, st, fr, node)
                if r is not None:
                    return r
            m = self.ext_models.get(f.name)
            if m is not None:
                r = m(self, pos, kw, st, fr, node)
                if r is not None:
                    return r
            return self.opaque_call(f, pos, kw, st, fr, node)
        if isinstance(f, ExtBound):
            from . import models as mm
            r = mm.method(self, f.recv, f.name, pos, kw, st, fr, node)
            if r is not None:
                return r
            return self.opaque_call(f, pos, kw, st, fr, node)
        if isinstance(f, Ref):
            o = st.heap.get(f.id)
            if isinstance(o, Inst) and isinstance(o.cls, ClassInfo):
                m = self.p.find_member(o.cls, '__call__')
                if m and m[1][0] == 'func':
                    return self.call(FuncV(m[1][1]), [one(f)] + list(pos), kw, st, fr, node)
        return self.opaque_call(f, pos, kw, st, fr, node)

    def opaque_call(self, f, pos, kw, st, fr, node):
        if self.call_hook is not None:
            r = self.call_hook(self, f, pos, kw, st, fr, node)
            if r is not None:
                return r
        if isinstance(f, ExtV) and (f.name.split('.')[0] in STRUCTURAL or f.name in UNMODELLED):
            st.blur(f'{f.name} is not modelled')
        return [(st, self.call_term(f, pos, kw))]

    def call_term(self, f, pos, kw):
        return Term('call', f, Tup(pos), Tup(kw, 'kw'))

    def user_call(self, f, pos, kw, st, fr, node, tag='usercall'):
        """A call of user supplied code: any value, or any Exception."""
        t = Term(tag, f, Tup(pos), Tup(kw, 'kw'))
        st.event(tag, f, Tup(pos), Tup(kw, 'kw'))
        s2 = st.fork()
        r = self.raise_new(s2, 'builtins.Exception', node, fr, exact=False)
        s2.put(r.exc, s2.obj(r.exc).set('__user__', TRUE))
        return [(st, t), (s2, r)]

    def kwcells(self, kw):
        return kw

    def call_func(self, f, pos, kw, st, fr, node):
        info = f.info
        stack = 0
        c = fr
        while c is not None:
            if c.func is info:
                stack += 1
                if self.endless and c.args == (tuple(pos), tuple(kw)) and not any(isinstance(x[-1], Ref) for x in c.args[0] + c.args[1]):
                    # the same call again, of constants: it never ends
                    return [(st, self.raise_new(st, 'builtins.RecursionError', node, fr))]
            c = c.caller
        if stack > self.rec_limit or info.full in self.no_inline:
            if info.full not in self.no_inline and self.call_hook is None:
                st.blur('recursion')
            return self.opaque_call(f, pos, kw, st, fr, node)
        self.visited.add(info.full)
        self.uid += 1
        fid = f'{self.uid}'
        env = {}
        err = self.bind_params(f, pos, kw, env, st, fr, node)
        if err is not None:
            return [(st, err)]
        st.frames[fid] = env
        st.parents[fid] = f.fid
        if info.is_generator:
            cm = 'contextmanager' in self.deco(info)
            return [(st, st.new(GenObj(info, fid, cm)))]
        nf = Frame(fid, info, info.module, fr)
        nf.args = (tuple(pos), tuple(kw))
        names = [a.arg for a in info.node.args.posonlyargs + info.node.args.args]
        nf.self_ = names[0] if names else None
        out = []
        if info.is_lambda:
            return self.ev(info.node.body, st, nf)
        for s, ctl in self.block(info.node.body, st, nf):
            if ctl is None:
                out.append((s, NONE))
            elif ctl[0] == 'ret':
                out.append((s, ctl[1]))
            elif ctl[0] == 'exc':
                out.append((s, Raise(ctl[1])))
            else:
                s.blur('stray control flow')
                out.append((s, NONE))
        if not self.captures(info):
            for s, _ in out:
                s.frames.pop(fid, None)
                s.parents.pop(fid, None)
        if len(out) > 3:
            out = self.dedupe_results(out, fr)
        return out

    def dedupe_results(self, out, fr):
        seen, res = set(), []
        for s, v in out:
            k = canon(s, fr, (v.exc,) if isinstance(v, Raise) else (v,)) + (isinstance(v, Raise),)
            if k not in seen:
                seen.add(k)
                res.append((s, v))
        return res

    def captures(self, info):
        c = getattr(info, '_captures', None)
        if c is None:
            c = any(isinstance(n, (ast.Lambda, ast.FunctionDef, ast.GeneratorExp))
                    for n in ast.walk(info.node) if n is not info.node)
            info._captures = c
        return c

    def bind_params(self, f, pos, kw, env, st, fr, node):
        info = f.info
        a = info.node.args
        pos = list(pos)
        params = [x.arg for x in a.posonlyargs + a.args]
        npos_only = len(a.posonlyargs)
        defaults = {}
        for x, d in zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1]):
            defaults[x.arg] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        i = 0
        rest = []
        while pos:
            c = pos[0]
            if i < len(params):
                if c[0] == '1':
                    env[params[i]] = c[1]
                    i += 1
                    pos.pop(0)
                    continue
                st.blur('starred argument bound to named parameters')
                for p in params[i:]:
                    env[p] = Term('starred', p, Tup(pos))
                i = len(params)
                pos = []
                break
            rest = pos
            break
        if a.vararg:
            env[a.vararg.arg] = Tup(rest)
        elif rest:
            if any(c[0] == '1' for c in rest):
                return self.raise_new(st, 'builtins.TypeError', node, fr, Const('too many positional arguments'))
            st.blur('starred surplus')
        extra = []
        names = set(params[npos_only:]) | {x.arg for x in a.kwonlyargs}
        for c in kw:
            if c[0] == '1' and isinstance(c[1], Const) and c[1].v in names:
                if c[1].v in env:
                    return self.raise_new(st, 'builtins.TypeError', node, fr, Const('multiple values'))
                env[c[1].v] = c[2]
            else:
                extra.append(c)
        if a.kwarg:
            env[a.kwarg.arg] = st.new(Dct(tuple(extra)))
        elif extra:
            if any(c[0] == '1' and isinstance(c[1], Const) for c in extra):
                return self.raise_new(st, 'builtins.TypeError', node, fr, Const('unexpected keyword'))
            st.blur('keyword mapping bound to named parameters')
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p in env:
                continue
            if p in defaults:
                env[p] = self.default_value(f, p, defaults[p], st, fr)
            else:
                return self.raise_new(st, 'builtins.TypeError', node, fr, Const(f'missing argument {p}'))
        return None

    def default_value(self, f, name, expr, st, fr):
        if isinstance(expr, ast.Constant):
            return Const(expr.value)
        if f.fid is not None:
            dfr = Frame(f.fid, f.info, f.info.module, fr)
        else:
            dfr = Frame(None, None, f.info.module, fr)
        key = ('d', f.info.full, name, f.fid)
        if key in st.globals:
            return st.globals[key]
        if f.info.cls is not None and isinstance(expr, ast.Name) and expr.id in f.info.cls.members:
            m = f.info.cls.members[expr.id]
            if m[0] == 'expr':
                return self.class_attr(f.info.cls, expr.id, m[1], st, fr)
        res = [(s, v) for s, v in self.ev(expr, st, dfr) if not isinstance(v, Raise)]
        v = res[0][1] if res else Term('default', f.info.full, name)
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, (Lst, Dct)):
                st.put(v, replace(o, owner='global'))
        st.globals[key] = v
        return v

    def construct(self, cv, pos, kw, st, fr, node):
        cls = cv.info
        self.tick()
        m = self.models.get(cls.full)
        if m is not None and callable(m):
            r = m(self, pos, kw, st, fr, node)
            if r is not None:
                return r
        mro = self.p.mro(cls)
        origin = self.loc(node, fr)
        if 'typing.NamedTuple' in mro:
            fields = [s.target.id for s in cls.node.body if isinstance(s, ast.AnnAssign)]
            attrs = []
            p = list(pos)
            kwd = {c[1].v: c[2] for c in kw if c[0] == '1' and isinstance(c[1], Const)}
            for n in fields:
                if p and p[0][0] == '1':
                    attrs.append((n, p.pop(0)[1]))
                elif n in kwd:
                    attrs.append((n, kwd[n]))
                elif n in cls.members and cls.members[n][0] == 'expr':
                    attrs.append((n, self.class_attr(cls, n, cls.members[n][1], st, fr)))
                else:
                    attrs.append((n, Term('field', n)))
            return [(st, st.new(Inst(cls, tuple(attrs), True, 'fresh', origin)))]
        new = self.p.find_member(cls, '__new__')
        attrs = ()
        if any(isinstance(c, str) and c in ('typing.List', 'builtins.list', 'collections.UserList') for c in mro):
            attrs = (('__items__', None),)
        elif any(isinstance(c, str) and c in ('typing.Dict', 'builtins.dict', 'collections.OrderedDict', 'typing.OrderedDict', 'collections.UserDict') for c in mro):
            attrs = (('__items__', None),)
        ref = st.new(Inst(cls, (), True, 'fresh', origin))
        init = self.p.find_member(cls, '__init__')
        out = []
        if attrs:
            isdict = any(isinstance(c, str) and 'ict' in c for c in mro)
            if init is None:
                res = self.collect(pos[0][1], st, fr, node) if pos and not isdict else [(st, ())]
                for s, cells in res:
                    if isinstance(cells, Raise):
                        out.append((s, cells))
                        continue
                    b = s.new(Dct((), 'dict') if isdict else Lst(cells, 'list'))
                    s.put(ref, s.obj(ref).set('__items__', b))
                    out.append((s, ref))
                return out
            b = st.new(Dct((), 'dict') if isdict else Lst((), 'list'))
            st.put(ref, st.obj(ref).set('__items__', b))
        if init is not None and init[1][0] == 'func':
            for s, v in self.call(FuncV(init[1][1]), [one(ref)] + list(pos), kw, st, fr, node):
                out.append((s, v if isinstance(v, Raise) else ref))
            return out
        isexc = any(isinstance(c, str) and 'builtins.BaseException' in ext_mro(c) for c in mro)
        if isexc:
            st.put(ref, st.obj(ref).set('args', Tup(pos)))
            return [(st, ref)]
        isdc = any('dataclass' in ast.unparse(d) for c in mro if isinstance(c, ClassInfo) for d in c.node.decorator_list)
        if isdc:
            o = st.obj(ref)
            p = list(pos)
            kwd = {c[1].v: c[2] for c in kw if c[0] == '1' and isinstance(c[1], Const)}
            for c in reversed([c for c in mro if isinstance(c, ClassInfo)]):
                for s_ in c.node.body:
                    if not (isinstance(s_, ast.AnnAssign) and isinstance(s_.target, ast.Name)):
                        continue
                    n = s_.target.id
                    if 'ClassVar' in ast.unparse(s_.annotation):
                        continue
                    if p and p[0][0] == '1':
                        o = o.set(n, p.pop(0)[1])
                    elif n in kwd:
                        o = o.set(n, kwd[n])
                    elif s_.value is not None:
                        res = [x for x in self.ev(s_.value, st, Frame(None, None, c.module, fr)) if not isinstance(x[1], Raise)]
                        v = res[0][1] if res else Term('field', n)
                        if isinstance(s_.value, ast.Call) and ast.unparse(s_.value.func).endswith('field'):
                            fk = {k.arg: k.value for k in s_.value.keywords}
                            if 'default_factory' in fk:
                                res = self.bind(self.ev(fk['default_factory'], st, Frame(None, None, c.module, fr)),
                                                lambda s, x: self.call(x, [], [], s, fr, node))
                                v = res[0][1] if res and not isinstance(res[0][1], Raise) else Term('field', n)
                            elif 'default' in fk:
                                res = self.ev(fk['default'], st, Frame(None, None, c.module, fr))
                                v = res[0][1]
                        o = o.set(n, v)
            st.put(ref, o)
            post = self.p.find_member(cls, '__post_init__')
            if post:
                return self.bind(self.call(FuncV(post[1][1]), [one(ref)], [], st, fr, node), lambda s, _: [(s, ref)])
        elif pos or kw:
            st.put(ref, st.obj(ref).set('__ctorargs__', Tup(pos)))
        return [(st, ref)]

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        frontier, out = [st], []
        for n in stmts:
            nxt = []
            for s in frontier:
                for s2, ctl in self.stmt(n, s, fr):
                    if ctl is None:
                        nxt.append(s2)
                    else:
                        out.append((s2, ctl))
            if len(nxt) > 6:
                nxt = self.dedupe(nxt, fr)
            frontier = nxt
            if not frontier:
                break
        return [(s, None) for s in frontier] + out

    def stmt(self, n, st, fr):
        self.tick()
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            st.blur(f'unsupported statement {type(n).__name__}')
            return [(st, None)]
        return m(n, st, fr)

    def _expr_then(self, results, fn):
        out = []
        for s, v in results:
            if isinstance(v, Raise):
                out.append((s, ('exc', v.exc)))
            else:
                out.extend(fn(s, v))
        return out

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        return self._expr_then(self.ev(n.value, st, fr), lambda s, v: [(s, None)])

    def s_Pass(self, n, st, fr):
        return [(st, None)]

    s_Global = s_Nonlocal = s_Import = s_Pass

    def s_Import(self, n, st, fr):
        env = st.frames.get(fr.fid)
        for al in n.names:
            if al.asname:
                env[al.asname] = ModV(al.name)
            else:
                env[al.name.split('.')[0]] = ModV(al.name.split('.')[0])
        return [(st, None)]

    def s_ImportFrom(self, n, st, fr):
        env = st.frames.get(fr.fid)
        base = fr.module.abs_from(n)
        for al in n.names:
            if base in self.p.modules:
                r = self.p.resolve(base, al.name)
                v = self.from_resolved(r, base, al.name, st, fr) if r else ModV(f'{base}.{al.name}')
            else:
                v = ExtV(f'{base}.{al.name}')
            env[al.asname or al.name] = v
        return [(st, None)]

    def s_Assert(self, n, st, fr):
        def go(s, v):
            out = []
            for s2, b in self.truth(v, s):
                if b:
                    out.append((s2, None))
                else:
                    out.append((s2, ('exc', self.raise_new(s2, 'builtins.AssertionError', n, fr).exc)))
            return out
        return self._expr_then(self.ev(n.test, st, fr), go)

    def s_Return(self, n, st, fr):
        if n.value is None:
            return [(st, ('ret', NONE))]
        return self._expr_then(self.ev(n.value, st, fr), lambda s, v: [(s, ('ret', v))])

    def s_Break(self, n, st, fr):
        return [(st, ('brk',))]

    def s_Continue(self, n, st, fr):
        return [(st, ('cont',))]

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            if st.excs:
                return [(st, ('exc', st.excs[-1]))]
            return [(st, ('exc', self.raise_new(st, 'builtins.RuntimeError', n, fr).exc))]

        def go(s, v):
            out = []
            if isinstance(v, (ClassV, ExtV)) or (isinstance(v, Term) and not isinstance(v, Ref)):
                rs = self.call(v, [], [], s, fr, n)
            else:
                rs = [(s, v)]
            for s2, x in rs:
                if isinstance(x, Raise):
                    out.append((s2, ('exc', x.exc)))
                    continue
                if not isinstance(x, Ref):
                    if isinstance(x, Term) and x.op == 'call' and isinstance(x.args[0], ExtV):
                        cls = x.args[0].name
                    else:
                        cls = 'builtins.Exception'
                        s2.blur('raise of unknown value')
                    x = s2.new(Inst(cls, (), cls != 'builtins.Exception', 'fresh', self.loc(n, fr)))
                else:
                    o = s2.heap.get(x.id)
                    if isinstance(o, Inst) and not o.origin:
                        s2.put(x, replace(o, origin=self.loc(n, fr)))
                if n.cause is not None:
                    for s3, c in self.ev(n.cause, s2, fr):
                        if not isinstance(c, Raise):
                            s3.put(x, s3.obj(x).set('__cause__', c))
                            out.append((s3, ('exc', x)))
                        else:
                            out.append((s3, ('exc', c.exc)))
                else:
                    out.append((s2, ('exc', x)))
            return out
        return self._expr_then(self.ev(n.exc, st, fr), go)

    def s_If(self, n, st, fr):
        def go(s, v):
            out = []
            for s2, b in self.truth(v, s):
                s2.trace = s2.trace[-14:] + (f'{n.lineno}{"+" if b else "-"}',)
                out.extend(self.block(n.body if b else n.orelse, s2, fr))
            return out
        out = []
        for s, b in self.cond(n.test, st, fr):
            if isinstance(b, Raise):
                out.append((s, ('exc', b.exc)))
                continue
            s.trace = s.trace[-14:] + (f'{n.lineno}{"+" if b else "-"}',)
            out.extend(self.block(n.body if b else n.orelse, s, fr))
        return out

    def cond(self, e, st, fr):
        """Evaluate a condition -> [(st, bool | Raise)], short circuiting."""
        if isinstance(e, ast.BoolOp):
            frontier = [st]
            out = []
            isand = isinstance(e.op, ast.And)
            for i, x in enumerate(e.values):
                nxt = []
                for s in frontier:
                    for s2, b in self.cond(x, s, fr):
                        if isinstance(b, Raise) or b != isand:
                            out.append((s2, b))
                        else:
                            nxt.append(s2)
                frontier = nxt
            return out + [(s, isand) for s in frontier]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, b if isinstance(b, Raise) else not b) for s, b in self.cond(e.operand, st, fr)]
        out = []
        for s, v in self.ev(e, st, fr):
            if isinstance(v, Raise):
                out.append((s, v))
            else:
                out.extend(self.truth(v, s))
        return out

    def s_While(self, n, st, fr):
        sid = f'while{fr.module.name}:{n.lineno}'
        out, exits = [], []
        seen, work = set(), [(st, 0, 0)]
        rounds, dropped = 0, False
        while work:
            s, depth, settled = work.pop()
            rounds += 1
            if rounds > self.loop_cap * 3:
                raise Budget()
            tests = list(self.cond(n.test, s, fr))
            for s1, b in tests:
                if isinstance(b, Raise):
                    out.append((s1, ('exc', b.exc)))
                    continue
                if not b:
                    exits.append(s1)
                    continue
                pre = dict(s1.heap)
                pe = len(s1.events)
                env_before = dict(s1.frames.get(fr.fid, {}))
                ends = list(self.block(n.body, s1, fr))
                # a round that could only go one way is no unknown number of rounds
                one_way = settled < 24 and len(tests) == 1 and len({c is None or c[0] == 'cont' for _, c in ends if c is None or c[0] in ('cont', 'brk')}) == 1
                for s2, ctl in ends:
                    if ctl is None or ctl[0] == 'cont':
                        if depth >= self.unroll and not one_way:
                            self.widen(s2, env_before, fr, sid, pre)
                        if depth >= self.unroll - 1 and not one_way:
                            new = s2.events[pe:]
                            if new:
                                g = frozenset(x for e in new for x in (e[2] if e[0] == 'loop' else (e,)))
                                head = s2.events[:pe]
                                if head and head[-1][0] == 'loop' and head[-1][1] == sid:
                                    s2.events = head[:-1] + (('loop', sid, head[-1][2] | g),)
                                else:
                                    s2.events = head + (('loop', sid, g),)
                        if self.while_limit and rounds == depth + 1 and not work and depth < 16:
                            work.append((s2, depth + 1, settled))    # one path so far: short loops need no look back
                            continue
                        k = canon(s2, fr)
                        if self.while_limit and (k in seen and rounds == depth + 1 and not s2.taint or depth >= self.while_limit):
                            raise Endless(self.loc(n, fr))
                        if k not in seen:
                            seen.add(k)
                            work.append((s2, depth + (not one_way), settled + one_way))
                        elif s2.taint:
                            exits.append(s2)    # seen before only as far as is known
                        else:
                            dropped = True
                    elif ctl[0] == 'brk':
                        out.append((s2, None))
                    else:
                        out.append((s2, ctl))
        if dropped and not out and not exits:
            raise Budget()
        for s in self.dedupe(exits, fr):
            out.extend(self.block(n.orelse, s, fr) if n.orelse else [(s, None)])
        return out

    def widen(self, st, env_before, fr, sid, pre):
        env = st.frames.get(fr.fid, {})
        for k, v in env.items():
            o = env_before.get(k)
            if o is not None and v != o and (isinstance(v, (Const, Aff)) or self.size(v) > 12):
                if isinstance(v, Const) and (v.v is None or isinstance(v.v, (bool, str))):
                    continue
                env[k] = Sym(f'widened:{k}', sid)
                st.blur('widened loop variable')
        for i, o in list(st.heap.items()):
            if isinstance(o, (Lst, Dct)) and i in pre and pre[i] is not o and len(o.cells) > len(pre[i].cells):
                old = set(pre[i].cells)
                cells = ()
                for c in o.cells:
                    if c[0] == '1' and c not in old:
                        c = ('*', sid, (c[1:][0],)) if len(c) == 2 else ('*', sid, ((c[1], c[2]),))
                    cells = add_star(cells, c) if c[0] == '*' else cells + (c,)
                st.heap[i] = replace(o, cells=cells)

    def size(self, v, d=0):
        if not isinstance(v, Term) or d > 20:
            return 1
        return 1 + sum(self.size(x, d + 1) for x in v.args if isinstance(x, (Term, Sym, Const, Tup)))

    def s_For(self, n, st, fr):
        def body(s, item):
            out = []
            for s2, c in self.assign(n.target, item, s, fr):
                if c is not None:
                    out.append((s2, c))
                else:
                    out.extend(self.block(n.body, s2, fr))
            return out
        out = []
        for s, it in self.ev(n.iter, st, fr):
            if isinstance(it, Raise):
                out.append((s, ('exc', it.exc)))
                continue
            for s2, ctl in self.iterate(it, s, fr, body, n):
                if ctl is None:
                    out.extend(self.block(n.orelse, s2, fr) if n.orelse else [(s2, None)])
                elif ctl[0] == 'brk':
                    out.append((s2, None))
                else:
                    out.append((s2, ctl))
        return out

    def s_Assign(self, n, st, fr):
        def go(s, v):
            frontier = [(s, None)]
            for t in n.targets:
                nxt = []
                for s1, c in frontier:
                    if c is not None:
                        nxt.append((s1, c))
                    else:
                        nxt.extend(self.assign(t, v, s1, fr))
                frontier = nxt
            return frontier
        return self._expr_then(self.ev(n.value, st, fr), go)

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [(st, None)]
        return self._expr_then(self.ev(n.value, st, fr), lambda s, v: self.assign(n.target, v, s, fr))

    def s_AugAssign(self, n, st, fr):
        load = ast.copy_location(type(n.target)(**{**{f: getattr(n.target, f) for f in n.target._fields}, 'ctx': ast.Load()}), n.target)

        def go(s, cur):
            def go2(s2, v):
                o = s2.heap.get(cur.id) if isinstance(cur, Ref) else None
                if isinstance(n.op, (ast.Add, ast.BitOr)) and isinstance(o, (Lst, Dct)):
                    from . import models as mm
                    nm = 'update' if isinstance(o, Dct) or o.kind == 'set' else 'extend'
                    r = mm.method(self, cur, nm, [one(v)], [], s2, fr, n)
                    return self._expr_then(r, lambda s3, _: self.assign(n.target, cur, s3, fr))
                if isinstance(cur, (Sym, Term)) and isinstance(n.op, (ast.Add, ast.BitOr, ast.Mult)) and self.kinds(cur, s2) & self.kinds(v, s2) & {'sequence', 'mapping'}:
                    # a list or dict is extended in place
                    r = self.container_ref(cur, s2)
                    if r is None or getattr(s2.heap.get(r.id), 'owner', 'fresh') != 'fresh':
                        s2.event('mutate', cur, 'augmented assignment', self.loc(n, fr))
                return self._expr_then(self.binop(n.op, cur, v, s2, fr, n), lambda s3, r: self.assign(n.target, r, s3, fr))
            return self._expr_then(self.ev(n.value, s, fr), go2)
        return self._expr_then(self.ev(load, st, fr), go)

    def assign(self, t, v, st, fr):
        """-> [(st, ctl)]"""
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, st, fr)
            return [(st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st, fr)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        if isinstance(t, ast.Attribute):
            return self._expr_then(self.ev(t.value, st, fr), lambda s, o: self.setattr(o, t.attr, v, s, fr, t))
        if isinstance(t, ast.Subscript):
            return self._expr_then(self.ev(t.value, st, fr), lambda s, o: self._expr_then(
                self.ev(t.slice, s, fr), lambda s2, k: self.setitem(o, k, v, s2, fr, t)))
        st.blur('unsupported target')
        return [(st, None)]

    def set_name(self, name, v, st, fr):
        fid = fr.fid
        f = fr.func
        # comprehension scopes write their own loop variables only
        if fid is not None and isinstance(fid, str) and fid.startswith('c') and fid in st.frames:
            st.frames[fid][name] = v
            return
        if f is not None and not f.is_lambda and name not in f.local_names:
            p = st.parents.get(fid)
            while p is not None:
                if p in st.frames and name in st.frames[p]:
                    st.frames[p][name] = v
                    return
                p = st.parents.get(p)
        if fid not in st.frames:
            st.frames[fid] = {}
            st.parents.setdefault(fid, None)
        st.frames[fid][name] = v

    def unpack(self, t, v, st, fr):
        out = []
        for s, cells in self.collect(v, st, fr, t):
            if isinstance(cells, Raise):
                out.append((s, ('exc', cells.exc)))
                continue
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = None
            if all(c[0] == '1' for c in cells):
                xs = [c[1] for c in cells]
                if not stars:
                    if len(xs) == len(t.elts):
                        vals = xs
                    else:
                        out.append((s, ('exc', self.raise_new(s, 'builtins.ValueError', t, fr).exc)))
                        continue
                else:
                    i = stars[0]
                    after = len(t.elts) - i - 1
                    if len(xs) < len(t.elts) - 1:
                        out.append((s, ('exc', self.raise_new(s, 'builtins.ValueError', t, fr).exc)))
                        continue
                    mid = xs[i:len(xs) - after]
                    vals = xs[:i] + [s.new(Lst(tuple(one(x) for x in mid)))] + xs[len(xs) - after:]
            if vals is None:
                if isinstance(v, (Sym, Term)):
                    vals = [Term('item', v, Const(i)) for i in range(len(t.elts))]
                    if stars:
                        s.blur('starred unpacking')
                else:
                    vals = [Term('unpacked', v, Const(i)) for i in range(len(t.elts))]
                    s.blur('unpacking a summarised sequence')
            frontier = [(s, None)]
            for e, x in zip(t.elts, vals):
                nxt = []
                for s1, c in frontier:
                    nxt.extend([(s1, c)] if c is not None else self.assign(e, x, s1, fr))
                frontier = nxt
            out.extend(frontier)
        return out

    def setattr(self, o, name, v, st, fr, node):
        if isinstance(o, Ref):
            x = st.heap.get(o.id)
            if isinstance(x, Inst):
                if isinstance(x.cls, ClassInfo):
                    for c in self.p.mro(x.cls):
                        if isinstance(c, ClassInfo) and name in c.setters:
                            return self._expr_then(self.call(FuncV(c.setters[name]), [one(o), one(v)], [], st, fr, node), lambda s, _: [(s, None)])
                    f = self.p.find_member(x.cls, '__setattr__')
                    if f is not None and f[1][0] == 'func' and not (fr.func is f[1][1]):
                        return self._expr_then(self.call(FuncV(f[1][1]), [one(o), one(Const(name)), one(v)], [], st, fr, node), lambda s, _: [(s, None)])
                st.put(o, x.set(name, v))
                if x.owner != 'fresh':
                    st.event('setattr', o, name, v, self.loc(node, fr))
                return [(st, None)]
        if isinstance(o, FuncV):
            st.data[('fattr', o, name)] = v
            return [(st, None)]
        if isinstance(o, ClassV):
            st.data[('cattr', o.info.full, name)] = v
            st.event('setclassattr', o, name, v)
            return [(st, None)]
        st.event('setattr', o, name, v, self.loc(node, fr))
        return [(st, None)]

    def setitem(self, o, k, v, st, fr, node):
        from . import models as mm
        return self._expr_then(mm.setitem(self, o, k, v, st, fr, node), lambda s, _: [(s, None)])

    def s_Delete(self, n, st, fr):
        from . import models as mm
        frontier = [(st, None)]
        for t in n.targets:
            nxt = []
            for s, c in frontier:
                if c is not None:
                    nxt.append((s, c))
                elif isinstance(t, ast.Name):
                    s.frames.get(fr.fid, {}).pop(t.id, None)
                    nxt.append((s, None))
                elif isinstance(t, ast.Attribute):
                    def da(s2, o, t=t):
                        if isinstance(o, Ref) and isinstance(s2.heap.get(o.id), Inst):
                            x = s2.obj(o)
                            if not x.has(t.attr):
                                return [(s2, ('exc', self.raise_new(s2, 'builtins.AttributeError', t, fr).exc))]
                            s2.put(o, x.drop(t.attr))
                        else:
                            s2.event('delattr', o, t.attr)
                        return [(s2, None)]
                    nxt.extend(self._expr_then(self.ev(t.value, s, fr), da))
                elif isinstance(t, ast.Subscript):
                    nxt.extend(self._expr_then(self.ev(t.value, s, fr), lambda s2, o, t=t: self._expr_then(
                        self.ev(t.slice, s2, fr), lambda s3, k: self._expr_then(
                            mm.delitem(self, o, k, s3, fr, t), lambda s4, _: [(s4, None)]))))
                else:
                    s.blur('unsupported del')
                    nxt.append((s, None))
            frontier = nxt
        return frontier

    def s_FunctionDef(self, n, st, fr):
        info = self.nested(n, fr)
        f = FuncV(info, fr.fid)
        res = [(st, f)]
        for d in reversed(n.decorator_list):
            nm = ast.unparse(d).split('(')[0].split('.')[-1]
            if nm in ('contextmanager', 'wraps', 'overload', 'staticmethod', 'classmethod', 'property'):
                continue
            res = self.bind(res, lambda s, cur, d=d: self.bind(
                self.ev(d, s, fr), lambda s2, dv: self.call(dv, [one(cur)], [], s2, fr, n)))
        out = []
        for s, v in res:
            if isinstance(v, Raise):
                out.append((s, ('exc', v.exc)))
            else:
                self.set_name(n.name, v, s, fr)
                out.append((s, None))
        return out

    def nested(self, n, fr):
        key = id(n)
        cache = getattr(self, '_nested', None)
        if cache is None:
            cache = self._nested = {}
        if key not in cache:
            q = (fr.func.qualname + '.' if fr.func else '') + getattr(n, 'name', '<lambda>')
            cache[key] = (FuncInfo(fr.module, n, q, fr.func.cls if fr.func else None), n)
        return cache[key][0]

    def s_ClassDef(self, n, st, fr):
        cache = self.__dict__.setdefault('_lclasses', {})
        if id(n) not in cache:
            cache[id(n)] = ClassInfo(fr.module, n, (fr.func.qualname + '.' if fr.func else '') + n.name)
        self.set_name(n.name, ClassV(cache[id(n)]), st, fr)
        return [(st, None)]

    # -- exceptions --------------------------------------------------------
    def exc_match(self, exc, types, st):
        """Can the exception object be an instance of one of the handler types?
        -> 'yes' | 'no' | 'maybe'"""
        o = st.heap.get(exc.id)
        if not isinstance(o, Inst):
            return 'maybe'
        best = 'no'
        for t in types:
            of = t.info if isinstance(t, ClassV) else (t.name if isinstance(t, ExtV) else None)
            if of is None:
                best = 'maybe' if best == 'no' else best
                continue
            sub = self.p.is_subclass(o.cls, of)
            if sub:
                return 'yes'
            if sub is None:
                best = 'maybe'
            elif not o.exact:
                ruled = o.get('__not__')
                if ruled is not None and any(r == of or self.p.is_subclass(of, r) for r in ruled):
                    continue
                if o.get('__only__') is not None:
                    continue
                # a subclass of o.cls might still be an instance of `of`
                if self.p.is_subclass(of, o.cls):
                    best = 'maybe'
                elif isinstance(of, str) and isinstance(o.cls, ClassInfo):
                    for c in self.p.classes():
                        if self.p.is_subclass(c, o.cls) and self.p.is_subclass(c, of):
                            best = 'maybe'
        return best

    def rule_out(self, exc, types, st):
        o = st.obj(exc)
        cur = o.get('__not__') or ()
        add = tuple(t.info if isinstance(t, ClassV) else t.name for t in types if isinstance(t, (ClassV, ExtV)))
        st.put(exc, o.set('__not__', tuple(cur) + add))

    def handler_types(self, h, st, fr):
        if h.type is None:
            return [(st, (ExtV('builtins.BaseException'),))]
        out = []
        for s, v in self.ev(h.type, st, fr):
            if isinstance(v, Raise):
                out.append((s, (v,)))
                continue
            out.append((s, self.flat_types(v, s)))
        return out

    def flat_types(self, v, st):
        c = self.container(v, st) if isinstance(v, (Tup, Ref)) else None
        if c is not None:
            out = ()
            for x in c.cells:
                if x[0] == '1':
                    out += self.flat_types(x[1], st)
            return out
        return (v,)

    def s_Try(self, n, st, fr):
        out = []
        base = st.excs
        for s, ctl in self.block(n.body, st, fr):
            if ctl is None:
                out.extend(self.block(n.orelse, s, fr) if n.orelse else [(s, None)])
            elif ctl[0] == 'exc' and n.handlers:
                out.extend(self.handle(n.handlers, 0, s, ctl[1], fr))
            else:
                out.append((s, ctl))
        if n.finalbody:
            res = []
            for s, ctl in out:
                saved = s.excs
                if ctl is not None and ctl[0] == 'exc':
                    s.excs = s.excs + (ctl[1],)
                for s2, c2 in self.block(n.finalbody, s, fr):
                    s2.excs = saved
                    res.append((s2, ctl if c2 is None else c2))
            out = res
        return out

    s_TryStar = s_Try

    def handle(self, handlers, i, st, exc, fr):
        if i == len(handlers):
            return [(st, ('exc', exc))]
        h = handlers[i]
        out = []
        for s, types in self.handler_types(h, st, fr):
            m = self.exc_match(exc, types, s)
            if m == 'no':
                out.extend(self.handle(handlers, i + 1, s, exc, fr))
                continue
            if m == 'maybe':
                s2 = s.fork()
                self.rule_out(exc, types, s2)
                out.extend(self.handle(handlers, i + 1, s2, exc, fr))
                o = s.obj(exc)
                if len(types) == 1 and isinstance(types[0], (ClassV, ExtV)):
                    c = types[0].info if isinstance(types[0], ClassV) else types[0].name
                    s.put(exc, replace(o, cls=c))
            if h.name:
                self.set_name(h.name, exc, s, fr)
            saved = s.excs
            s.excs = s.excs + (exc,)
            s.trace = s.trace[-14:] + (f'{h.lineno}except',)
            for s3, ctl in self.block(h.body, s, fr):
                s3.excs = saved
                if ctl is not None and ctl[0] == 'exc' and ctl[1] != exc and isinstance(s3.heap.get(ctl[1].id), Inst):
                    o = s3.obj(ctl[1])
                    if not o.has('__context__'):
                        s3.put(ctl[1], o.set('__context__', exc))
                if h.name:
                    s3.frames.get(fr.fid, {}).pop(h.name, None)
                out.append((s3, ctl))
        return out

    def s_With(self, n, st, fr, i=0):
        if i == len(n.items):
            return self.block(n.body, st, fr)
        item = n.items[i]

        def enter(s, cm):
            return self.with_cm(cm, s, fr, item.optional_vars, lambda s2: self.s_With(n, s2, fr, i + 1), item.context_expr)
        return self._expr_then(self.ev(item.context_expr, st, fr), enter)

    def with_cm(self, cm, st, fr, target, body, node):
        """Run body() inside the context manager value cm -> [(st, ctl)]"""
        if isinstance(cm, Ref):
            o = st.heap.get(cm.id)
            if isinstance(o, GenObj):
                gfr = Frame(o.fid, o.info, o.info.module, fr)

                def handler(s, val):
                    out = []
                    pre = [(s, None)]
                    if target is not None:
                        pre = self.assign(target, val, s, fr)
                    for s0, c0 in pre:
                        if c0 is not None:
                            out.append((s0, Raise(c0[1])))
                            continue
                        for s2, ctl in body(s0):
                            if ctl is None:
                                s2.pending = s2.pending + (None,)
                                out.append((s2, NONE))
                            elif ctl[0] == 'exc':
                                s2.pending = s2.pending + (None,)
                                out.append((s2, Raise(ctl[1])))
                            else:
                                s2.pending = s2.pending + (ctl,)
                                out.append((s2, NONE))
                    return out
                gfr.yield_handler = handler
                depth = len(st.pending)
                out = []
                for s, ctl in self.block(o.info.node.body, st, gfr):
                    p = s.pending[-1] if len(s.pending) > depth else 'noyield'
                    s.pending = s.pending[:-1] if len(s.pending) > depth else s.pending
                    if ctl is not None and ctl[0] == 'exc':
                        out.append((s, ctl))
                    elif p == 'noyield':
                        out.append((s, ('exc', self.raise_new(s, 'builtins.RuntimeError', node, fr).exc)))
                    else:
                        out.append((s, p))
                return out
            if isinstance(o, Inst) and isinstance(o.cls, ClassInfo) and self.p.find_member(o.cls, '__exit__'):
                out = []
                en = self.p.find_member(o.cls, '__enter__')
                ex = self.p.find_member(o.cls, '__exit__')
                for s, v in self.call(FuncV(en[1][1]), [one(cm)], [], st, fr, node):
                    if isinstance(v, Raise):
                        out.append((s, ('exc', v.exc)))
                        continue
                    pre = self.assign(target, v, s, fr) if target is not None else [(s, None)]
                    for s0, c0 in pre:
                        for s2, ctl in (body(s0) if c0 is None else [(s0, c0)]):
                            if ctl is not None and ctl[0] == 'exc':
                                eo = s2.heap.get(ctl[1].id)
                                et = ClassV(eo.cls) if isinstance(eo.cls, ClassInfo) else ExtV(eo.cls)
                                args = [one(et), one(ctl[1]), one(Term('tb'))]
                            else:
                                args = [one(NONE)] * 3
                            for s3, r in self.call(FuncV(ex[1][1]), [one(cm)] + args, [], s2, fr, node):
                                if isinstance(r, Raise):
                                    out.append((s3, ('exc', r.exc)))
                                elif ctl is not None and ctl[0] == 'exc':
                                    for s4, b in self.truth(r, s3):
                                        out.append((s4, None if b else ctl))
                                else:
                                    out.append((s3, ctl))
                return out
        if isinstance(cm, LazyV) and cm.op == 'suppress':
            types = tuple(t for a in cm.args for t in self.flat_types(a, st))
            out = []
            for s, ctl in body(st):
                if ctl is not None and ctl[0] == 'exc':
                    m = self.exc_match(ctl[1], types, s)
                    if m == 'yes':
                        out.append((s, None))
                    elif m == 'no':
                        out.append((s, ctl))
                    else:
                        s2 = s.fork()
                        self.rule_out(ctl[1], types, s2)
                        out.extend([(s, None), (s2, ctl)])
                else:
                    out.append((s, ctl))
            return out
        # external context manager
        v = Term('entered', cm)
        st.event('enter', cm)
        out = []
        pre = self.assign(target, v, st, fr) if target is not None else [(st, None)]
        for s0, c0 in pre:
            for s2, ctl in (body(s0) if c0 is None else [(s0, c0)]):
                s2.event('exit', cm)
                out.append((s2, ctl))
        return out

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            st.blur(f'unsupported expression {type(e).__name__}')
            return [(st, Term('unsupported', type(e).__name__, getattr(e, 'lineno', 0)))]
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        if e.value is Ellipsis and not self.host:
            return [(st, Term('ellipsis'))]
        return [(st, Const(e.value))]

    def e_Name(self, e, st, fr):
        v = self.lookup(e.id, st, fr)
        if isinstance(v, Term) and v.op == 'unbound':
            if fr.func is not None and not fr.func.is_lambda and e.id in fr.func.local_names:
                return [(st, self.raise_new(st, 'builtins.UnboundLocalError', e, fr))]
            st.blur(f'unresolved name {e.id}')
        return [(st, v)]

    def e_Attribute(self, e, st, fr):
        return self.bind(self.ev(e.value, st, fr), lambda s, v: self.getattr(v, e.attr, s, fr, e))

    def e_NamedExpr(self, e, st, fr):
        def go(s, v):
            # binds in the enclosing function scope, even inside comprehensions
            fid = fr.fid
            while isinstance(fid, str) and fid.startswith('c') and s.parents.get(fid) is not None:
                fid = s.parents[fid]
            s.frames.setdefault(fid, {})[e.target.id] = v
            return [(s, v)]
        return self.bind(self.ev(e.value, st, fr), go)

    def e_Lambda(self, e, st, fr):
        return [(st, FuncV(self.nested(e, fr), fr.fid))]

    def e_IfExp(self, e, st, fr):
        out = []
        for s, b in self.cond(e.test, st, fr):
            if isinstance(b, Raise):
                out.append((s, b))
            else:
                out.extend(self.ev(e.body if b else e.orelse, s, fr))
        return out

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        frontier, out = [st], []
        for i, x in enumerate(e.values):
            nxt = []
            last = i == len(e.values) - 1
            for s in frontier:
                for s2, v in self.ev(x, s, fr):
                    if isinstance(v, Raise) or last:
                        out.append((s2, v))
                        continue
                    for s3, b in self.truth(v, s2):
                        if b != isand:
                            out.append((s3, v))
                        else:
                            nxt.append(s3)
            frontier = nxt
        return out

    def e_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            out = []
            for s, b in self.cond(e.operand, st, fr):
                out.append((s, b if isinstance(b, Raise) else mk(not b)))
            return out

        def go(s, v):
            if isinstance(v, Const) and isinstance(v.v, (int, float)):
                x = v.v
                return [(s, Const(-x if isinstance(e.op, ast.USub) else (+x if isinstance(e.op, ast.UAdd) else ~x)))]
            if isinstance(v, Aff) and isinstance(e.op, ast.USub):
                return [(s, self.aff_add(Aff({}, 0), v, -1))]
            if v in s.num and isinstance(e.op, ast.USub):
                t = Term('neg', v)
                s.num[t] = {'neg': 'pos', 'pos': 'neg'}.get(s.num[v], s.num[v])
                return [(s, t)]
            return [(s, Term(type(e.op).__name__, v))]
        return self.bind(self.ev(e.operand, st, fr), go)

    def e_BinOp(self, e, st, fr):
        return self.bind(self.ev(e.left, st, fr), lambda s, a: self.bind(
            self.ev(e.right, s, fr), lambda s2, b: self.binop(e.op, a, b, s2, fr, e)))

    def binop(self, op, a, b, st, fr, node):
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y,
                     ast.Mod: lambda x, y: x % y, ast.FloorDiv: lambda x, y: x // y, ast.Div: lambda x, y: x / y,
                     ast.Pow: lambda x, y: x ** y if abs(y) < 64 else None, ast.BitOr: lambda x, y: x | y,
                     ast.BitAnd: lambda x, y: x & y, ast.BitXor: lambda x, y: x ^ y}.get(type(op))
                if f is not None:
                    return [(st, Const(f(a.v, b.v)))]
            except Exception:
                return [(st, self.raise_new(st, 'builtins.TypeError', node, fr))]
        if text.is_text(a) or text.is_text(b):
            r = text.add(self, a, b) if isinstance(op, ast.Add) else None
            if r is not None:
                return [(st, r)]
            if isinstance(op, ast.Mult):
                t, n = (a, b) if text.is_text(a) else (b, a)
                if isinstance(n, Const) and type(n.v) is int and n.v < 16:
                    return [(st, text.make(text.cells(t) * max(0, n.v)))]
            if isinstance(op, ast.Add) and self.is_strlike(a, st) and self.is_strlike(b, st):
                return [(st, self.concat(st, [a, b]))]
            st.blur('operator on a text')
            return [(st, Term(type(op).__name__, a, b))]
        x, y = self.aff(a), self.aff(b)
        if x is not None and y is not None:
            if isinstance(op, ast.Add):
                return [(st, self.aff_add(x, y))]
            if isinstance(op, ast.Sub):
                return [(st, self.aff_add(x, y, -1))]
            if isinstance(op, ast.Mult):
                if not x.coefs:
                    return [(st, Aff({k: v * x.c for k, v in y.coefs.items()}, y.c * x.c))]
                if not y.coefs:
                    return [(st, Aff({k: v * y.c for k, v in x.coefs.items()}, y.c * x.c))]
        if isinstance(op, ast.Add):
            ca, cb = self.container(a, st), self.container(b, st)
            if ca is not None and cb is not None and not isinstance(ca, Dct) and not isinstance(cb, Dct):
                cells = tuple(ca.cells) + tuple(cb.cells)
                if isinstance(ca, Tup):
                    return [(st, Tup(cells))]
                if isinstance(ca, Lst) and isinstance(ca.sym, (Sym, Term)):
                    return [(st, Tup(cells))]
                return [(st, st.new(Lst(cells, ca.kind)))]
            if isinstance(a, Ref) and isinstance(st.heap.get(a.id), Inst):
                c = st.obj(a).cls
                if isinstance(c, ClassInfo):
                    f = self.p.find_member(c, '__add__')
                    if f and f[1][0] == 'func':
                        return self.call(FuncV(f[1][1]), [one(a), one(b)], [], st, fr, node)
            if self.is_strlike(a, st) or self.is_strlike(b, st):
                return [(st, self.concat(st, [a, b]))]
        if isinstance(op, ast.BitOr):
            ca, cb = self.container(a, st), self.container(b, st)
            if isinstance(ca, Dct) and isinstance(cb, Dct):
                from . import models as mm
                r = st.new(Dct(ca.cells))
                return self.bind(mm.method(self, r, 'update', [one(b)], [], st, fr, node), lambda s, _: [(s, r)])
            if isinstance(ca, Lst) and isinstance(cb, Lst):
                r = st.new(Lst(ca.cells, ca.kind))
                from . import models as mm
                return self.bind(mm.method(self, r, 'update', [one(b)], [], st, fr, node), lambda s, _: [(s, r)])
        if isinstance(op, ast.Mod) and self.is_strlike(a, st):
            return [(st, Term('fstr', a, b))]
        ca, cb = self.container(a, st), self.container(b, st)
        if isinstance(op, (ast.Sub, ast.BitAnd, ast.BitXor)) and isinstance(ca, Lst) and isinstance(cb, Lst) and ca.kind == cb.kind == 'set':
            from . import models as mm
            return mm.set_op(self, {'Sub': 'difference', 'BitAnd': 'intersection', 'BitXor': 'symmetric_difference'}[type(op).__name__], ca, cb.cells, st)
        if isinstance(op, ast.Mult):
            for x, cx, y in ((a, ca, b), (b, cb, a)):
                if isinstance(cx, (Tup, Lst)) and isinstance(y, Const) and isinstance(y.v, int) and 0 <= y.v < 16:
                    cells = tuple(cx.cells) * y.v
                    return [(st, Tup(cells) if isinstance(cx, Tup) else st.new(Lst(cells, cx.kind)))]
        for x, nm, y in ((a, OPERATORS.get(type(op).__name__), b), (b, 'r' + OPERATORS.get(type(op).__name__, ''), a)):
            f = self.own_method(x, f'__{nm}__', st)
            if f is not None:
                return self.call(FuncV(f), [one(x), one(y)], [], st, fr, node)
        if ca is not None or cb is not None:
            st.blur(f'operator {type(op).__name__} on a container')
        return [(st, Term(type(op).__name__, a, b))]

    def own_method(self, v, name, st):
        o = st.heap.get(v.id) if isinstance(v, Ref) else None
        if isinstance(o, Inst) and isinstance(o.cls, ClassInfo):
            f = self.p.find_member(o.cls, name)
            if f and f[1][0] == 'func':
                return f[1][1]
        return None

    def is_strlike(self, v, st):
        return self.kinds(v, st) <= frozenset(('str', 'missing'))

    def e_Compare(self, e, st, fr):
        def chain(s, left, ops, comps):
            if not ops:
                return [(s, TRUE)]

            def go(s2, right):
                out = []
                for s3, b in self.compare(ops[0], left, right, s2, fr, e):
                    if isinstance(b, Raise):
                        out.append((s3, b))
                    elif not b:
                        out.append((s3, FALSE))
                    elif len(ops) == 1:
                        out.append((s3, TRUE))
                    else:
                        out.extend(chain(s3, right, ops[1:], comps[1:]))
                return out
            return self.bind(self.ev(comps[0], s, fr), go)
        return self.bind(self.ev(e.left, st, fr), lambda s, v: chain(s, v, e.ops, e.comparators))

    def compare(self, op, a, b, st, fr, node):
        """-> [(st, bool|Raise)]"""
        if self.cmp_hook is not None:
            r = self.cmp_hook(self, op, a, b, st, fr, node)
            if r is not None:
                return r
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.same(a, b, st, identity=True)
            return [(s, x if isinstance(op, ast.Is) else not x) for s, x in r]
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.same(a, b, st)
            return [(s, x if isinstance(op, ast.Eq) else not x) for s, x in r]
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, st, fr, node)
            return [(s, x if isinstance(x, Raise) or isinstance(op, ast.In) else not x) for s, x in r]
        nm = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}[type(op)]
        return self.order(nm, a, b, st, fr, node)

    def order(self, nm, a, b, st, fr, node):
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return [(st, {'lt': a.v < b.v, 'le': a.v <= b.v, 'gt': a.v > b.v, 'ge': a.v >= b.v}[nm])]
            except Exception:
                return [(st, self.raise_new(st, 'builtins.TypeError', node, fr))]
        flip = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}
        for x, m, y in ((a, nm, b), (b, flip[nm], a)):
            f = self.own_method(x, f'__{m}__', st)
            if f is not None:
                out = []
                for s, r in self.call(FuncV(f), [one(x), one(y)], [], st, fr, node):
                    out.extend([(s, r)] if isinstance(r, Raise) else self.truth(r, s))
                return out
        ca, cb = self.container(a, st), self.container(b, st)
        if isinstance(ca, Lst) and isinstance(cb, Lst) and ca.kind == cb.kind == 'set':
            from . import models as mm
            if nm in ('gt', 'ge'):
                ca, cb, nm = cb, ca, flip[nm]
            out = []
            for s, r in mm.subset(self, ca, cb, st):
                if nm == 'le' or not r:
                    out.append((s, r))
                else:
                    out.extend((s2, not r2) for s2, r2 in mm.subset(self, cb, ca, s))
            return out
        if isinstance(ca, (Tup, Lst)) and isinstance(cb, (Tup, Lst)):
            from . import models as mm
            ka, kb = (mm.sort_key(Tup(c.cells)) for c in (ca, cb))
            if ka is not None and kb is not None:
                return self.order(nm, Const(ka), Const(kb), st, fr, node)
        if ca is not None or cb is not None:
            st.blur('comparison of containers')
        if b in st.num and isinstance(a, Const):
            a, b, nm = b, a, flip[nm]
        if a in st.num and isinstance(b, Const) and isinstance(b.v, (int, float)):
            r = self.num_cmp(st.num[a], nm, b.v)
            if r is not None:
                return [(st, r)]
            return self.fact(st, Term(nm, a, b))
        x, y = self.aff(a), self.aff(b)
        if x is not None and y is not None:
            return self.aff_cmp(st, x, y, nm)
        # len() against a constant: emptiness
        if isinstance(b, Term) and b.op == 'len' and isinstance(a, Const):
            a, b, nm = b, a, flip[nm]
        if isinstance(a, Term) and a.op == 'len' and isinstance(b, Const) and isinstance(b.v, int):
            if (nm, b.v) in (('gt', 0), ('ge', 1)):
                return self.truth_len(a, st)
            if (nm, b.v) in (('lt', 1), ('le', 0)):
                return [(s, not x) for s, x in self.truth_len(a, st)]
            if (nm, b.v) == ('ge', 0):
                return [(st, True)]
            if (nm, b.v) == ('lt', 0):
                return [(st, False)]
        if nm in ('gt', 'ge'):
            nm2, p, q = flip[nm], b, a
        else:
            nm2, p, q = nm, a, b
        return self.fact(st, Term(nm2, p, q))

    def num_cmp(self, region, nm, c):
        if region == 'nan':
            return False
        if region == 'zero':
            return {'lt': 0 < c, 'le': 0 <= c, 'gt': 0 > c, 'ge': 0 >= c}[nm]
        if region == 'pos':
            if c <= 0:
                return nm in ('gt', 'ge')
            return None
        if region == 'neg':
            if c >= 0:
                return nm in ('lt', 'le')
            return None
        return None

    def same(self, a, b, st, identity=False):
        """Equality / identity -> [(st, bool)]"""
        if isinstance(a, Const) and isinstance(b, Const):
            if identity:
                return [(st, a == b)]
            try:
                return [(st, bool(a.v == b.v))]
            except Exception:
                return [(st, False)]
        if text.is_text(a) or text.is_text(b):
            r = text.same(self, a, b, st)
            if r is not None:
                return [(st, r)]
            ka, kb = self.kinds(a, st), self.kinds(b, st)
            if not (ka & kb) and 'other' not in ka | kb:
                return [(st, False)]
            if a != b:
                return self.fact(st, self.eqterm(a, b))
        for x, y in ((a, b), (b, a)):
            if x in st.num and isinstance(y, Const) and isinstance(y.v, (int, float)) and not identity:
                r = st.num[x]
                if r == 'nan' or (r == 'zero') != (y.v == 0) or (r == 'pos' and y.v < 0) or (r == 'neg' and y.v > 0):
                    return [(st, r == 'zero' and y.v == 0)]
                if r == 'zero':
                    return [(st, True)]
                return self.fact(st, self.eqterm(a, b))
        if not identity and (st.num.get(a) == 'nan' or st.num.get(b) == 'nan'):
            return [(st, False)]
        if a == b:
            if self.nan_self and not identity and isinstance(a, Sym) and a not in st.num and self.kinds(a, st) == frozenset(('float',)):
                s2 = st.fork()
                s2.num = dict(s2.num)
                s2.num[a] = 'nan'
                return [(st, True), (s2, False)]
            return [(st, True)]
        xa, xb = self.aff(a), self.aff(b)
        if xa is not None and xb is not None and (isinstance(a, Aff) or isinstance(b, Aff)):
            return self.aff_cmp(st, xa, xb, 'eq')
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Const):
                if isinstance(x, Term) and x.op == 'len' and isinstance(y.v, int):
                    if y.v == 0:
                        return [(s, not t) for s, t in self.truth_len(x, st)]
                    if y.v < 0:
                        return [(st, False)]
                ky = self.kinds(y, st)
                if y.v is None:
                    return self.split_kinds(st, x, frozenset(('none',)))
                if isinstance(y.v, str) and y.v == MISSING_TEXT:
                    return self.split_kinds(st, x, frozenset(('missing',)))
                kx = self.kinds(x, st)
                if isinstance(y.v, (bool, int, float)):
                    comp = frozenset(('bool', 'int', 'float', 'other'))
                    if identity:
                        comp = ky
                elif isinstance(y.v, str):
                    comp = frozenset(('str', 'other'))
                    if identity:
                        comp = frozenset(('str',))
                else:
                    comp = ALL_KINDS
                if not (kx & comp):
                    return [(st, False)]
                if isinstance(x, (Ref, Tup, FuncV, ClassV, BoundV)):
                    return [(st, False)]
                # equal to one constant excludes equality with another
                for t, val in list(st.facts.items()):
                    if val is True and isinstance(t, Term) and t.op == 'eq' and x in t.args:
                        o = t.args[0] if t.args[1] == x else t.args[1]
                        if isinstance(o, Const):
                            return [(st, o.v == y.v and not (identity and o != y))]
                return self.fact(st, self.eqterm(x, y))
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = st.heap.get(a.id), st.heap.get(b.id)
            if identity:
                return [(st, False)]
            if isinstance(oa, Inst) and isinstance(ob, Inst):
                ia, ib = oa.get('__items__'), ob.get('__items__')
                if ia is not None and ib is not None and oa.cls is ob.cls and not self.has_eq(oa):
                    return self.same_cells(self.container(ia, st).cells, self.container(ib, st).cells, st, self.eqterm(a, b))
                return [(st, False)] if not self.has_eq(oa) and not self.has_eq(ob) else self.fact(st, self.eqterm(a, b))
            ca, cb = self.container(a, st), self.container(b, st)
            if ca is not None and cb is not None and not ca.cells and not cb.cells:
                return [(st, True)]
            return self.fact(st, self.eqterm(a, b))
        if isinstance(a, Sym) and isinstance(b, Sym) and a.group and a.group == b.group:
            return [(st, False)]
        if self.inj_distinct(a, b, st):
            return [(st, False)]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Term) and x.op == 'type' and isinstance(y, ExtV) and y.name in EXACT_KINDS and not (self.kinds(x.args[0], st) & EXACT_KINDS[y.name]):
                return [(st, False)]
        if identity and getattr(self, 'private_identity', False):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and isinstance(st.heap.get(x.id), Inst) and isinstance(y, (Sym, Term)):
                    return [(st, False)]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Tup) and isinstance(y, Tup):
                if not identity and not x.cells and not y.cells:
                    return [(st, True)]
                if (x.cells and not y.cells and any(c[0] == '1' for c in x.cells)):
                    return [(st, False)]
                if not identity and all(c[0] == '1' and len(c) == 2 for c in x.cells + y.cells):
                    return self.same_cells(x.cells, y.cells, st, None)
            if isinstance(x, (ClassV, ExtV, FuncV, ModV)) and isinstance(y, (ClassV, ExtV, FuncV, ModV)):
                if isinstance(x, ExtV) and isinstance(y, ExtV) and self.alias(x) == self.alias(y):
                    return [(st, True)]
                return [(st, False)]
            if isinstance(x, Ref) and isinstance(st.heap.get(x.id), Inst) and isinstance(y, (Tup, FuncV, ClassV, Aff)):
                return [(st, False)]
            if isinstance(x, Ref) and identity and isinstance(y, (Sym, Term)) and isinstance(st.heap.get(x.id), Inst) and st.heap[x.id].cls == 'builtins.object':
                if not (isinstance(y, Term) and y.op in ('usercall', 'U')):
                    return [(st, False)]
            if isinstance(x, Ref) and identity and isinstance(y, (Sym, Term)) and isinstance(st.heap.get(x.id), (Lst, Dct)) and st.heap[x.id].owner == 'fresh' and not st.data.get('escaped'):
                if not (isinstance(y, Term) and y.op in ('usercall', 'U')):
                    return [(st, False)]
        ka, kb = self.kinds(a, st), self.kinds(b, st)
        if identity and not (ka & kb):
            return [(st, False)]
        if not identity and not (ka & kb) and not ({'other'} & (ka | kb)) and not (
                (ka | kb) <= frozenset(('bool', 'int', 'float'))):
            return [(st, False)]
        # x is known to be equal to something distinct
        return self.fact(st, Term('is', *sorted((a, b), key=repr)) if identity else self.eqterm(a, b))

    def alias(self, v):
        n = v.name
        return {'typing.List': 'builtins.list'}.get(n, n)

    def same_cells(self, a, b, st, fallback):
        if any(c[0] != '1' or len(c) != 2 for c in a + b):
            return self.fact(st, fallback)
        if len(a) != len(b):
            return [(st, False)]
        out, front = [], [st]
        for x, y in zip(a, b):
            nxt = []
            for s in front:
                for s2, r in self.same(x[1], y[1], s):
                    nxt.append(s2) if r else out.append((s2, False))
            front = nxt
        return out + [(s, True) for s in front]

    def has_eq(self, o):
        if isinstance(o.cls, ClassInfo):
            return self.p.find_member(o.cls, '__eq__') is not None
        return True

    def eqterm(self, a, b):
        return Term('eq', *sorted((a, b), key=repr))

    def unhashable(self, v, st):
        if not self.hash_check:
            return False
        if isinstance(v, Ref):
            return isinstance(st.heap.get(v.id), (Lst, Dct))
        if isinstance(v, Tup):
            return any(self.unhashable(x, st) for c in v.cells if c[0] == '1' for x in c[1:])
        return isinstance(v, (Sym, Term)) and (v in st.content or self.kinds(v, st) <= frozenset(('mapping', 'sequence')))

    def contains(self, a, b, st, fr, node):
        """a in b -> [(st, bool|Raise)]"""
        if self.hash_check and self.unhashable(a, st):
            o = self.container(b, st)
            if isinstance(o, Dct) or getattr(o, 'kind', '') == 'set':
                return [(st, self.raise_new(st, 'builtins.TypeError', node, fr))]
        if isinstance(b, Const) and isinstance(a, Const):
            try:
                return [(st, a.v in b.v)]
            except Exception:
                return [(st, self.raise_new(st, 'builtins.TypeError', node, fr))]
        if text.is_text(b) or text.is_text(a) and isinstance(b, (Const, Term)) and self.is_strlike(b, st):
            r = text.contains(self, a, b, st)
            if r is not None:
                return [(st, r)]
            if not self.is_strlike(a, st) and 'other' not in self.kinds(a, st):
                return [(st, self.raise_new(st, 'builtins.TypeError', node, fr))]
            if self.plain_text:
                st.blur('membership in something unknown')
            return self.fact(st, Term('in', a, b))
        if isinstance(b, LazyV) and b.op == 'keys':
            b = b.args[0]
        if isinstance(b, Ref) and isinstance(st.heap.get(b.id), Inst):
            o = st.obj(b)
            if isinstance(o.cls, ClassInfo):
                f = self.p.find_member(o.cls, '__contains__')
                if f is not None and f[1][0] == 'func':
                    out = []
                    for s, v in self.call(FuncV(f[1][1]), [one(b), one(a)], [], st, fr, node):
                        out.extend([(s, v)] if isinstance(v, Raise) else self.truth(v, s))
                    return out
                f = self.p.find_member(o.cls, '__getitem__')
                if o.get('__items__') is None and any(isinstance(x, str) and x.endswith('Mapping') for x in self.p.mro(o.cls)) and f is not None and f[1][0] == 'func':
                    from . import models as mm
                    return [(s, v if isinstance(v, Raise) else v == TRUE) for s, v in mm.mapping_contains(self, FuncV(f[1][1]), b, a, st, fr, node)]
        o = self.container(b, st)
        if o is None and isinstance(b, LazyV):
            c = self.seq_cells(b, st)
            if c is not None:
                o = Tup(c)
        if o is None:
            if isinstance(b, (Sym, Term)) and self.kinds(b, st) <= frozenset(('mapping',)):
                o = self.container(b, st)
            else:
                if self.plain_text:
                    st.blur('membership in something unknown')
                return self.fact(st, Term('in', a, b))
        return self.member(a, o, b, st)

    def member(self, a, o, b, st):
        cells = o.cells
        ref = self.container_ref(b, st) if not isinstance(b, Tup) else None
        out, frontier = [], [st]
        for c in cells:
            nxt = []
            for s in frontier:
                if c[0] == '1':
                    for s2, r in self.same(a, c[1], s):
                        if r:
                            out.append((s2, True))
                        else:
                            nxt.append(s2)
                else:
                    keys = [x[0] for x in c[2]] if isinstance(o, Dct) else list(c[2])
                    if a in keys and c[1] in s.active:
                        # generic item against the matching generic cell
                        t = Term('present', a, b)
                        for s2, r in self.fact(s, t):
                            if r:
                                out.append((s2, True))
                            else:
                                if ref is not None:
                                    s2.consumed = s2.consumed | {(ref, c[1])}
                                nxt.append(s2)
                        continue
                    if all(self.distinct(a, k, s) for k in keys):
                        nxt.append(s)
                        continue
                    for s2, r in self.fact(s, Term('instar', a, b, c[1])):
                        (out.append((s2, True)) if r else nxt.append(s2))
            frontier = nxt
        return out + [(s, False) for s in frontier]

    def inj_distinct(self, a, b, st):
        """Applications of an operation assumed to be injective."""
        return (isinstance(a, Term) and isinstance(b, Term) and a.op == b.op and a.op in self.injective
                and len(a.args) == len(b.args) and a.args[:-1] == b.args[:-1]
                and self.distinct(a.args[-1], b.args[-1], st))

    def distinct(self, a, b, st):
        """Certainly different values?"""
        if a == b:
            return False
        if self.inj_distinct(a, b, st):
            return True
        if isinstance(a, Const) and isinstance(b, Const):
            return a.v != b.v
        if isinstance(a, Sym) and isinstance(b, Sym) and a.group and a.group == b.group:
            return True
        t = st.facts.get(self.eqterm(a, b))
        if t is False:
            return True
        ka, kb = self.kinds(a, st), self.kinds(b, st)
        return not (ka & kb) and 'other' not in (ka | kb) and not ((ka | kb) <= frozenset(('bool', 'int', 'float')))

    def e_Call(self, e, st, fr):
        self.sites.add((fr.module.rel, e.lineno, e.col_offset))
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            cls = fr.func.cls if fr.func else None
            f = fr
            self_ = None
            while f is not None:
                if f.func is not None and f.func.cls is cls and f.self_ and f.fid in st.frames and f.self_ in st.frames[f.fid]:
                    self_ = st.frames[f.fid][f.self_]
                    break
                f = f.caller
            return [(st, SuperV(cls, self_))]

        def with_f(s, f):
            return self.args(e, s, fr, lambda s2, pos, kw: self.call(f, pos, kw, s2, fr, e))
        return self.bind(self.ev(e.func, st, fr), with_f)

    def args(self, e, st, fr, k):
        todo = [('p', a) for a in e.args] + [('k', a) for a in e.keywords]

        def go(s, i, pos, kw):
            if i == len(todo):
                return k(s, pos, kw)
            kind, a = todo[i]
            if kind == 'p':
                if isinstance(a, ast.Starred):
                    def sp(s2, v):
                        out = []
                        for s3, cells in self.collect(v, s2, fr, a):
                            if isinstance(cells, Raise):
                                out.append((s3, cells))
                            else:
                                out.extend(go(s3, i + 1, pos + list(cells), kw))
                        return out

                    def sp0(s2, v):
                        if self.seq_cells(v, s2) is None and isinstance(v, (Sym, Term)):
                            return go(s2, i + 1, pos + [('*', f'spread({v!r})', (Term('spread', v),))], kw)
                        return sp(s2, v)
                    return self.bind(self.ev(a.value, s, fr), sp0)
                return self.bind(self.ev(a, s, fr), lambda s2, v: go(s2, i + 1, pos + [one(v)], kw))
            if a.arg is None:
                def spk(s2, v):
                    o = self.container(v, s2, 'mapping')
                    if isinstance(o, Dct):
                        return go(s2, i + 1, pos, kw + list(o.cells))
                    return go(s2, i + 1, pos, kw + [('*', f'spread({v!r})', ((Term('spreadkey', v), Term('spread', v)),))])
                return self.bind(self.ev(a.value, s, fr), spk)
            return self.bind(self.ev(a.value, s, fr), lambda s2, v: go(s2, i + 1, pos, kw + [kv(Const(a.arg), v)]))
        return go(st, 0, [], [])

    def e_Subscript(self, e, st, fr):
        from . import models as mm
        return self.bind(self.ev(e.value, st, fr), lambda s, v: self.bind(
            self.ev(e.slice, s, fr), lambda s2, k: mm.getitem(self, v, k, s2, fr, e)))

    def e_Slice(self, e, st, fr):
        parts = [e.lower, e.upper, e.step]

        def go(s, i, acc):
            if i == 3:
                return [(s, SliceV(*acc))]
            if parts[i] is None:
                return go(s, i + 1, acc + [NONE])
            return self.bind(self.ev(parts[i], s, fr), lambda s2, v: go(s2, i + 1, acc + [v]))
        return go(st, 0, [])

    def _elts(self, elts, st, fr, k):
        def go(s, i, cells):
            if i == len(elts):
                return k(s, cells)
            x = elts[i]
            if isinstance(x, ast.Starred):
                def sp(s2, v):
                    out = []
                    for s3, c in self.collect(v, s2, fr, x):
                        out.extend([(s3, c)] if isinstance(c, Raise) else go(s3, i + 1, cells + tuple(c)))
                    return out
                return self.bind(self.ev(x.value, s, fr), sp)
            return self.bind(self.ev(x, s, fr), lambda s2, v: go(s2, i + 1, cells + (one(v),)))
        return go(st, 0, ())

    def e_Tuple(self, e, st, fr):
        return self._elts(e.elts, st, fr, lambda s, c: [(s, Tup(c))])

    def e_List(self, e, st, fr):
        return self._elts(e.elts, st, fr, lambda s, c: [(s, s.new(Lst(c)))])

    def e_Set(self, e, st, fr):
        return self._elts(e.elts, st, fr, lambda s, c: [(s, self.raise_new(s, 'builtins.TypeError', e, fr)
                                                         if self.hash_check and any(x[0] == '1' and self.unhashable(x[1], s) for x in c) else s.new(Lst(c, 'set')))])

    def e_Dict(self, e, st, fr):
        from . import models as mm
        ref = st.new(Dct(()))

        def go(s, i):
            if i == len(e.keys):
                return [(s, ref)]
            k, v = e.keys[i], e.values[i]
            if k is None:
                return self.bind(self.ev(v, s, fr), lambda s2, x: self.bind(
                    mm.method(self, ref, 'update', [one(x)], [], s2, fr, e), lambda s3, _: go(s3, i + 1)))
            return self.bind(self.ev(k, s, fr), lambda s2, kk: self.bind(
                self.ev(v, s2, fr), lambda s3, vv: self.bind(
                    mm.setitem(self, ref, kk, vv, s3, fr, e), lambda s4, _: go(s4, i + 1))))
        return go(st, 0)

    def e_ListComp(self, e, st, fr):
        return self._comp(e, st, fr, 'list')

    def e_SetComp(self, e, st, fr):
        return self._comp(e, st, fr, 'set')

    def _comp(self, e, st, fr, kind):
        f = self.comp_frame(st, fr)
        acc = st.new(Lst((), kind))

        def emit(s, f2):
            out = []
            for s2, v in self.ev(e.elt, s, f2):
                if isinstance(v, Raise):
                    out.append((s2, ('exc', v.exc)))
                else:
                    o = s2.obj(acc)
                    if kind == 'set' and self.unhashable(v, s2):
                        out.append((s2, ('exc', self.raise_new(s2, 'builtins.TypeError', e, fr).exc)))
                        continue
                    if kind == 'set' and one(v) in o.cells:
                        pass
                    else:
                        s2.put(acc, replace(o, cells=o.cells + (one(v),)))
                    out.append((s2, None))
            return out
        out = []
        for s, ctl in self.comp(e.generators, 0, st, f, emit):
            s.frames.pop(f.fid, None)
            s.parents.pop(f.fid, None)
            out.append((s, Raise(ctl[1]) if ctl is not None and ctl[0] == 'exc' else acc))
        return out

    def e_DictComp(self, e, st, fr):
        from . import models as mm
        f = self.comp_frame(st, fr)
        acc = st.new(Dct(()))

        def emit(s, f2):
            res = self.bind(self.ev(e.key, s, f2), lambda s2, k: self.bind(
                self.ev(e.value, s2, f2), lambda s3, v: mm.setitem(self, acc, k, v, s3, f2, e)))
            return [(s2, ('exc', v.exc) if isinstance(v, Raise) else None) for s2, v in res]
        out = []
        for s, ctl in self.comp(e.generators, 0, st, f, emit):
            s.frames.pop(f.fid, None)
            s.parents.pop(f.fid, None)
            out.append((s, Raise(ctl[1]) if ctl is not None and ctl[0] == 'exc' else acc))
        return out

    def e_GeneratorExp(self, e, st, fr):
        f = self.comp_frame(st, fr)
        return [(st, GenExprV(e, f.fid, fr.func or FuncInfo(fr.module, ast.parse('lambda: 0', mode='eval').body, '<module>')))]

    def e_JoinedStr(self, e, st, fr):
        def go(s, i, parts):
            if i == len(e.values):
                if any(isinstance(x, ast.FormattedValue) and (x.format_spec is not None or x.conversion not in (-1, 115)) for x in e.values):
                    return [(s, Term('fmt', Const(ast.dump(e)), *parts))]
                return [(s, self.concat(s, parts))]
            v = e.values[i]
            if isinstance(v, ast.Constant):
                return go(s, i + 1, parts + [Const(v.value)])

            def fmt(s2, x):
                # formatting library objects may run library code; opaque here
                return go(s2, i + 1, parts + [x])
            return self.bind(self.ev(v.value, s, fr), fmt)
        return go(st, 0, [])

    def concat(self, st, parts):
        flat = []
        for p in parts:
            for x in (p.args if isinstance(p, Term) and p.op == 'fstr' else (p,)):
                if isinstance(x, Const):
                    if x.v == '':
                        continue
                    if flat and isinstance(flat[-1], Const):
                        flat[-1] = Const(str(flat[-1].v) + str(x.v))
                        continue
                    x = x if isinstance(x.v, str) else Const(str(x.v))
                elif not self.is_strlike(x, st):
                    x = Term('str', x)
                flat.append(x)
        if not flat:
            return Const('')
        if any(text.is_text(x) for x in flat) and all(text.cells(x) is not None for x in flat):
            return text.make(sum((text.cells(x) for x in flat), ()))
        return flat[0] if len(flat) == 1 else Term('fstr', *flat)

    def e_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        def go(s, v):
            if fr.yield_handler is None:
                s.blur('yield without consumer')
                return [(s, NONE)]
            return fr.yield_handler(s, v)
        if e.value is None:
            return go(st, NONE)
        return self.bind(self.ev(e.value, st, fr), go)

    def e_YieldFrom(self, e, st, fr):
        def go(s, v):
            out = []

            def body(s2, item):
                return [(s3, ('exc', r.exc) if isinstance(r, Raise) else None) for s3, r in fr.yield_handler(s2, item)]
            for s2, ctl in self.iterate(v, s, fr, body, e):
                out.append((s2, Raise(ctl[1]) if ctl is not None and ctl[0] == 'exc' else NONE))
            return out
        return self.bind(self.ev(e.value, st, fr), go)

    # ------------------------------------------------------------ entry points
    def state(self):
        return State()

    def run(self, f, pos=(), kw=(), st=None):
        """Analyse a call; -> [(st, value|Raise)]"""
        st = st or State()
        root = Frame(None, None, self.p.modules[self.p.PKG])
        return self.call(f, [one(x) if not (isinstance(x, tuple)) else x for x in pos],
                         [kv(Const(k), v) for k, v in dict(kw).items()], st, root, None)

    def new_inst(self, cls, st, **attrs):
        return st.new(Inst(cls, tuple(attrs.items()), True, 'fresh', ''))
