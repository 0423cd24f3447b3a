"""Meaning of builtins, container methods and a few library intrinsics."""
import builtins
import ast
from .program import ClassInfo, ext_mro
from .values import *
from . import text
from .interp import SOURCE,  Raise, NONE, TRUE, FALSE, mk, Frame


def P(pos, i, default=None):
    return pos[i][1] if i < len(pos) and pos[i][0] == '1' else default


def KW(kw, name, default=None):
    for c in kw:
        if c[0] == '1' and c[1] == Const(name):
            return c[2]
    return default


def arg(pos, kw, i, name, default=None):
    v = P(pos, i)
    return v if v is not None else KW(kw, name, default)


# ------------------------------------------------------------ isinstance
EXT_KINDS = {       # external type -> (kinds that are instances, kinds that may be)
    'int': ({'bool', 'int'}, set()), 'bool': ({'bool'}, set()), 'float': ({'float'}, set()),
    'str': ({'str', 'missing'}, set()), 'bytes': ({'bytes'}, set()), 'complex': (set(), {'other'}),
    'dict': (set(), {'mapping'}), 'list': (set(), {'sequence'}), 'tuple': (set(), {'sequence'}),
    'set': (set(), {'other'}), 'frozenset': (set(), {'other'}), 'slice': (set(), {'other'}),
    'type': ({'type'}, set()), 'object': (set(ALL_KINDS), set()), 'range': (set(), {'sequence'}),
    'bytearray': (set(), {'other', 'sequence'}), 'memoryview': (set(), {'other', 'sequence'}),
}
ABC_KINDS = {
    'Mapping': (set(), {'mapping'}), 'MutableMapping': (set(), {'mapping'}),
    'Sequence': ({'str', 'missing', 'bytes'}, {'sequence'}),
    'MutableSequence': (set(), {'sequence'}),
    'Iterable': ({'str', 'missing', 'bytes'}, {'mapping', 'sequence', 'other', 'type'}),
    'Collection': ({'str', 'missing', 'bytes'}, {'mapping', 'sequence', 'other'}),
    'Sized': ({'str', 'missing', 'bytes'}, {'mapping', 'sequence', 'other'}),
    'Hashable': ({'none', 'missing', 'bool', 'int', 'float', 'str', 'bytes', 'type'}, {'mapping', 'sequence', 'other'}),
    'Callable': ({'type'}, {'other'}), 'Set': (set(), {'other'}), 'Iterator': (set(), {'other'}),
}
NUM_KINDS = {'Number': ({'bool', 'int', 'float'}, {'other'}), 'Complex': ({'bool', 'int', 'float'}, {'other'}),
             'Real': ({'bool', 'int', 'float'}, {'other'}), 'Integral': ({'bool', 'int'}, {'other'}),
             'Rational': ({'bool', 'int'}, {'other'})}


def isinstance_(I, pos, kw, st, fr, node):
    v, t = P(pos, 0), P(pos, 1)
    if v is None or t is None:
        return None
    types = I.flat_types(t, st)
    out = []
    frontier = [st]
    for ty in types:
        nxt = []
        for s in frontier:
            for s2, r in one_isinstance(I, v, ty, s):
                (out.append((s2, TRUE)) if r else nxt.append(s2))
        frontier = nxt
    return out + [(s, FALSE) for s in frontier]


def type_spec(name):
    mod, _, n = name.rpartition('.')
    if mod == 'builtins':
        return EXT_KINDS.get(n)
    if mod in ('collections.abc', 'typing'):
        return ABC_KINDS.get(n) or EXT_KINDS.get({'List': 'list', 'Dict': 'dict', 'Tuple': 'tuple'}.get(n, ''))
    if mod == 'numbers':
        return NUM_KINDS.get(n)
    return None


CONC = {'builtins.list': 'list', 'builtins.set': 'set', 'builtins.dict': 'dict', 'collections.deque': 'deque'}


def one_isinstance(I, v, ty, st):
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, Inst):
            of = ty.info if isinstance(ty, ClassV) else (ty.name if isinstance(ty, ExtV) else None)
            if of is not None:
                r = I.p.is_subclass(o.cls, of)
                if r is False and not o.exact:
                    m = I.exc_match(v, (ty,), st)
                    if m == 'maybe':
                        return I.fact(st, Term('isinstance', v, ty))
                if r is not None:
                    return [(st, r)]
            return I.fact(st, Term('isinstance', v, ty))
        if isinstance(o, (Lst, Dct)) and isinstance(ty, ExtV):
            n = ty.name
            if isinstance(o, Dct):
                return [(st, n in ('builtins.dict', 'builtins.object') or n.rpartition('.')[2] in ('Mapping', 'MutableMapping', 'Dict', 'Iterable', 'Collection', 'Sized'))]
            if n.startswith('builtins.'):
                return [(st, n == 'builtins.' + o.kind or n == 'builtins.object')]
            base = n.rpartition('.')[2]
            seq = o.kind in ('list', 'deque')
            return [(st, base in ('Iterable', 'Collection', 'Sized') or (seq and base in ('Sequence', 'MutableSequence', 'List')) or (o.kind == 'set' and base in ('Set', 'MutableSet')))]
        return [(st, False)]
    if text.is_text(v) and isinstance(ty, ExtV):
        return [(st, ty.name in ('builtins.str', 'builtins.object') or ty.name.rpartition('.')[2] in ('Sequence', 'Iterable', 'Collection', 'Sized', 'Hashable', 'Text'))]
    if isinstance(v, Tup):
        if isinstance(ty, ExtV):
            return [(st, ty.name in ('builtins.tuple', 'builtins.object') or ty.name.rpartition('.')[2] in ('Sequence', 'Iterable', 'Collection', 'Sized', 'Tuple', 'Hashable'))]
        return [(st, False)]
    if isinstance(v, SliceV):
        return [(st, isinstance(ty, ExtV) and ty.name == 'builtins.slice')]
    if isinstance(v, (FuncV, BoundV)):
        return [(st, isinstance(ty, ExtV) and ty.name.rpartition('.')[2] in ('Callable', 'FunctionType', 'object'))]
    if isinstance(ty, ExtV):
        spec = type_spec(ty.name)
        if spec is not None:
            yes, maybe = spec
            k = I.kinds(v, st)
            if not (k & (yes | maybe)):
                return [(st, False)]
            if k <= yes:
                return [(st, True)]
            out = []
            a, b, c = k & yes, k & frozenset(maybe), k - yes - frozenset(maybe)
            parts = []
            if a:
                parts.append((a, True))
            if c:
                parts.append((c, False))
            for i, (ks, r) in enumerate(parts):
                s2 = st.fork()
                if isinstance(v, (Sym, Term, ExtV)):
                    s2.kinds[v] = frozenset(ks)
                out.append((s2, r))
            if b:
                s2 = st.fork()
                if isinstance(v, (Sym, Term, ExtV)):
                    s2.kinds[v] = frozenset(b)
                out.extend(I.fact(s2, Term('isinstance', v, ty)))
            return out
    if isinstance(v, Const):
        if isinstance(ty, ExtV) and ty.name.startswith('builtins.'):
            t = getattr(builtins, ty.name[9:], None)
            if isinstance(t, type):
                return [(st, isinstance(v.v, t))]
        return [(st, False)]
    if isinstance(ty, ClassV) and isinstance(v, (Sym, Term)):
        k = I.kinds(v, st)
        if k <= frozenset(('none', 'bool', 'int', 'float', 'bytes')):
            return [(st, False)]
    if isinstance(v, (ClassV, ExtV)) and isinstance(ty, ExtV) and ty.name == 'builtins.type':
        return [(st, True)]
    return I.fact(st, Term('isinstance', v, ty))


def issubclass_(I, pos, kw, st, fr, node):
    v, t = P(pos, 0), P(pos, 1)
    if v is None or t is None:
        return None
    types = I.flat_types(t, st)
    out, frontier = [], [st]
    if isinstance(v, (Tup, FuncV, BoundV, Const)) or (isinstance(v, Ref) and isinstance(st.heap.get(v.id), (Lst, Dct, Inst))):
        return [(st, I.raise_new(st, 'builtins.TypeError', node, fr))]
    if isinstance(v, (Sym, Term)) and I.kinds(v, st) != frozenset(('type',)):
        k = I.kinds(v, st)
        if 'type' in k or k == ALL_KINDS:
            s2 = st.fork()
            s2.kinds[v] = k - {'type'} or k
            out.append((s2, I.raise_new(s2, 'builtins.TypeError', node, fr)))
            st.kinds[v] = frozenset(('type',))
        else:
            return [(st, I.raise_new(st, 'builtins.TypeError', node, fr))]
    for ty in types:
        nxt = []
        for s in frontier:
            rs = None
            if isinstance(v, (ClassV, ExtV)) and isinstance(ty, (ClassV, ExtV)):
                r = I.p.is_subclass(v.info if isinstance(v, ClassV) else v.name, ty.info if isinstance(ty, ClassV) else ty.name)
                if r is not None and not (isinstance(v, ExtV) and r is False and not v.name.startswith('builtins.')):
                    rs = [(s, r)]
            if rs is None:
                rs = I.fact(s, Term('issubclass', v, ty))
            for s2, r in rs:
                (out.append((s2, TRUE)) if r else nxt.append(s2))
        frontier = nxt
    return out + [(s, FALSE) for s in frontier]


# ------------------------------------------------------------ builtins
def b_len(I, pos, kw, st, fr, node):
    v = P(pos, 0)
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), Inst):
        o = st.obj(v)
        if isinstance(o.cls, ClassInfo):
            f = I.p.find_member(o.cls, '__len__')
            if f is not None and f[1][0] == 'func':
                return I.call(FuncV(f[1][1]), [one(v)], [], st, fr, node)
    if isinstance(v, (Sym, Term)) and v not in st.content:
        k = I.kinds(v, st)
        if k <= frozenset(('none', 'bool', 'int', 'float')):
            return [(st, I.raise_new(st, 'builtins.TypeError', node, fr))]
    return [(st, I.length(v, st))]


def b_range(I, pos, kw, st, fr, node):
    return [(st, LazyV('range', *[c[1] for c in pos]))]


def b_enumerate(I, pos, kw, st, fr, node):
    return [(st, LazyV('enumerate', P(pos, 0), arg(pos, kw, 1, 'start', Const(0))))]


def b_lazy(op):
    def f(I, pos, kw, st, fr, node):
        if any(c[0] != '1' for c in pos):
            st.blur(f'{op} with starred arguments')
            return None
        return [(st, LazyV(op, *[c[1] for c in pos]))]
    return f


def settled_lazy(I, v, st):
    """A view of collections whose items are known: nothing is run by iterating it."""
    if not isinstance(v, LazyV):
        return I.seq_cells(v, st) is not None or isinstance(v, Ref) and isinstance(st.heap.get(v.id), Dct) and all(c[0] == '1' for c in st.heap[v.id].cells)
    if v.op == 'range':
        return all(isinstance(x, Const) for x in v.args)
    if v.op not in ('items', 'keys', 'values', 'enumerate', 'zip', 'reversed', 'iter', 'chain'):
        return False
    return all(isinstance(x, Const) or settled_lazy(I, x, st) for x in v.args)


def b_iter(I, pos, kw, st, fr, node):
    if len(pos) == 1 and pos[0][0] == '1':
        v = pos[0][1]
        if I.stepper(v, st):
            return [(st, v)]
        o = st.heap.get(v.id) if isinstance(v, Ref) else None
        if isinstance(o, Inst) and isinstance(o.cls, ClassInfo) and o.get('__items__') is None:
            f = I.p.find_member(o.cls, '__iter__')
            if f and f[1][0] == 'func':
                return I.call(FuncV(f[1][1]), [one(v)], [], st, fr, node)
        cells = I.seq_cells(v, st)
        if cells is None and settled_lazy(I, v, st):
            got = list(I.collect(v, st.fork(), fr, node))
            if len(got) == 1 and not isinstance(got[0][1], Raise) and len(got[0][0].taint) == len(st.taint):
                st, cells = got[0]
        if cells is not None and all(c[0] == '1' for c in cells):
            return [(st, st.new(Inst(SOURCE, (('pos', Const(0)), ('cells', Tup(cells))))))]
    return b_lazy('iter')(I, pos, kw, st, fr, node)


def b_list(kind):
    def f(I, pos, kw, st, fr, node):
        if not pos:
            return [(st, Tup(()) if kind == 'tuple' else st.new(Lst((), kind)))]
        v = P(pos, 0)
        out = []
        for s, cells in I.collect(v, st, fr, node):
            if isinstance(cells, Raise):
                out.append((s, cells))
            elif kind == 'tuple':
                out.append((s, Tup(cells)))
            else:
                if kind == 'set' and I.hash_check and any(I.unhashable(x, s) for c in cells for x in (c[1:] if c[0] == '1' else c[2] if c[0] == '*' else ())):
                    out.append((s, I.raise_new(s, 'builtins.TypeError', node, fr)))
                    continue
                if kind == 'set':
                    cells = tuple(dict.fromkeys(cells))
                    for x in cells:
                        for y in x[1:2] if x[0] == '1' else x[2] if x[0] == '*' else ():
                            out += may_fail_to_hash(I, y, s, fr, node)
                out.append((s, s.new(Lst(tuple(cells), kind))))
        return out
    return f


def b_dict(I, pos, kw, st, fr, node):
    ref = st.new(Dct(()))
    res = [(st, NONE)]
    if pos:
        res = method(I, ref, 'update', [pos[0]], [], st, fr, node)

    def go(s, _):
        o = s.obj(ref)
        cells = o.cells
        for c in kw:
            cells = tuple(x for x in cells if not (x[0] == '1' and c[0] == '1' and x[1] == c[1])) + (c,)
        s.put(ref, replace(o, cells=cells))
        return [(s, ref)]
    return I.bind(res, go)


def b_str(I, pos, kw, st, fr, node):
    if not pos:
        return [(st, Const(''))]
    v = P(pos, 0)
    if text.is_text(v):
        return [(st, v)]
    if isinstance(v, Const):
        return [(st, v if isinstance(v.v, str) else Const(str(v.v)))]
    k = I.kinds(v, st)
    if k <= frozenset(('str', 'missing')):
        st.event('str', v, Const(I.loc(node, fr)))
        return [(st, v)]
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, Inst):
            return [(st, Term('str', v))]
    return [(st, Term('str', v))]


def b_int(I, pos, kw, st, fr, node):
    v = P(pos, 0)
    if v is None:
        return [(st, Const(0))]
    if isinstance(v, Const):
        try:
            return [(st, Const(int(v.v)))]
        except Exception as e:
            return [(st, I.raise_new(st, f'builtins.{type(e).__name__}', node, fr))]
    if I.plain_text and text.is_text(v):
        return [(st, I.raise_new(st, 'builtins.ValueError', node, fr))]
    if isinstance(v, Term) and v.op == 'int':
        return [(st, v)]
    k = I.kinds(v, st)
    t = Term('int', v)
    st.event('int', v, Const(I.loc(node, fr)))
    errs = []
    if k & {'str', 'missing', 'bytes', 'float'}:
        safe = guarded_int(I, v, st) if not k & {'float'} else False
        if safe is None:
            s2 = st.fork()
            s2.blur('text guarded by a pattern')
            return [(st, t), (s2, I.raise_new(s2, 'builtins.ValueError', node, fr))]
        if not safe:
            errs.append('builtins.ValueError')
    if k & {'float'}:
        errs.append('builtins.OverflowError')
    if k <= frozenset(('float',)) and st.facts.get(Term('is_integer', v)) is True:
        errs = []           # finite and integral
    if k & {'none', 'mapping', 'sequence', 'other', 'type'}:
        errs.append('builtins.TypeError')
    out = forks(I, st, t, errs, node, fr)
    for s, r in out:
        if isinstance(r, Raise):
            s.data = dict(s.data)
            s.data[('int refused', v)] = True
    return out


def re_guards(st):
    """[(pattern, mode, text)] of the pattern matches that succeeded on this path."""
    out = []

    def add(m):
        if not (isinstance(m, Term) and m.op == 'call'):
            return
        f, pos = m.args[0], [c[1] for c in m.args[1].cells if c[0] == '1']
        if isinstance(f, Term) and f.op == 'attr':
            f = ExtBound(*f.args) if len(f.args) == 2 and isinstance(f.args[1], str) else f
        if isinstance(f, ExtBound) and f.name in ('match', 'fullmatch', 'search') and isinstance(f.recv, Term) and f.recv.op == 'call' \
                and f.recv.args[0] == ExtV('re.compile') and pos:
            p = [c[1] for c in f.recv.args[1].cells if c[0] == '1']
            flags = len(p) > 1 or f.recv.args[2].cells
            out.append((p[0].v if isinstance(p[0], Const) and not flags else None, f.name, pos[0]))
        elif isinstance(f, ExtV) and f.name in ('re.match', 're.fullmatch', 're.search') and len(pos) >= 2:
            out.append((pos[0].v if isinstance(pos[0], Const) and len(pos) == 2 and not m.args[2].cells else None, f.name[3:], pos[1]))
    for t, b in st.facts.items():
        if b and t.op == 'truth':
            add(t.args[0])
    for t, k in st.kinds.items():
        if 'none' not in k:
            add(t)
    return out


def deriv_atoms(o, sym):
    return isinstance(sym, Sym) and sym.name.startswith(f'item({o!r})')


def guarded_int(I, v, st):
    """May int(v) fail, given the patterns matched so far?  True: cannot;
    False: no pattern speaks about v; None: one does, but this is undecided."""
    from . import regex
    for pat, mode, text in re_guards(st):
        if repr(text) not in repr(v) and not (isinstance(text, Term) and text.op == 'str' and repr(text.args[0]) in repr(v)):
            continue
        ops = derive(v, text, st)
        if pat is None or ops is None:
            return None
        nows, sep = ops
        try:
            w = regex.ints_only(pat, mode, nows, sep, empty_ok=st.facts.get(Term('truth', v)) is True)
        except Exception:
            return None
        return w is None
    return False


def derive(v, text, st):
    """v as a piece of text: (blanks removed, separator), or None."""
    def same(x):
        return x == text

    def blanks_removed(x):
        if isinstance(x, Term) and x.op == 'join' and x.args[0] == Const(''):
            return any(same(t) and all(deriv_atoms(Term('split', Const('split'), t, Tup(())), y)
                                       for c in x.args[1].cells for y in (c[1:2] if c[0] == '1' else c[2])) for t in (text,))
        return False
    if same(v):
        return False, None
    if blanks_removed(v):
        return True, None
    if isinstance(v, Term) and v.op == 'strmeth' and v.args[0] == Const('strip') and not v.args[2].cells:
        return derive(v.args[1], text, st)
    if isinstance(v, Sym) and v.name.startswith('item('):
        for src in st.content:
            if isinstance(src, Term) and src.op == 'split' and src.args[0] == Const('split') and deriv_atoms(src, v):
                cells = src.args[2].cells
                if len(cells) == 1 and isinstance(cells[0][1], Const) and isinstance(cells[0][1].v, str) and len(cells[0][1].v) == 1:
                    d = derive(src.args[1], text, st)
                    if d is not None and d[1] is None:
                        return d[0], cells[0][1].v
    return None


def b_float(I, pos, kw, st, fr, node):
    v = P(pos, 0)
    if v is None:
        return [(st, Const(0.0))]
    if isinstance(v, Const):
        try:
            return [(st, Const(float(v.v)))]
        except Exception as e:
            return [(st, I.raise_new(st, f'builtins.{type(e).__name__}', node, fr))]
    if I.plain_text and text.is_text(v):
        return [(st, I.raise_new(st, 'builtins.ValueError', node, fr))]
    k = I.kinds(v, st)
    errs = []
    if k & {'str', 'missing', 'bytes'}:
        errs.append('builtins.ValueError')
    if k & {'int'}:
        errs.append('builtins.OverflowError')
    if k & {'none', 'mapping', 'sequence', 'other', 'type'}:
        errs.append('builtins.TypeError')
    return forks(I, st, Term('float', v), errs, node, fr)


def forks(I, st, value, errs, node, fr):
    out = []
    for e in errs:
        s2 = st.fork()
        out.append((s2, I.raise_new(s2, e, node, fr)))
    return [(st, value)] + out


def b_bool(I, pos, kw, st, fr, node):
    v = P(pos, 0)
    if v is None:
        return [(st, FALSE)]
    return [(s, mk(b)) for s, b in I.truth(v, st)]


def b_any(all_):
    def f(I, pos, kw, st, fr, node):
        def body(s, item):
            out = []
            for s2, b in I.truth(item, s):
                out.append((s2, ('brk',) if b != all_ else None))
            return out
        out = []
        for s, ctl in I.iterate(P(pos, 0), st, fr, body, node):
            if ctl is None:
                out.append((s, mk(all_)))
            elif ctl[0] == 'brk':
                out.append((s, mk(not all_)))
            else:
                out.append((s, Raise(ctl[1])))
        return out
    return f


def b_next(I, pos, kw, st, fr, node):
    src = P(pos, 0)
    default = P(pos, 1)
    if I.stepper(src, st):
        out = []
        for s, r in I.step(src, st, fr, node):
            o = s.heap.get(r.exc.id) if isinstance(r, Raise) else None
            out.append((s, default if default is not None and isinstance(o, Inst) and o.cls == 'builtins.StopIteration' else r))
        return out
    I.uid += 1
    key = ('next', I.uid)

    def body(s, item):
        s.data[key] = item
        return [(s, ('brk',))]
    out = []
    if not isinstance(src, (GenExprV, LazyV)) and not (isinstance(src, Ref) and isinstance(st.heap.get(src.id), GenObj)):
        st.blur('next() on a shared iterator')
        return [(st, Term('next', src))]
    if isinstance(src, LazyV) and src.op == 'iter':
        if st.data.get(('lazy-next', src)):
            st.blur('next() on a shared iterator')
        st.data[('lazy-next', src)] = True
    for s, ctl in I.iterate(src, st, fr, body, node):
        if ctl is None:
            if default is None:
                out.append((s, I.raise_new(s, 'builtins.StopIteration', node, fr)))
            else:
                out.append((s, default))
        elif ctl[0] == 'brk':
            out.append((s, s.data.pop(key)))
        else:
            out.append((s, Raise(ctl[1])))
    return out


def b_type(I, pos, kw, st, fr, node):
    if len(pos) != 1:
        return None
    v = P(pos, 0)
    if isinstance(v, Const):
        return [(st, ExtV('builtins.' + type(v.v).__name__))]
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, Inst):
            return [(st, ClassV(o.cls) if isinstance(o.cls, ClassInfo) else ExtV(o.cls))]
        if isinstance(o, Lst):
            return [(st, ExtV('builtins.' + o.kind))]
        if isinstance(o, Dct):
            return [(st, ExtV('builtins.dict'))]
    if isinstance(v, Tup):
        return [(st, ExtV('builtins.tuple'))]
    if isinstance(v, ClassV):
        mc = I.metaclass(v.info)
        return [(st, ClassV(mc) if mc else ExtV('builtins.type'))]
    return [(st, Term('type', v))]


def b_getattr(I, pos, kw, st, fr, node):
    v, n = P(pos, 0), P(pos, 1)
    if not isinstance(n, Const):
        t = Term('attr', v, n)
        return [(st, t)]
    if len(pos) < 3:
        return I.getattr(v, n.v, st, fr, node)
    d = P(pos, 2)
    hooked = I.attr_hook and I.attr_hook(I, v, n.v, st, fr, node)
    if hooked is None and isinstance(v, (Sym, Term, ExtV, ModV)):
        out = []
        for s, b in I.fact(st, Term('hasattr', v, Const(n.v))):
            out.extend(I.getattr(v, n.v, s, fr, node) if b else [(s, d)])
        return out
    out = []
    for s, r in I.getattr(v, n.v, st, fr, node):
        if isinstance(r, Raise) and I.exc_match(r.exc, (ExtV('builtins.AttributeError'),), s) != 'no':
            out.append((s, d))
        elif isinstance(r, ExtBound) and isinstance(r.recv, Ref) and isinstance(s.heap.get(r.recv.id), Inst):
            if s.heap[r.recv.id].exact:
                out.append((s, d))
            else:
                # some unknown subclass: it may define the attribute
                for s2, b in I.fact(s, Term('hasattr', v, n)):
                    out.append((s2, Term('attr', v, n) if b else d))
        else:
            out.append((s, r))
    return out


def b_hasattr(I, pos, kw, st, fr, node):
    v, n = P(pos, 0), P(pos, 1)
    if isinstance(v, Ref) and isinstance(n, Const):
        o = st.heap.get(v.id)
        if isinstance(o, Inst) and isinstance(o.cls, ClassInfo):
            if o.has(n.v) or I.p.find_member(o.cls, n.v):
                return [(st, TRUE)]
            if not o.has('__opaque__'):
                return [(st, FALSE)]
    if isinstance(v, ClassV) and isinstance(n, Const):
        return [(st, mk(I.p.find_member(v.info, n.v) is not None or ('cattr', v.info.full, n.v) in st.data))]
    return [(s, mk(b)) for s, b in I.fact(st, Term('hasattr', v, n))]


def b_setattr(I, pos, kw, st, fr, node):
    v, n, x = P(pos, 0), P(pos, 1), P(pos, 2)
    if isinstance(n, Const):
        return [(s, Raise(c[1]) if c is not None else NONE) for s, c in I.setattr(v, n.v, x, st, fr, node)]
    st.event('setattr', v, n, x, I.loc(node, fr))
    return [(st, NONE)]


def b_callable(I, pos, kw, st, fr, node):
    v = P(pos, 0)
    if isinstance(v, (FuncV, BoundV, ClassV, PartialV)):
        return [(st, TRUE)]
    return [(s, mk(b)) for s, b in I.fact(st, Term('callable', v))]


def b_identity(i=0):
    def f(I, pos, kw, st, fr, node):
        v = P(pos, i)
        return [(st, v)] if v is not None else None
    return f


def b_sorted(I, pos, kw, st, fr, node):
    out = []
    key = KW(kw, 'key', NONE)
    for s, cells in I.collect(P(pos, 0), st, fr, node):
        if isinstance(cells, Raise):
            out.append((s, cells))
            continue
        for s2, r in sort_cells(I, cells, key, KW(kw, 'reverse', FALSE), s, fr, node):
            if isinstance(r, Raise):
                out.append((s2, r))
                continue
            if r is None:
                r = cells
                if getattr(I, 'sorted_blurs', True) and len(cells) > 1:
                    s2.blur('sorted')
            s2.event('sorted', P(pos, 0), key)
            out.append((s2, s2.new(Lst(tuple(r)))))
    return out


def order_class(I, v, st):
    """Values of different classes can not be ordered."""
    k = I.kinds(v, st)
    for n, ks in (('text', {'str', 'missing'}), ('number', {'bool', 'int', 'float'}), ('bytes', {'bytes'})):
        if k <= ks:
            return n
    return 'none' if not k - {'none', 'mapping', 'type'} else '?'


def sort_cells(I, cells, key, rev, st, fr, node):
    """Sort definite cells: [(state, cells | None if the order is unknown | Raise)]."""
    if not isinstance(rev, Const) or any(c[0] != '1' for c in cells):
        return [(st, None)]
    states = [(st, ())]
    for c in cells:
        nxt = []
        for s, ks in states:
            if isinstance(ks, Raise) or ks is None and not I.hash_check:
                nxt.append((s, ks))
                continue
            for s2, k in ([(s, c[1])] if key == NONE else I.call(key, [one(c[1])], [], s, fr, node)):
                if isinstance(k, Raise):
                    nxt.append((s2, k))
                else:
                    if I.hash_check:
                        mine = order_class(I, k, s2)
                        seen = s2.data.setdefault(('order', id(node)), mine)
                        if mine != seen:
                            nxt.append((s2, I.raise_new(s2, 'builtins.TypeError', node, fr)))
                            continue
                    k = sort_key(k)
                    nxt.append((s2, None if k is None or ks is None else ks + (k,)))
        states = nxt
    out = []
    for s, ks in states:
        if ks is None or isinstance(ks, Raise):
            out.append((s, ks))
            continue
        if not told_apart(ks):
            out.append((s, None))
            continue
        try:
            order = sorted(range(len(cells)), key=lambda i: ks[i], reverse=bool(rev.v))
            out.append((s, tuple(cells[i] for i in order)))
        except TypeError:
            out.append((s, None))
    return out


def sort_key(k):
    if isinstance(k, Const):
        return k.v
    if isinstance(k, Tup) and all(c[0] == '1' for c in k.cells):
        ks = []
        for c in k.cells:
            x = sort_key(c[1])
            if x is None:
                return Prefix(ks) if ks else None
            ks.append(x)
        return tuple(ks)
    return None


class Prefix(tuple):
    """The known beginning of a sort key."""


def told_apart(ks):
    """Do the known beginnings decide every comparison?"""
    if not any(isinstance(k, Prefix) for k in ks):
        return True
    n = min((len(k) for k in ks if isinstance(k, tuple)), default=0)
    return all(isinstance(k, tuple) for k in ks) and len({repr(k[:n]) for k in ks}) == len(ks)


def b_copy(deep):
    def f(I, pos, kw, st, fr, node):
        v = P(pos, 0)
        o = I.container(v, st)
        if isinstance(o, Tup):
            return [(st, v)]
        if isinstance(o, (Lst, Dct)):
            if isinstance(v, Ref) and isinstance(st.heap.get(v.id), Inst):
                x = st.obj(v)
                items = st.new(replace(o, owner='fresh', sym=None))
                return [(st, st.new(replace(x.set('__items__', items), owner='fresh')))]
            return [(st, st.new(replace(o, owner='fresh', sym=None)))]
        if isinstance(v, (Sym, Term)):
            return [(st, Term('copy', v))]
        return [(st, v)]
    return f


def b_reduce(I, pos, kw, st, fr, node):
    f, it = P(pos, 0), P(pos, 1)
    init = P(pos, 2)
    I.uid += 1
    key = ('red', I.uid)
    if init is not None:
        st.data[key] = init

    def body(s, item):
        if key not in s.data:
            s.data[key] = item
            return [(s, None)]
        out = []
        for s2, v in I.call(f, [one(s.data[key]), one(item)], [], s, fr, node):
            if isinstance(v, Raise):
                out.append((s2, ('exc', v.exc)))
            else:
                s2.data[key] = v
                out.append((s2, None))
        return out
    out = []
    for s, ctl in I.iterate(it, st, fr, body, node):
        if ctl is None:
            if key in s.data:
                out.append((s, s.data.pop(key)))
            else:
                out.append((s, I.raise_new(s, 'builtins.TypeError', node, fr)))
        elif ctl[0] == 'exc':
            out.append((s, Raise(ctl[1])))
    return out


def b_partial(I, pos, kw, st, fr, node):
    return [(st, PartialV(P(pos, 0), pos[1:], kw))]


def b_none(I, pos, kw, st, fr, node):
    return [(st, NONE)]


def b_suppress(I, pos, kw, st, fr, node):
    return [(st, LazyV('suppress', *[c[1] for c in pos]))]


def b_defaultdict(I, pos, kw, st, fr, node):
    if len(pos) == 2:
        o = I.container(P(pos, 1), st, 'mapping')
        if isinstance(o, Dct):
            r = st.new(Dct(o.cells, 'defaultdict', 'fresh', P(pos, 0)))
            return [(st, r)]
        return None
    return [(st, st.new(Dct((), 'defaultdict', 'fresh', P(pos, 0))))]


def b_fromkeys(I, pos, kw, st, fr, node):
    out = []
    val = P(pos, 1, NONE)
    ref = st.new(Dct(()))

    def body(s, item):
        return [(s2, ('exc', r.exc) if isinstance(r, Raise) else None) for s2, r in setitem(I, ref, item, val, s, fr, node)]
    for s, ctl in I.iterate(P(pos, 0), st, fr, body, node):
        out.append((s, Raise(ctl[1]) if ctl is not None and ctl[0] == 'exc' else ref))
    return out


def b_wraps(I, pos, kw, st, fr, node):
    return [(st, ExtV('marshlint.identity'))]


def b_object(I, pos, kw, st, fr, node):
    return [(st, st.new(Inst('builtins.object', (), True, 'fresh', I.loc(node, fr))))]


def b_slice(I, pos, kw, st, fr, node):
    a = [c[1] for c in pos if c[0] == '1']
    if len(a) == len(pos) and all(isinstance(x, (Const, Aff)) for x in a):
        a = a + [NONE] * (3 - len(a)) if len(a) != 1 else [NONE, a[0], NONE]
        return [(st, SliceV(*a))]
    return [(st, I.call_term(ExtV('builtins.slice'), pos, kw))]


def b_abs(I, pos, kw, st, fr, node):
    v = P(pos, 0)
    if v in st.num:
        t = Term('abs', v)
        st.num[t] = {'neg': 'pos'}.get(st.num[v], st.num[v])
        return [(st, t)]
    return b_fold(abs)(I, pos, kw, st, fr, node)


def b_super(I, pos, kw, st, fr, node):
    c = P(pos, 0)
    if isinstance(c, ClassV):
        return [(st, SuperV(c.info, P(pos, 1)))]
    return None


def b_vars(I, pos, kw, st, fr, node):
    return [(st, Term('vars', *[c[1] for c in pos]))]


def b_isnan(I, pos, kw, st, fr, node):
    v = P(pos, 0)
    if v in st.num:
        return [(st, mk(st.num[v] == 'nan'))]
    return [(s, mk(b)) for s, b in I.fact(st, Term('call', ExtV('math.isnan'), v))]


def b_chain(I, pos, kw, st, fr, node):
    if all(c[0] == '1' for c in pos):
        return [(st, LazyV('chain', *[c[1] for c in pos]))]
    return None


def b_exc(name):
    def f(I, pos, kw, st, fr, node):
        return [(st, st.new(Inst(name, (('args', Tup(pos)),), True, 'fresh', I.loc(node, fr))))]
    return f


def b_fold(fn):
    """Constant folding of a pure function."""
    def f(I, pos, kw, st, fr, node):
        if kw or any(c[0] != '1' for c in pos):
            return None
        args = [c[1] for c in pos]
        if len(args) == 1 and fn in (min, max, sum):
            cells = I.seq_cells(args[0], st)
            if cells is None or any(c[0] != '1' for c in cells) or not (cells or fn is sum):
                return None
            args = [c[1] for c in cells]
            if not all(isinstance(a, Const) for a in args):
                return None
            call = lambda xs: fn(xs)
        else:
            if fn is sum or not all(isinstance(a, Const) for a in args):
                return None
            call = lambda xs: fn(*xs)
        if fn is pow and len(args) > 1 and isinstance(args[1].v, int) and abs(args[1].v) > 64:
            return None
        try:
            return [(st, Const(call([a.v for a in args])))]
        except Exception as e:
            return [(st, I.raise_new(st, 'builtins.' + type(e).__name__, node, fr))]
    return f


def install(I):
    E = I.ext_models
    for fn in (abs, round, ord, chr, divmod, pow, min, max, sum):
        if fn is not divmod:
            E['builtins.' + fn.__name__] = b_fold(fn)
    B = 'builtins.'
    for n, f in dict(isinstance=isinstance_, issubclass=issubclass_, len=b_len, range=b_range,
                     enumerate=b_enumerate, zip=b_lazy('zip'), map=b_lazy('map'), filter=b_lazy('filter'),
                     iter=b_iter, reversed=b_lazy('reversed'), list=b_list('list'), tuple=b_list('tuple'),
                     set=b_list('set'), frozenset=b_list('set'), dict=b_dict, str=b_str, int=b_int, float=b_float,
                     bool=b_bool, any=b_any(False), all=b_any(True), next=b_next, type=b_type, getattr=b_getattr,
                     hasattr=b_hasattr, setattr=b_setattr, callable=b_callable, sorted=b_sorted, object=b_object,
                     slice=b_slice, abs=b_abs, hash=b_hash, super=b_super, print=b_none, vars=b_vars).items():
        E[B + n] = f
    E['builtins.dict.fromkeys'] = b_fromkeys
    E['collections.OrderedDict'] = b_dict
    E['collections.OrderedDict.fromkeys'] = b_fromkeys
    E['collections.deque'] = b_list('deque')
    E['collections.defaultdict'] = b_defaultdict
    E['typing.cast'] = b_identity(1)
    E['types.MappingProxyType'] = b_identity(0)
    E['copy.copy'] = b_copy(False)
    E['copy.deepcopy'] = b_copy(True)
    E['functools.reduce'] = b_reduce
    E['functools.partial'] = b_partial
    E['functools.wraps'] = b_wraps
    E['functools.lru_cache'] = b_wraps
    E['marshlint.identity'] = b_identity(0)
    E['contextlib.suppress'] = b_suppress
    E['itertools.chain'] = b_chain
    for n in ('keys', 'items', 'values'):
        E[f'collections.abc.{n.title()}View'] = E[f'typing.{n.title()}View'] = x_view(n)
    E['math.isnan'] = b_isnan
    E['typing.TypeVar'] = lambda I, pos, kw, st, fr, node: [(st, Term('typevar', P(pos, 0)))]
    for n in dir(builtins):
        o = getattr(builtins, n)
        if isinstance(o, type) and issubclass(o, BaseException):
            E[B + n] = b_exc(B + n)


# ------------------------------------------------------------ items
def mutate(I, recv, st, what, fr, node):
    """Note a mutation of an object the function under analysis does not own."""
    r = I.container_ref(recv, st)
    if r is None:
        st.event('mutate', recv, what, I.loc(node, fr))
        return
    o = st.heap.get(r.id)
    if getattr(o, 'owner', 'fresh') == 'input':
        st.event('mutate', o.sym if getattr(o, 'sym', None) is not None else recv, what, I.loc(node, fr))
    elif getattr(o, 'owner', 'fresh') == 'global':
        st.event('mutate-global', recv, what, I.loc(node, fr))


def getitem(I, v, k, st, fr, node):
    if I.sub_hook is not None:
        r = I.sub_hook(I, v, k, st, fr, node)
        if r is not None:
            return r
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), Inst):
        o = st.obj(v)
        if isinstance(o.cls, ClassInfo):
            f = I.p.find_member(o.cls, '__getitem__')
            if f is not None and f[1][0] == 'func' and not fr_in(fr, f[1][1]):
                return I.call(FuncV(f[1][1]), [one(v), one(k)], [], st, fr, node)
            if 'typing.NamedTuple' in I.p.mro(o.cls) and isinstance(k, Const) and isinstance(k.v, int):
                try:
                    return [(st, o.attrs[k.v][1])]
                except IndexError:
                    return [(st, I.raise_new(st, 'builtins.IndexError', node, fr))]
    if isinstance(v, ClassV):
        mc = I.metaclass(v.info)
        f = I.p.find_member(mc, '__getitem__') if mc else None
        if f is not None and f[1][0] == 'func':
            return I.call(FuncV(f[1][1]), [one(v), one(k)], [], st, fr, node)
        return [(st, v)]
    if isinstance(v, ExtV) and v not in st.content:
        return [(st, Term('generic', v, k))]
    if isinstance(v, Const) and isinstance(v.v, str) and isinstance(k, Const):
        try:
            return [(st, Const(v.v[k.v]))]
        except Exception:
            return [(st, I.raise_new(st, 'builtins.IndexError', node, fr))]
    if text.is_text(v) or isinstance(v, Const) and isinstance(v.v, str) and isinstance(k, SliceV):
        return text.subscript(I, v, k, st, fr, node)
    o = I.container(v, st)
    if isinstance(o, Dct):
        return lookup(I, v, o, k, st, fr, node, 'raise')
    if o is not None:
        return seq_get(I, v, o, k, st, fr, node)
    if isinstance(v, LazyV):
        c = I.seq_cells(v, st)
        if c is not None:
            return seq_get(I, v, Tup(c), k, st, fr, node)
    return [(st, Term('item', v, k))]


def fr_in(fr, info):
    return fr is not None and fr.func is info


def seq_get(I, v, o, k, st, fr, node):
    cells = o.cells
    if isinstance(k, SliceV):
        return [(st, seq_slice(I, v, o, k, st))]
    if I.star_len is not None and I.aff(k) is not None:
        n = I.cut_at(cells, k, st)
        if n == 'out':
            return [(st, I.raise_new(st, 'builtins.IndexError', node, fr))]
        if n is None or cells[n][0] != '1':
            st.blur('symbolic index')
            return [(st, Term('item', v, k))]
        return [(st, cells[n][1])]
    if isinstance(k, Const) and isinstance(k.v, int):
        if k.v >= 0:
            seq, n = cells, k.v
        else:
            seq, n = tuple(reversed(cells)), -k.v - 1
        for i, c in enumerate(seq):
            if c[0] == '*':
                if n == i == 0 and st.card.get(c[1]) == 'some':
                    pass
                return [(st, Term('item', v, k))]
            if i == n:
                return [(st, c[1])]
        return [(st, I.raise_new(st, 'builtins.IndexError', node, fr))]
    if isinstance(k, Term) and k.op == 'idx':
        n = I.find_cell(cells, k, st)
        if n is not None:
            c = cells[n]
            if c[0] == '1':
                return [(st, c[1])]
            out = []
            for i, x in enumerate(c[2]):
                s2 = st if i == len(c[2]) - 1 else st.fork()
                out.append((s2, x))
            return out
        st.blur('index not matched to a cell')
        return [(st, Term('item', v, k))]
    return [(st, Term('item', v, k))]


def exact_slice(cells, k):
    if all(c[0] == '1' for c in cells) and all(x == NONE or isinstance(x, Const) and type(x.v) is int for x in k.a) and k.a[2] != Const(0):
        return range(len(cells))[slice(*[x.v for x in k.a])]
    return None


def seq_slice(I, v, o, k, st):
    lo, hi, step = k.a
    cells = list(o.cells)
    ix = exact_slice(cells, k)
    if ix is not None:
        return mkseq(I, o, tuple(cells[i] for i in ix), st)
    if I.star_len is not None and step in (NONE, Const(1)):
        i = 0 if lo == NONE else I.cut_at(o.cells, lo, st, True)
        j = len(cells) if hi == NONE else I.cut_at(o.cells, hi, st, True)
        if i is not None and j is not None:
            return mkseq(I, o, o.cells[i:j], st)
        st.blur('symbolic slice')
        return Term('slice', v, k)
    if step == Const(-1) and lo == NONE and hi == NONE:
        return mkseq(I, o, tuple(reversed(cells)), st)
    if step not in (NONE, Const(1)):
        st.blur('slice step')
        return Term('slice', v, k)
    ok = True
    if lo == NONE or lo == Const(0):
        pass
    elif isinstance(lo, Const) and isinstance(lo.v, int) and lo.v > 0:
        for _ in range(lo.v):
            if cells and cells[0][0] == '1':
                cells.pop(0)
            elif cells:
                ok = False
    elif isinstance(lo, Const) and isinstance(lo.v, int) and lo.v < 0 and all(c[0] == '1' for c in cells[lo.v:]) and len(cells) >= -lo.v:
        cells = cells[lo.v:]
    else:
        ok = False
    if hi == NONE:
        pass
    elif isinstance(hi, Const) and isinstance(hi.v, int) and hi.v < 0:
        for _ in range(-hi.v):
            if cells and cells[-1][0] == '1':
                cells.pop()
            elif cells:
                ok = False
    elif isinstance(hi, Const) and isinstance(hi.v, int) and all(c[0] == '1' for c in cells):
        n = hi.v - (lo.v if isinstance(lo, Const) and isinstance(lo.v, int) else 0)
        cells = cells[:max(0, n)]
    elif hi == I.length(v, st):
        pass
    else:
        ok = False
    if not ok:
        if getattr(I, 'slice_hook', None):
            r = I.slice_hook(I, v, o, k, st)
            if r is not None:
                return r
        if isinstance(o, (Lst, Tup)) and (lo == NONE) != (hi == NONE):
            return Term('slice', v, lo, hi)
        return Term('slice', v, lo, hi)
    return mkseq(I, o, tuple(cells), st)


def mkseq(I, o, cells, st):
    if isinstance(o, Tup):
        return Tup(cells)
    if o.owner == 'input':
        return Tup(cells)
    return st.new(Lst(tuple(cells), o.kind))


def lookup(I, v, o, k, st, fr, node, mode, default=None, remove=False):
    """Dictionary lookup; mode: 'raise' | 'default'."""
    ref = I.container_ref(v, st)
    if isinstance(o, Dct) and I.unhashable(k, st):
        return [(st, I.raise_new(st, 'builtins.TypeError', node, fr))]
    out, frontier = [], [st]

    def take(s, cell, val):
        if remove:
            mutate(I, v, s, 'pop', fr, node)
            if cell is not None and ref is not None:
                cur = s.obj(ref)
                s.put(ref, replace(cur, cells=tuple(c for c in cur.cells if c != cell)))
        out.append((s, val))
    for c in o.cells:
        nxt = []
        for s in frontier:
            if c[0] == '1':
                for s2, r in I.same(k, c[1], s):
                    if r:
                        take(s2, c, c[2])
                    else:
                        nxt.append(s2)
                continue
            keys = [x[0] for x in c[2]]
            if k in keys:
                vals = [x[1] for x in c[2] if x[0] == k]
                if c[1] in s.active:
                    for s2, r in I.fact(s, Term('present', k, ref if ref is not None else v)) if getattr(I, 'maybe_present', False) and isinstance(o, Dct) and s.data.get(('maybe', c[1])) else [(s, True)]:
                        if not r:
                            if ref is not None:
                                s2.consumed = s2.consumed | {(ref, c[1])}
                            nxt.append(s2)
                            continue
                        if remove and ref is not None:
                            s2.consumed = s2.consumed | {(ref, c[1])}
                        for i, val in enumerate(vals):
                            s3 = s2.fork() if i < len(vals) - 1 else s2
                            if remove:
                                mutate(I, v, s3, 'pop', fr, node)
                            out.append((s3, val))
                    continue
                for val in vals:
                    take(s.fork(), None, val)
                continue
            if all(I.distinct(k, x, s) for x in keys):
                nxt.append(s)
                continue
            for s2, r in I.fact(s, Term('instar', k, v, c[1])):
                if r:
                    take(s2, None, Term('val', v, k))
                else:
                    nxt.append(s2)
        frontier = nxt
    for s in frontier:
        cur = o
        if mode == 'raise':
            if o.kind == 'defaultdict' and not remove and o.sym is not None:
                res = I.call(o.sym, [], [], s, fr, node)
                for s2, dv in res:
                    if not isinstance(dv, Raise):
                        for s3, _ in setitem(I, v, k, dv, s2, fr, node):
                            out.append((s3, dv))
                    else:
                        out.append((s2, dv))
                continue
            out.append((s, I.raise_new(s, 'builtins.KeyError', node, fr)))
        else:
            out.append((s, default))
    return out


def full_slice(k):
    return isinstance(k, SliceV) and all(x in (None, NONE) for x in k.a)


def may_fail_to_hash(I, k, st, fr, node):
    """-> the paths on which a key that may be of any type has no hash"""
    if I.may_unhash is None or not I.may_unhash(k, st):
        return []
    s2 = st.fork()
    return [(s2, I.raise_new(s2, 'builtins.TypeError', node, fr))]


def setitem(I, o, k, v, st, fr, node):
    if I.may_unhash is not None and isinstance(I.container(o, st), Dct):
        bad = may_fail_to_hash(I, k, st, fr, node)
        if bad:
            return bad + setitem_hashed(I, o, k, v, st, fr, node)
    return setitem_hashed(I, o, k, v, st, fr, node)


def setitem_hashed(I, o, k, v, st, fr, node):
    if isinstance(o, Ref) and isinstance(st.heap.get(o.id), Inst):
        x = st.obj(o)
        if isinstance(x.cls, ClassInfo):
            f = I.p.find_member(x.cls, '__setitem__')
            if f is not None and f[1][0] == 'func' and not fr_in(fr, f[1][1]):
                return I.call(FuncV(f[1][1]), [one(o), one(k), one(v)], [], st, fr, node)
    c = I.container(o, st)
    if c is None or isinstance(c, Tup):
        st.event('mutate', o, 'setitem', I.loc(node, fr))
        return [(st, NONE)]
    mutate(I, o, st, 'setitem', fr, node)
    ref = I.container_ref(o, st)
    if isinstance(c, Dct) and I.unhashable(k, st):
        return [(st, I.raise_new(st, 'builtins.TypeError', node, fr))]
    if isinstance(c, Dct):
        out, frontier = [], [st]
        for i, cell in enumerate(c.cells):
            if cell[0] != '1':
                continue
            nxt = []
            for s in frontier:
                for s2, r in I.same(k, cell[1], s):
                    if r:
                        cur = s2.obj(ref)
                        s2.put(ref, replace(cur, cells=cur.cells[:i] + (kv(cell[1], v),) + cur.cells[i + 1:]))
                        out.append((s2, NONE))
                    else:
                        nxt.append(s2)
            frontier = nxt
        for s in frontier:
            cur = s.obj(ref)
            done = False
            for i, cell in enumerate(cur.cells):
                if cell[0] == '*' and any(x[0] == k for x in cell[2]) and cell[1] in s.active:
                    # the cell stands for all generic keys: their value is replaced
                    if (ref, cell[1], 'own') in s.data:
                        break
            s.put(ref, replace(cur, cells=cur.cells + (kv(k, v),)))
            out.append((s, NONE))
        return out
    # lists
    if full_slice(k) and isinstance(c, Lst):
        out = []
        for s, cells in I.collect(v, st, fr, node):
            if isinstance(cells, Raise):
                out.append((s, cells))
            else:
                s.put(ref, replace(s.obj(ref), cells=cells))
                out.append((s, NONE))
        return out
    if I.star_len is not None and I.aff(k) is not None:
        n = I.cut_at(c.cells, k, st)
        if n == 'out':
            return [(st, I.raise_new(st, 'builtins.IndexError', node, fr))]
        if n is None or c.cells[n][0] != '1':
            st.blur('symbolic index')
            return [(st, NONE)]
        st.put(ref, replace(c, cells=c.cells[:n] + (one(v),) + c.cells[n + 1:]))
        return [(st, NONE)]
    if isinstance(k, Const) and isinstance(k.v, int):
        n = k.v
        cells = c.cells
        if n >= 0 and all(x[0] == '1' for x in cells[:n + 1]):
            if n >= len(cells):
                return [(st, I.raise_new(st, 'builtins.IndexError', node, fr))]
            st.put(ref, replace(c, cells=cells[:n] + (one(v),) + cells[n + 1:]))
            return [(st, NONE)]
        if n < 0 and -n <= len(cells) and all(x[0] == '1' for x in cells[n:]):
            m = len(cells) + n
            st.put(ref, replace(c, cells=cells[:m] + (one(v),) + cells[m + 1:]))
            return [(st, NONE)]
    if isinstance(k, Term) and k.op == 'idx':
        n = I.find_cell(c.cells, k, st)
        if n is not None and c.cells[n][0] == '1':
            st.put(ref, replace(c, cells=c.cells[:n] + (one(v),) + c.cells[n + 1:]))
            return [(st, NONE)]
    st.put(ref, replace(c, cells=c.cells + (('set', k, v),))) if getattr(I, 'track_list_edits', False) else st.blur('list item assignment')
    return [(st, NONE)]


def delitem(I, o, k, st, fr, node):
    if isinstance(o, Ref) and isinstance(st.heap.get(o.id), Inst):
        x = st.obj(o)
        if isinstance(x.cls, ClassInfo):
            f = I.p.find_member(x.cls, '__delitem__')
            if f is not None and f[1][0] == 'func' and not fr_in(fr, f[1][1]):
                return I.call(FuncV(f[1][1]), [one(o), one(k)], [], st, fr, node)
    c = I.container(o, st)
    if isinstance(c, Dct):
        return I.bind(lookup(I, o, c, k, st, fr, node, 'raise', remove=True), lambda s, _: [(s, NONE)])
    if full_slice(k) and isinstance(c, Lst):
        mutate(I, o, st, 'delitem', fr, node)
        st.put(I.container_ref(o, st), replace(c, cells=()))
        return [(st, NONE)]
    if isinstance(k, SliceV) and isinstance(c, Lst) and exact_slice(c.cells, k) is not None:
        gone = set(exact_slice(c.cells, k))
        mutate(I, o, st, 'delitem', fr, node)
        st.put(I.container_ref(o, st), replace(c, cells=tuple(x for i, x in enumerate(c.cells) if i not in gone)))
        return [(st, NONE)]
    if c is not None and not isinstance(c, Tup):
        return method(I, o, 'pop', [one(k)], [], st, fr, node)
    st.event('mutate', o, 'delitem', I.loc(node, fr))
    return [(st, NONE)]


BOOL_STR = {'startswith', 'endswith', 'isdigit', 'isalpha', 'isspace', 'isdecimal', 'isnumeric', 'isidentifier', 'isalnum', 'islower', 'isupper', 'istitle', 'isprintable', 'isascii', '__contains__'}


def method(I, recv, name, pos, kw, st, fr, node):
    if isinstance(recv, SuperV):
        return super_method(I, recv, name, pos, kw, st, fr, node)
    if isinstance(recv, Term) and recv.op in ('call', 'found'):
        r = text.regex(I, recv, name, pos, kw, st, fr, node)
        if r is not None:
            return r
    if isinstance(recv, Const) and isinstance(recv.v, str) or text.is_text(recv):
        r = text.method(I, recv, name, pos, kw, st, fr, node)
        if r is not None:
            return r
    if text.is_text(recv):
        return str_method(I, recv, name, pos, kw, st, fr, node)
    if isinstance(recv, Const):
        return const_method(I, recv, name, pos, kw, st, fr, node)
    if isinstance(recv, ExtV):
        return None
    o = I.container(recv, st)
    if o is None and isinstance(recv, LazyV):
        if name == '__iter__':
            return [(st, recv)]
        return None
    if o is None:
        k = I.kinds(recv, st)
        if k <= frozenset(('str', 'missing')):
            return str_method(I, recv, name, pos, kw, st, fr, node)
        if isinstance(recv, (Sym, Term)) and k <= frozenset(('bool', 'int', 'float')):
            if name == 'is_integer':
                return [(s, mk(b)) for s, b in I.fact(st, Term('is_integer', recv))]
        if isinstance(recv, (Sym, Term)) and name in ('keys', 'items', 'values', 'get') and 'mapping' in k:
            o = I.container(recv, st, 'mapping')
        if o is None and isinstance(recv, Ref) and isinstance(st.heap.get(recv.id), Inst):
            ob = st.obj(recv)
            if name == 'with_traceback':
                return [(st, recv)]
            if name == '_replace' and isinstance(ob.cls, ClassInfo) and 'typing.NamedTuple' in I.p.mro(ob.cls) and not pos and all(c[0] == '1' and isinstance(c[1], Const) for c in kw):
                n = replace(ob, owner='fresh')
                for c in kw:
                    n = n.set(c[1].v, c[2])
                return [(st, st.new(n))]
            if name == '_asdict' and isinstance(ob.cls, ClassInfo) and 'typing.NamedTuple' in I.p.mro(ob.cls):
                return [(st, st.new(Dct(tuple(kv(Const(k), v) for k, v in ob.attrs))))]
            if name == '__init__':
                return [(st, NONE)]
            if name in ('keys', 'items', 'values', 'get', 'clear', 'pop', '__contains__') and isinstance(ob.cls, ClassInfo):
                return inst_view(I, recv, name, pos, st, fr, node)
        if o is None:
            return None
    ref = I.container_ref(recv, st)
    if isinstance(o, Dct):
        return dict_method(I, recv, o, ref, name, pos, kw, st, fr, node)
    return seq_method(I, recv, o, ref, name, pos, kw, st, fr, node)


def inst_view(I, recv, name, pos, st, fr, node):
    """The methods collections.abc.Mapping derives from __iter__ and __getitem__."""
    cls = st.obj(recv).cls
    it, get = I.p.find_member(cls, '__iter__'), I.p.find_member(cls, '__getitem__')
    if not get or get[1][0] != 'func' or not it or it[1][0] != 'func':
        return None
    get = FuncV(get[1][1])
    if name == 'get':
        out = []
        for s, v in I.call(get, [one(recv), one(P(pos, 0))], [], st, fr, node):
            if isinstance(v, Raise) and I.exc_match(v.exc, [ExtV('builtins.KeyError')], s) == 'yes':
                v = P(pos, 1, NONE)
            out.append((s, v))
        return out
    if name == '__contains__':
        return mapping_contains(I, get, recv, P(pos, 0), st, fr, node)
    if name in ('clear', 'pop'):
        if not any(isinstance(c, str) and c.endswith('MutableMapping') for c in I.p.mro(cls)):
            return None
        rm = I.p.find_member(cls, '__delitem__')
        if not rm or rm[1][0] != 'func':
            return None
        rm = FuncV(rm[1][1])
        if name == 'pop':
            out = []
            for s, v in I.call(get, [one(recv), one(P(pos, 0))], [], st, fr, node):
                if isinstance(v, Raise):
                    out.append((s, P(pos, 1) if P(pos, 1) is not None and I.exc_match(v.exc, [ExtV('builtins.KeyError')], s) == 'yes' else v))
                else:
                    out.extend(I.bind(I.call(rm, [one(recv), one(P(pos, 0))], [], s, fr, node), lambda s2, _, v=v: [(s2, v)]))
            return out
        # popitem() until nothing is left
        out, front = [], [st]
        for _ in range(24):
            nxt = []
            for s in front:
                s.data.pop(('lazy-next', LazyV('iter', recv)), None)    # a new iterator each time
                for s2, k in b_next(I, [one(LazyV('iter', recv)), one(Term('nothing'))], [], s, fr, node):
                    if isinstance(k, Raise) or k == Term('nothing'):
                        out.append((s2, k if isinstance(k, Raise) else NONE))
                        continue
                    for s3, r in I.bind(I.call(get, [one(recv), one(k)], [], s2, fr, node), lambda s4, _: I.call(rm, [one(recv), one(k)], [], s4, fr, node)):
                        if isinstance(r, Raise):
                            out.append((s3, r if I.exc_match(r.exc, [ExtV('builtins.KeyError')], s3) != 'yes' else NONE))
                        else:
                            nxt.append(s3)
            front = nxt
            if not front:
                return out
        for s in front:
            s.blur('clear does not end')
            out.append((s, NONE))
        return out
    out = []
    for s, cells in I.collect(recv, st, fr, node):
        if isinstance(cells, Raise) or name == 'keys':
            out.append((s, cells if isinstance(cells, Raise) else s.new(Lst(cells, 'list'))))
            continue
        if any(c[0] != '1' for c in cells):
            return None
        front = [(s, ())]
        for c in cells:
            nxt = []
            for s1, acc in front:
                for s2, v in I.call(get, [one(recv), c], [], s1, fr, node):
                    if isinstance(v, Raise):
                        out.append((s2, v))
                    else:
                        nxt.append((s2, acc + (one(v if name == 'values' else Tup([c, one(v)])),)))
            front = nxt
        out.extend((s1, s1.new(Lst(acc, 'list'))) for s1, acc in front)
    return out


def mapping_contains(I, get, recv, k, st, fr, node):
    out = []
    for s, v in I.call(get, [one(recv), one(k)], [], st, fr, node):
        if isinstance(v, Raise):
            out.append((s, FALSE if I.exc_match(v.exc, [ExtV('builtins.KeyError')], s) == 'yes' else v))
        else:
            out.append((s, TRUE))
    return out


def b_hash(I, pos, kw, st, fr, node):
    v = P(pos, 0)
    if I.unhashable(v, st):
        return [(st, I.raise_new(st, 'builtins.TypeError', node, fr))]
    o = st.heap.get(v.id) if isinstance(v, Ref) else None
    if isinstance(o, Inst) and isinstance(o.cls, ClassInfo):
        h, e = I.p.find_member(o.cls, '__hash__'), I.p.find_member(o.cls, '__eq__')
        if h is not None and h[1][0] == 'func':
            return I.call(FuncV(h[1][1]), [one(v)], [], st, fr, node)
        if e is not None:
            return [(st, I.raise_new(st, 'builtins.TypeError', node, fr))]
    t = Term('hash', v)
    st.kinds[t] = frozenset(('int',))
    return [(st, t)]


def x_view(name):
    def f(I, pos, kw, st, fr, node):
        v = P(pos, 0)
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), Inst):
            return inst_view(I, v, name, [], st, fr, node)
        return I.call(ExtBound(v, name), [], [], st, fr, node)
    return f


def dict_method(I, recv, o, ref, name, pos, kw, st, fr, node):
    if name in ('items', 'keys', 'values'):
        if isinstance(recv, (Sym, Term)):
            st.event('view', recv, name)
        return [(st, LazyV(name, recv))]
    if name in ('get',):
        return lookup(I, recv, o, P(pos, 0), st, fr, node, 'default', arg(pos, kw, 1, 'default', NONE))
    if name == '__getitem__':
        return lookup(I, recv, o, P(pos, 0), st, fr, node, 'raise')
    if name == '__contains__':
        return [(s, mk(b)) for s, b in I.member(P(pos, 0), o, recv, st)]
    if name == '__setitem__':
        return setitem(I, recv, P(pos, 0), P(pos, 1), st, fr, node)
    if name == '__delitem__':
        return delitem(I, recv, P(pos, 0), st, fr, node)
    if name == '__len__':
        return [(st, I.length(recv, st))]
    if name == '__iter__':
        return [(st, LazyV('keys', recv))]
    if name == 'pop':
        if len(pos) > 1:
            return lookup(I, recv, o, P(pos, 0), st, fr, node, 'default', P(pos, 1), remove=True)
        return lookup(I, recv, o, P(pos, 0), st, fr, node, 'raise', remove=True)
    if name == 'setdefault':
        d = P(pos, 1, NONE)
        out = []
        for s, v in lookup(I, recv, o, P(pos, 0), st, fr, node, 'default', Term('$absent')):
            if v == Term('$absent'):
                out.extend(I.bind(setitem(I, recv, P(pos, 0), d, s, fr, node), lambda s2, _: [(s2, d)]))
            else:
                out.append((s, v))
        return out
    if name == 'update':
        mutate(I, recv, st, 'update', fr, node)
        res = [(st, NONE)]
        if pos:
            src = P(pos, 0)
            so = I.container(src, st)
            if so is None and isinstance(src, (Sym, Term)):
                k = I.kinds(src, st)
                if 'mapping' in k and 'sequence' not in k or isinstance(src, Term) and src.op == 'M':
                    so = I.container(src, st, 'mapping')
            if so is None and isinstance(src, (Sym, Term)) and not isinstance(src, LazyV):
                cur = st.obj(ref)
                st.put(ref, replace(cur, cells=cur.cells + (('*', f'spread({src!r})', ((Term('spreadkey', src), Term('spread', src)),)),)))
                res = [(st, NONE)]
            elif isinstance(so, Dct):
                def addall(s):
                    fr2 = [(s, NONE)]
                    for c in so.cells:
                        nx = []
                        for s1, _ in fr2:
                            if c[0] == '1':
                                nx.extend(setitem_fresh(I, ref, c[1], c[2], s1, fr, node))
                            else:
                                cur = s1.obj(ref)
                                cells = cur.cells
                                for i, d in enumerate(cells):
                                    if d[0] == '*' and d[1] == c[1]:
                                        keys = {x[0] for x in c[2]}
                                        vals = tuple(x for x in d[2] if x[0] not in keys) + c[2]
                                        cells = cells[:i] + (('*', d[1], vals),) + cells[i + 1:]
                                        break
                                else:
                                    cells = cells + (c,)
                                s1.put(ref, replace(cur, cells=cells))
                                nx.append((s1, NONE))
                        fr2 = nx
                    return fr2
                res = addall(st)
            else:
                def body(s, item):
                    if isinstance(item, Tup) and len(item.cells) == 2 and all(c[0] == '1' for c in item.cells):
                        k, v = item.cells[0][1], item.cells[1][1]
                    else:
                        k, v = Term('item', item, Const(0)), Term('item', item, Const(1))
                    return [(s2, ('exc', r.exc) if isinstance(r, Raise) else None) for s2, r in setitem_fresh(I, ref, k, v, s, fr, node)]
                res = [(s, Raise(c[1]) if c is not None and c[0] == 'exc' else NONE) for s, c in I.iterate(src, st, fr, body, node)]
        for c in kw:
            if c[0] == '1':
                res = I.bind(res, lambda s, _, c=c: setitem_fresh(I, ref, c[1], c[2], s, fr, node))
            else:
                def addc(s, _, c=c):
                    cur = s.obj(ref)
                    s.put(ref, replace(cur, cells=cur.cells + (c,)))
                    return [(s, NONE)]
                res = I.bind(res, addc)
        return res
    if name == 'clear':
        mutate(I, recv, st, 'clear', fr, node)
        st.put(ref, replace(o, cells=()))
        return [(st, NONE)]
    if name == 'copy':
        return [(st, st.new(replace(o, owner='fresh', sym=None if o.kind == 'dict' else o.sym)))]
    if name == 'popitem':
        mutate(I, recv, st, 'popitem', fr, node)
        if not o.cells:
            return [(st, I.raise_new(st, 'builtins.KeyError', node, fr))]
        last = KW(kw, 'last', P(pos, 0, TRUE))
        c = o.cells[-1] if last != FALSE else o.cells[0]
        if c[0] == '1':
            st.put(ref, replace(o, cells=tuple(x for x in o.cells if x != c)))
            return [(st, Tup([one(c[1]), one(c[2])]))]
        st.blur('popitem')
        return [(st, Tup([one(Term('popkey', recv)), one(Term('popval', recv))]))]
    if name == 'move_to_end':
        return [(st, NONE)]
    return None


def setitem_fresh(I, ref, k, v, st, fr, node):
    return setitem(I, ref, k, v, st, fr, node)


def seq_method(I, recv, o, ref, name, pos, kw, st, fr, node):
    a = P(pos, 0)
    if name in ('append', 'add', 'appendleft'):
        mutate(I, recv, st, name, fr, node)
        if ref is None:
            return [(st, NONE)]
        if name == 'add' and I.unhashable(a, st):
            return [(st, I.raise_new(st, 'builtins.TypeError', node, fr))]
        if name == 'add' and one(a) in o.cells:
            return [(st, NONE)]
        bad = may_fail_to_hash(I, a, st, fr, node) if name == 'add' else []
        cells = (one(a),) + o.cells if name == 'appendleft' else o.cells + (one(a),)
        st.put(ref, replace(o, cells=cells))
        return bad + [(st, NONE)]
    if name in ('extend', 'update'):
        mutate(I, recv, st, name, fr, node)
        res = [(st, NONE)]
        for c in pos:
            def ext(s, _, c=c):
                src = c[1]
                if I.seq_cells(src, s) is None and isinstance(src, (GenExprV, LazyV, Ref)):
                    def body(s2, item):
                        cur = s2.obj(ref)
                        s2.put(ref, replace(cur, cells=cur.cells + (one(item),)))
                        return [(s2, None)]
                    return [(s2, Raise(x[1]) if x is not None and x[0] == 'exc' else NONE) for s2, x in I.iterate(src, s, fr, body, node)]
                out = []
                for s2, cells in I.collect(src, s, fr, node):
                    if isinstance(cells, Raise):
                        out.append((s2, cells))
                    else:
                        cur = s2.obj(ref)
                        cc = cur.cells
                        for x in cells:
                            if cur.kind == 'set' and x in cc:
                                continue
                            cc = add_star(cc, x) if x[0] == '*' else cc + (x,)
                        s2.put(ref, replace(cur, cells=cc))
                        out.append((s2, NONE))
                return out
            res = I.bind(res, ext)
        return res
    if name in ('pop', 'popleft'):
        if isinstance(o, Tup):
            return None
        if o.kind == 'set':
            mutate(I, recv, st, 'pop', fr, node)
            st.blur('set.pop')
            return [(st, Term('popped', recv))]
        return seq_pop(I, recv, o, ref, Const(0) if name == 'popleft' else (a if a is not None else Const(-1)), st, fr, node)
    if name == 'insert':
        mutate(I, recv, st, 'insert', fr, node)
        i, v = P(pos, 0), P(pos, 1)
        if i == Const(0):
            st.put(ref, replace(o, cells=(one(v),) + o.cells))
            return [(st, NONE)]
        if i == I.length(recv, st):
            st.put(ref, replace(o, cells=o.cells + (one(v),)))
            return [(st, NONE)]
        if isinstance(i, Const) and isinstance(i.v, int) and i.v > 0 and all(c[0] == '1' for c in o.cells[:i.v]):
            st.put(ref, replace(o, cells=o.cells[:i.v] + (one(v),) + o.cells[i.v:]))
            return [(st, NONE)]
        n = I.find_cell(o.cells, i, st) if isinstance(i, Term) and i.op == 'idx' else None
        if n is not None and o.cells[n][0] == '1':
            st.put(ref, replace(o, cells=o.cells[:n] + (one(v),) + o.cells[n:]))
            return [(st, NONE)]
        st.blur('insert at unknown position')
        st.put(ref, replace(o, cells=o.cells + (one(v),)))
        return [(st, NONE)]
    if name == 'clear':
        mutate(I, recv, st, name, fr, node)
        st.put(ref, replace(o, cells=()))
        return [(st, NONE)]
    if name in ('remove', 'discard'):
        mutate(I, recv, st, name, fr, node)
        out, frontier = [], [st]
        for c in o.cells:
            nxt = []
            for s in frontier:
                if c[0] == '1':
                    for s2, r in I.same(a, c[1], s):
                        if r:
                            cur = s2.obj(ref)
                            cs = list(cur.cells)
                            cs.remove(c)
                            s2.put(ref, replace(cur, cells=tuple(cs)))
                            out.append((s2, NONE))
                        else:
                            nxt.append(s2)
                elif all(I.distinct(a, x, s) for x in c[2]):
                    nxt.append(s)
                else:
                    for s2, r in I.fact(s, Term('instar', a, recv, c[1])):
                        (out.append((s2, NONE)) if r else nxt.append(s2))
            frontier = nxt
        for s in frontier:
            out.append((s, I.raise_new(s, 'builtins.ValueError', node, fr) if name == 'remove' and o.kind != 'set' else
                        (I.raise_new(s, 'builtins.KeyError', node, fr) if name == 'remove' else NONE)))
        return out
    if name == 'reverse':
        mutate(I, recv, st, name, fr, node)
        st.put(ref, replace(o, cells=tuple(reversed(o.cells))))
        return [(st, NONE)]
    if name == 'sort':
        mutate(I, recv, st, name, fr, node)
        out = []
        for s, r in sort_cells(I, o.cells, KW(kw, 'key', NONE), KW(kw, 'reverse', FALSE), st, fr, node):
            if isinstance(r, Raise):
                out.append((s, r))
                continue
            if r is None:
                s.blur('sort')
            elif ref is not None:
                s.put(ref, replace(s.obj(ref), cells=tuple(r)))
            out.append((s, NONE))
        return out
    if name == 'copy':
        return [(st, recv if isinstance(o, Tup) else st.new(replace(o, owner='fresh', sym=None)))]
    if name in ('__iter__',):
        return [(st, LazyV('iter', recv))]
    if name == '__len__':
        return [(st, I.length(recv, st))]
    if name == '__contains__':
        return [(s, mk(b)) for s, b in I.member(a, o, recv, st)]
    if name == '__getitem__':
        return seq_get(I, recv, o, a, st, fr, node)
    if name in ('intersection', 'difference', 'symmetric_difference', 'isdisjoint', 'issubset', 'issuperset', 'intersection_update', 'difference_update') and o.kind == 'set' and len(pos) == 1:
        def on(s, cells):
            cur = s.obj(ref) if ref is not None else o
            if name == 'issubset':
                return [(s2, mk(b)) for s2, b in subset(I, cur, Lst(cells, 'set'), s)]
            if name == 'issuperset':
                return [(s2, mk(b)) for s2, b in subset(I, Lst(cells, 'set'), cur, s)]
            if name == 'isdisjoint':
                return [(s2, mk(not s2.obj(r).cells)) for s2, r in set_op(I, 'intersection', cur, cells, s)]
            if name.endswith('_update'):
                mutate(I, recv, s, name, fr, node)
                out = []
                for s2, r in set_op(I, name[:-7], cur, cells, s):
                    s2.put(ref, replace(s2.obj(ref), cells=s2.obj(r).cells))
                    out.append((s2, NONE))
                return out
            return set_op(I, name, cur, cells, s)
        out = []
        for s, cells in I.collect(a, st, fr, node):
            out.extend([(s, cells)] if isinstance(cells, Raise) else on(s, cells))
        return out
    if name in ('union', '__or__'):
        r = st.new(Lst(o.cells, 'set'))
        return I.bind(seq_method(I, r, st.obj(r), r, 'update', pos, kw, st, fr, node), lambda s, _: [(s, r)])
    if name in ('index', 'count'):
        t = Term(name, recv, a)
        if name == 'index' and isinstance(a, Const) and all(c[0] == '1' and isinstance(c[1], Const) for c in o.cells):
            for i, c in enumerate(o.cells):
                if c[1].v == a.v:
                    return [(st, Const(i))]
            return [(st, I.raise_new(st, 'builtins.ValueError', node, fr))]
        if name == 'index':
            if getattr(I, 'index_total', True):
                return [(st, t)]
            return forks(I, st, t, ['builtins.ValueError'], node, fr)
        return [(st, t)]
    return None


def set_op(I, name, a, bcells, st):
    """intersection, difference, symmetric_difference of a set with the items of bcells."""
    if any(c[0] != '1' for c in tuple(a.cells) + tuple(bcells)):
        st.blur(f'{name} of summarised sets')
        return [(st, st.new(Lst((), 'set')))]

    def keep(cells, others, inside, front):
        for c in cells:
            nxt = []
            for s, acc in front:
                for s2, b in I.member(c[1], Lst(tuple(others), 'set'), Tup(tuple(others)), s):
                    nxt.append((s2, acc + (c,) if b == inside and c not in acc else acc))
            front = nxt
        return front
    front = keep(a.cells, bcells, name == 'intersection', [(st, ())])
    if name == 'symmetric_difference':
        front = keep(bcells, a.cells, False, front)
    return [(s, s.new(Lst(acc, 'set'))) for s, acc in front]


def subset(I, a, b, st):
    return [(s, not s.obj(r).cells) for s, r in set_op(I, 'difference', a, b.cells, st)]


def seq_pop(I, recv, o, ref, k, st, fr, node):
    mutate(I, recv, st, 'pop', fr, node)
    if I.star_len is not None and I.aff(k) is not None:
        n = I.cut_at(o.cells, k, st)
        if n == 'out':
            return [(st, I.raise_new(st, 'builtins.IndexError', node, fr))]
        if n is None or o.cells[n][0] != '1':
            st.blur('symbolic index')
            return [(st, Term('item', recv, k))]
        st.put(ref, replace(o, cells=o.cells[:n] + o.cells[n + 1:]))
        return [(st, o.cells[n][1])]
    if not (isinstance(k, Const) and isinstance(k.v, int)):
        n = I.find_cell(o.cells, k, st) if isinstance(k, Term) and k.op == 'idx' else None
        if n is not None and o.cells[n][0] == '1':
            c = o.cells[n]
            st.put(ref, replace(o, cells=o.cells[:n] + o.cells[n + 1:]))
            return [(st, c[1])]
        if getattr(I, 'track_list_edits', False):
            st.put(ref, replace(o, cells=o.cells + (('del', k),)))
            return [(st, Term('item', recv, k))]
        st.blur('pop at unknown index')
        return [(st, Term('popped', recv, k))]
    n = k.v
    front = n >= 0
    steps = n if front else -n - 1
    out = []
    frontier = [(st, o.cells, ())]
    # skip `steps` cells that must be definite
    cells = o.cells if front else tuple(reversed(o.cells))
    if any(c[0] == '*' for c in cells[:steps]) and steps:
        st.blur('pop past a summarised cell')
        return [(st, Term('popped', recv, k))]
    head, rest = cells[:steps], cells[steps:]

    def rebuild(h, r):
        x = tuple(h) + tuple(r)
        return x if front else tuple(reversed(x))
    work = [(st, rest, ())]
    while work:
        s, r, _ = work.pop()
        if not r:
            out.append((s, I.raise_new(s, 'builtins.IndexError', node, fr)))
            continue
        c = r[0]
        if c[0] == '1':
            cur = s.obj(ref)
            s.put(ref, replace(cur, cells=rebuild(head, r[1:])))
            out.append((s, c[1]))
            continue
        sid = c[1]
        if sid in s.active:
            # lockstep with the enclosing loop over the same summary
            s.consumed = s.consumed | {(ref, sid)}
            for i, v in enumerate(c[2]):
                s2 = s.fork() if i < len(c[2]) - 1 else s
                out.append((s2, v))
            continue
        s2 = s.fork()
        # exhausted: continue with what follows
        cur = s2.obj(ref)
        if s2.card.get(sid) is None:
            I.set_zero(s2, sid)
        s2.put(ref, replace(s2.obj(ref), cells=rebuild(head, r[1:])))
        if s.data.get(('left', ref, sid)) or s.card.get(sid) == 'some' and not s.data.get(('popped', ref, sid)):
            s.data[('left', ref, sid)] = False  # at least one left: cannot be exhausted
        else:
            work.append((s2, r[1:], ()))
        if s.card.get(sid) != 'zero':
            s.card[sid] = 'some'
            s.data[('popped', ref, sid)] = True
            for i, v in enumerate(c[2]):
                s3 = s.fork()
                out.append((s3, v))
    return out


def super_method(I, recv, name, pos, kw, st, fr, node):
    cls, self_ = recv.a
    if name == '__init__':
        if isinstance(self_, Ref):
            o = st.heap.get(self_.id)
            if isinstance(o, Inst) and o.get('__items__') is not None and pos:
                b = o.get('__items__')
                bo = st.obj(b)
                if isinstance(bo, Lst):
                    return method(I, b, 'extend', pos, [], st, fr, node)
                return method(I, b, 'update', pos, kw, st, fr, node)
            if isinstance(o, Inst) and isinstance(o.cls, ClassInfo) and I.p.is_subclass(o.cls, 'builtins.BaseException'):
                st.put(self_, o.set('args', Tup(pos)))
            elif (pos or kw) and isinstance(o, Inst) and isinstance(o.cls, ClassInfo):
                only_object = all(isinstance(c, ClassInfo) or c in ('builtins.object', 'typing.Generic') for c in I.p.mro(o.cls))
                if only_object and any(c[0] == '1' for c in list(pos) + list(kw)):
                    return [(st, I.raise_new(st, 'builtins.TypeError', node, fr, Const('object.__init__ takes no arguments')))]
        return [(st, NONE)]
    if name in ('__init_subclass__', '__setattr__', '__post_init__'):
        if name == '__setattr__' and isinstance(self_, Ref) and isinstance(P(pos, 0), Const):
            st.put(self_, st.obj(self_).set(P(pos, 0).v, P(pos, 1)))
        return [(st, NONE)]
    if name in ('__repr__', '__str__'):
        return [(st, Term('repr', self_ if self_ is not None else NONE))]
    if isinstance(self_, Ref):
        o = st.heap.get(self_.id)
        if isinstance(o, Inst) and o.get('__items__') is not None:
            b = o.get('__items__')
            if name == '__getitem__':
                return getitem(I, b, P(pos, 0), st, fr, node)
            if name == '__setitem__':
                return setitem(I, b, P(pos, 0), P(pos, 1), st, fr, node)
            if name == '__delitem__':
                return delitem(I, b, P(pos, 0), st, fr, node)
            return method(I, b, name, pos, kw, st, fr, node)
    return None


def const_method(I, recv, name, pos, kw, st, fr, node):
    v = recv.v
    if v is None:
        return [(st, I.raise_new(st, 'builtins.AttributeError', node, fr))]
    if isinstance(v, str):
        if name == 'join':
            return str_join(I, recv, pos, st, fr, node)
        if all(c[0] == '1' and isinstance(c[1], Const) for c in pos) and not kw and hasattr(v, name):
            try:
                r = getattr(v, name)(*[c[1].v for c in pos])
            except Exception as e:
                return [(st, I.raise_new(st, f'builtins.{type(e).__name__}', node, fr))]
            if isinstance(r, (list, tuple)):
                cells = tuple(one(Const(x)) for x in r)
                return [(st, Tup(cells) if isinstance(r, tuple) else st.new(Lst(cells)))]
            return [(st, Const(r))]
        return str_method(I, recv, name, pos, kw, st, fr, node)
    if isinstance(v, (int, float)) and not pos and not kw and name in ('is_integer', 'bit_length', '__abs__', '__neg__'):
        return [(st, Const(getattr(v, name)()))]
    return None


def str_join(I, recv, pos, st, fr, node):
    out = []
    for s, cells in I.collect(P(pos, 0), st, fr, node):
        if isinstance(cells, Raise):
            out.append((s, cells))
        elif isinstance(recv, Const) and all(c[0] == '1' and isinstance(c[1], Const) and isinstance(c[1].v, type(recv.v)) for c in cells):
            out.append((s, Const(recv.v.join(c[1].v for c in cells))))
        elif text.join(I, recv, cells, s) is not None:
            out.append((s, text.join(I, recv, cells, s)))
        else:
            out.append((s, Term('join', recv, Tup(cells))))
    return out


def str_method(I, recv, name, pos, kw, st, fr, node):
    if name == 'join':
        return str_join(I, recv, pos, st, fr, node)
    t = Term('strmeth', Const(name), recv, Tup(pos))
    if name in BOOL_STR:
        if isinstance(recv, (Sym, Term)) and I.kinds(recv, st) == frozenset(('missing',)) and all(isinstance(c[1], Const) for c in pos if c[0] == '1'):
            return [(st, Const(getattr(MISSING_TEXT, name)(*[c[1].v for c in pos])))]
        p0 = P(pos, 0)
        if isinstance(p0, Tup) and all(c[0] == '1' for c in p0.cells):
            out, frontier = [], [st]
            for c in p0.cells:
                nxt = []
                for s in frontier:
                    for s2, b in I.fact(s, Term('strmeth', Const(name), recv, Tup([c]))):
                        (out.append((s2, TRUE)) if b else nxt.append(s2))
                frontier = nxt
            return out + [(s, FALSE) for s in frontier]
        return [(s, mk(b)) for s, b in I.fact(st, t)]
    if name in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition'):
        r = Term('split', Const(name), recv, Tup(pos))
        return [(st, r)]
    if name in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'format', 'title', 'removeprefix', 'removesuffix', 'casefold', 'capitalize'):
        s0 = st.data.get(('strfix', recv, name, Tup(pos)))
        if s0 is not None:
            return [(st, s0)]
        return [(st, t)]
    if name in ('index', 'find', 'count', 'rfind'):
        return [(st, Term('stridx', Const(name), recv, Tup(pos)))]
    if name == 'encode':
        return [(st, Term('encode', recv))]
    return [(st, t)]
