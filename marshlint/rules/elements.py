"""Rules on the element functions: edits by path, merging, scans, kinds."""
import itertools
from ..scen import *
from .unmarshal import Runs, report_mutations, trace, val, flat_events, rooted

EL = 'marsh.element.'
PATH_ERR = 'marsh.errors.PathError'


# ------------------------------------------------------------------ trees
class A:
    """An atom of a known kind."""

    def __init__(self, name, kind):
        self.sym, self.kind = Sym(name), kind

    def __repr__(self):
        return f'<{self.kind}>'


class Miss:
    def __repr__(self):
        return "'???'"


MISS = Miss()
PRIMS = ('none', 'bool', 'int', 'float', 'str')


def atom(kind, n=[0]):
    n[0] += 1
    return A(f'leaf{n[0]}_{kind}', kind)


def put(st, tree):
    """Place an input element into the state; -> value."""
    if isinstance(tree, Miss):
        return MISSING
    if isinstance(tree, A):
        st.kinds[tree.sym] = frozenset((tree.kind,))
        return tree.sym
    s = Sym(f'el{id(tree)}')
    if isinstance(tree, dict):
        o = Dct(tuple(kv(Const(k), put(st, v)) for k, v in tree.items()), 'dict', 'input', s)
        st.kinds[s] = frozenset(('mapping',))
    elif isinstance(tree, Stars):
        o = Lst((star('pre', tree.pre), one(put(st, tree.x)), star('post', tree.post)), 'list', 'input', s)
        st.kinds[s] = frozenset(('sequence',))
    else:
        o = Lst(tuple(one(put(st, v)) for v in tree), 'list', 'input', s)
        st.kinds[s] = frozenset(('sequence',))
    st.content[s] = st.new(o)
    return s


class Stars:
    """A sequence of p items, one known item and q items; p, q >= 0."""

    def __init__(self, x):
        self.x = x
        self.pre, self.post = Sym('preitem', 'pre'), Sym('postitem', 'post')

    def __repr__(self):
        return f'[p items, {self.x!r}, q items]'


class Cells:
    """Expected content of a sequence, cells of atoms / trees / star cells."""

    def __init__(self, *cells):
        self.cells = cells

    def __repr__(self):
        return f'[{", ".join(map(repr, self.cells))}]'


def agrees(I, st, v, tree, depth=0):
    """Does value v hold exactly the tree?  True / False / None (not known)."""
    if depth > 8:
        return None
    if isinstance(tree, Miss):
        return v == MISSING
    if isinstance(tree, A):
        if v == tree.sym:
            return True
        if isinstance(v, (Sym, Const, Ref, Tup)):
            return False
        return None
    o = I.container(v, st) if isinstance(v, (Sym, Ref, Tup, Term)) else None
    if o is None:
        return False if isinstance(v, (Const, Sym)) else None
    if isinstance(tree, dict):
        if not isinstance(o, Dct):
            return False
        keys = []
        for c in o.cells:
            if c[0] != '1' or not isinstance(c[1], Const):
                return None
            keys.append(c[1].v)
        if keys != list(tree):
            return False
        rs = [agrees(I, st, c[2], tree[c[1].v], depth + 1) for c in o.cells]
        return False if False in rs else None if None in rs else True
    if isinstance(o, Dct):
        return False
    want = tree.cells if isinstance(tree, Cells) else (star('pre', tree.pre), tree.x, star('post', tree.post)) if isinstance(tree, Stars) else tree
    if isinstance(v, Ref) and getattr(o, 'kind', '') == 'set':
        return False
    rs = []
    have = list(o.cells)
    if len(have) != len(want):
        return False if all(c[0] in '1*' for c in have) else None
    for h, w in zip(have, want):
        if isinstance(w, tuple):
            rs.append(h == w if h[0] == '*' else False)
        elif h[0] != '1':
            rs.append(False)
        else:
            rs.append(agrees(I, st, h[1], w, depth + 1))
    return False if False in rs else None if None in rs else True


# ------------------------------------------------------------------ paths
def fields_of(path):
    """The fields of a written path (backslashes escape, quotes group); None when malformed."""
    out, cur, quote, esc = [], '', None, False
    for ch in path:
        if esc:
            cur, esc = cur + ch, False
        elif ch == '\\':
            esc = True
        elif quote:
            cur, quote = (cur, None) if ch == quote else (cur + ch, quote)
        elif ch in '\'"':
            quote = ch
        elif ch == '.':
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return None if quote or esc else [x for x in out + [cur] if x]


def written(fields):
    """The path that names these fields."""
    return '.'.join(''.join('\\' + ch if ch in '\'"\\.' else ch for ch in f) for f in fields if f)


def split_model(I, pos, kw, st, fr, node):
    a = lib.arg(pos, kw, 0, 'path')
    if isinstance(a, Const) and isinstance(a.v, str) and fields_of(a.v) is not None:
        return [(st, Tup([one(Const(x)) for x in fields_of(a.v)]))]
    return None


def join_model(I, pos, kw, st, fr, node):
    a = lib.arg(pos, kw, 0, 'fields')
    cells = I.seq_cells(a, st)
    if cells is not None and all(c[0] == '1' and isinstance(c[1], Const) for c in cells):
        return [(st, Const(written(c[1].v for c in cells)))]
    return None


def interp(p, budget=30.0, **flags):
    I = lib.make(p, budget=budget, **flags)
    I.child_any_exc = False
    I.rec_limit = 8
    for n in ('split', 'iterative_split'):
        p.get_func('marsh.path.split')
        I.models['marsh.path.' + n] = split_model
    I.models['marsh.path.join_fields'] = join_model
    base = I.ext_models.get('builtins.int')
    I.int_of = {}

    def int_(I, pos, kw, st, fr, node):
        if pos and pos[0][0] == '1' and isinstance(pos[0][1], Const) and pos[0][1].v in I.int_of:
            return [(st, I.int_of[pos[0][1].v])]
        return base(I, pos, kw, st, fr, node)
    I.ext_models = dict(I.ext_models)
    I.ext_models['builtins.int'] = int_
    return I


def nested_path(v):
    """Fields of a path value built by prepending to a constant path, or None."""
    out = []
    while isinstance(v, Term) and v.op == 'prepend':
        if not isinstance(v.args[1], Const):
            return None
        out.append(str(v.args[1].v))
        v = v.args[0]
    if isinstance(v, Const) and isinstance(v.v, str):
        last = fields_of(v.v)
        return out + (last if last is not None else [f'(unreadable: {v.v})'])
    return None


def is_path_error(p, o):
    return isinstance(o.exc.cls, ClassInfo) and p.is_subclass(o.exc.cls, PATH_ERR) is True


class PathFail(Exception):
    def __init__(self, fields):
        self.fields = fields


class AnyFail(Exception):
    pass


# -- what the documentation says the edits do ------------------------------
def where(seq, field, extra=0):
    n = len(seq)
    try:
        i = int(field)
    except ValueError:
        return None
    if i < 0:
        i += n
    return i if 0 <= i < n + extra else None


def spec_select(el, fields, walked=()):
    if not fields:
        return el
    f = fields[0]
    if isinstance(el, dict):
        if f not in el:
            raise PathFail(walked)
        return spec_select(el[f], fields[1:], walked + (f,))
    if isinstance(el, list):
        i = where(el, f)
        if i is None:
            raise PathFail(walked)
        return spec_select(el[i], fields[1:], walked + (f,))
    raise PathFail(walked)


def spec_override(el, value, fields, combine, walked=()):
    if not fields:
        if combine:
            if isinstance(el, dict) and isinstance(value, dict):
                return {**el, **value}
            if isinstance(el, list) and isinstance(value, list):
                return el + value
        return value
    f = fields[0]
    if isinstance(el, Miss):
        el = {}
    if isinstance(el, dict):
        el = dict(el)
        el[f] = spec_override(el.get(f, {}), value, fields[1:], combine, walked + (f,))
        return el
    if isinstance(el, list):
        i = where(el, f, 1)
        if i is None:
            raise PathFail(walked)
        el = list(el)
        if i == len(el):
            el.append({})
        el[i] = spec_override(el[i], value, fields[1:], combine, walked + (f,))
        return el
    raise PathFail(walked)


def spec_remove(el, fields, walked=()):
    f, rest = fields[0], fields[1:]
    if isinstance(el, dict):
        if f not in el:
            raise PathFail(walked)
        el = dict(el)
        if not rest:
            del el[f]
            return el
        if not isinstance(el[f], (dict, list)):
            raise PathFail(walked + (f,))
        el[f] = spec_remove(el[f], rest, walked + (f,))
        return el
    if isinstance(el, list):
        i = where(el, f)
        if i is None:
            raise PathFail(walked)
        el = list(el)
        if not rest:
            del el[i]
            return el
        if not isinstance(el[i], (dict, list)):
            raise PathFail(walked + (f,))
        el[i] = spec_remove(el[i], rest, walked + (f,))
        return el
    raise AnyFail


def contents(kinds=PRIMS):
    """(element, paths): nestings of mappings and sequences with the paths that are tried on them."""
    def inner():
        yield {}
        yield {'a': atom('int')}
        yield {'b': atom('str'), 'a': atom('int')}
        yield []
        yield [atom('int')]
        yield [atom('int'), atom('str'), atom('float')]
        yield MISS
        for k in kinds:
            yield atom(k)
    index = ('0', '1', '-1', '2', '-2', '3', '-3', '-4', 'x', '1.5'.replace('.', ''))
    for el in inner():
        for f in (index if isinstance(el, list) else ('a', 'b', '0')):
            yield el, (f,)
    for x in inner():
        for f in (index if isinstance(x, list) else ('a', 'b', '-1')):
            yield {'k': x, 'l': atom('int')}, ('k', f)
            yield {'j': atom('int'), 'k': x}, ('k', f)
            if isinstance(x, (dict, list)):
                yield [atom('int'), x], ('1', f)
                yield [x, atom('int')], ('-2', f)
    for x in ({'a': atom('int')}, [atom('int'), atom('str')], MISS, atom('int'), atom('none')):
        for f in ('a', '1', '2', '-1'):
            yield {'k': [x, atom('int')], 'l': atom('int')}, ('k', '0', f)
            yield {'k': {'m': x, 'n': atom('int')}}, ('k', 'm', f)
            yield [[x], atom('int')], ('0', '-1', f)
            yield {'k': x}, ('missing', f)
            yield {'k': x}, ('k', f, 'deeper')
    # keys that a path has to escape
    for f in ('x.y', "it's", 'a\\b', 'p"q.'):
        for x in (atom('int'), {'a': atom('int')}, [atom('int')], MISS):
            yield {f: x, 'x': atom('str')}, (f,)
            for g in ('a', f, '0'):
                yield {f: x}, (f, g)
                yield {'k': {f: x}}, ('k', f, g)
                yield [{f: x}], ('0', f, g)
    # whole containers below other containers
    for x in ({'a': atom('int'), 'c': atom('str')}, [atom('int'), atom('str')], {}, []):
        yield {'k': x, 'l': atom('int')}, ('k',)
        yield [x, atom('int')], ('0',)
        yield [atom('int'), x], ('-1',)
        for y, g in (({'m': x}, 'm'), ([atom('int'), x], '1')):
            yield {'k': y}, ('k', g)
            yield [y], ('0', g)
            yield {'j': {'k': y}}, ('j', 'k', g)
            yield [[y]], ('-1', '0', g)


def note(c, I, sc, o, want, fields, rule, where_, what):
    """Compare one outcome with what the documentation says."""
    p = c.p
    if isinstance(want, tuple):
        if o.ok:
            c.ob(rule, False, where_, f'{what} is accepted and gives {show(I, o.st, o.value)}', trace(o))
            return
        if not is_path_error(p, o):
            c.ob(rule, False, o.origin(), f'{what} raises {o.cls_name()}, not the path error', trace(o))
            return
        got = nested_path(o.path())
        if got is None:
            c.undecided.append(f'{what}: error path {o.path()!r}')
            return
        c.ob('error-path', got == list(want), o.origin(), f'{what}: the path error carries {got} instead of {list(want)}', trace(o))
        return
    if not o.ok:
        c.ob(rule, False, o.origin(), f'{what} raises {o.cls_name()}', trace(o))
        return
    r = agrees(I, o.st, o.value, want)
    if r is None:
        c.undecided.append(f'{what}: result {o.value!r}'[:200])
        return
    c.ob(rule, r, where_, f'{what} gives {show(I, o.st, o.value)} instead of {want!r}', trace(o))


def show(I, st, v, depth=0):
    o = I.container(v, st) if isinstance(v, (Sym, Ref, Tup, Term)) else None
    if o is None or depth > 4:
        if isinstance(v, Sym) and v in st.kinds and len(st.kinds[v]) == 1:
            return f'<{next(iter(st.kinds[v]))}>'
        return repr(v)[:80]
    if isinstance(o, Dct):
        return '{' + ', '.join(f'{c[1]!r}: {show(I, st, c[2], depth + 1)}' if c[0] == '1' else '...' for c in o.cells) + '}'
    return '[' + ', '.join(show(I, st, c[1], depth + 1) if c[0] == '1' else f'*{c[1]}' for c in o.cells) + ']'


def edit(c, fn, el, fields, spec, extra=(), rule='edit', setup=None):
    """Analyse one edit and compare it with `spec`."""
    p = c.p
    f = p.get_func(EL + fn)
    I = interp(p)
    st = State()
    if setup:
        setup(I)
    path = written(fields)
    v = put(st, el)
    kws = [('element', v), ('path', Const(path))]
    for k, x in extra:
        kws.append((k, x if isinstance(x, Const) else put(st, x)))
    opts = ''.join(f', {k}={x!r}' for k, x in extra)
    what = f'{fn}({el!r}, {path!r}{opts})'
    sc = c.use(execute(I, what, st, FuncV(f), [], kws, info=f))
    for o in sc.decided():
        if spec is AnyFail:
            c.ob(rule, not o.ok, f.where, f'{what} is accepted', trace(o))
        else:
            note(c, I, sc, o, spec, fields, rule, f.where, what)
    return sc


def expected(f, *a):
    try:
        return f(*a)
    except PathFail as e:
        return e.fields
    except AnyFail:
        return AnyFail


def values():
    yield atom('int')
    yield MISS
    yield {'z': atom('int'), 'a': atom('str')}
    yield [atom('int'), atom('bool')]
    yield {}
    yield []


def c17(c):
    c.rule('select', 'select returns the addressed sub-element itself')
    c.rule('override', 'override replaces or combines exactly the addressed sub-element and leaves every sibling in place')
    c.rule('remove', 'remove deletes exactly the addressed key or index')
    c.rule('error-path', 'the path error names the fields walked before the one that cannot be followed')
    c.rule('index', 'an index is accepted exactly in -len <= i < len (one past the end for override) and addresses that item, for every length')
    c.explain('Each edit is abstractly interpreted on mappings and sequences of unknown values nested up to three deep; index ranges are decided for sequences of every length (p items, the target, q items) with affine arithmetic.')
    for el, fields in contents():
        c17_one(c, el, list(fields))
    for el in ({'a': atom('int')}, [atom('int')], atom('str'), MISS):
        edit(c, 'select', el, [], el, rule='select')
        for v in values():
            for comb in (False, True):
                edit(c, 'override', el, [], expected(spec_override, el, v, [], comb), (('value', v), ('combine', Const(comb))), rule='override')
    ranges(c)
    c.rule('walk', 'every step of an iterative selection pairs the element with the path leading to it and the path that remains')
    walk(c)


def walk(c):
    f = c.p.get_func(EL + 'iterative_select')
    for el, fields in contents():
        want = expected(spec_select, el, list(fields))
        if isinstance(want, tuple):
            continue
        I = interp(c.p)
        st = State()
        v = put(st, el)
        what = f'iterative_select({el!r}, {".".join(fields)!r})'
        sc = c.use(execute(I, what, st, FuncV(f), [v, Const(written(fields))], info=f))
        for o in sc.decided():
            if not o.ok:
                c.ob('walk', False, o.origin(), f'{what} raises {o.cls_name()}', trace(o))
                continue
            try:
                got = I.collect(o.value, o.st, None)
            except Exception:
                c.undecided.append(what)
                continue
            for s, cells in got:
                if isinstance(cells, Raise) or not all(x[0] == '1' for x in cells) or s.taint:
                    c.undecided.append(what)
                    continue
                if not c.ob('walk', len(cells) == len(fields) + 1, f.where, f'{what} yields {len(cells)} selections'):
                    continue
                for i, x in enumerate(cells):
                    ob = s.heap.get(x[1].id) if isinstance(x[1], Ref) else None
                    if not isinstance(ob, Inst) or not ob.has('element'):
                        c.undecided.append(what)
                        continue
                    r = agrees(I, s, ob.get('element'), spec_select(el, list(fields[:i])))
                    pth, rem = nested_path(ob.get('path')), nested_path(ob.get('remaining_path'))
                    if r is None or pth is None or rem is None:
                        c.undecided.append(what)
                        continue
                    c.ob('walk', r and pth == list(fields[:i]) and rem == list(fields[i:]), f.where,
                         f'{what}: step {i} is path {pth}, remaining {rem}, element {show(I, s, ob.get("element"))}')


def c17_one(c, el, fields):
    edit(c, 'select', el, fields, expected(spec_select, el, fields), rule='select')
    r = expected(spec_remove, el, fields)
    edit(c, 'remove', el, fields, r, rule='remove')
    vs = list(values())
    if len(fields) > 1:
        vs = vs[2:4]
    for v in vs:
        for comb in (False, True):
            edit(c, 'override', el, fields, expected(spec_override, el, v, fields, comb), (('value', v), ('combine', Const(comb))), rule='override')


P_, Q_ = 'p', 'q'
LEN = Aff({P_: 1, Q_: 1}, 1)
REGIONS = [
    ('i = p (any position from the front)', Aff({P_: 1}, 0), 'hit'),
    ('i = -1-q (any position from the back)', Aff({Q_: -1}, -1), 'hit'),
    ('i = len', LEN, 'end'),
    ('i = len+1+r (beyond the end)', Aff({P_: 1, Q_: 1, 'r': 1}, 2), 'out'),
    ('i = -len-1-r (before the start)', Aff({P_: -1, Q_: -1, 'r': -1}, -2), 'out'),
]


def ranges(c):
    """Index handling for sequences of every length."""
    for label, i, region in REGIONS:
        for x in (atom('int'), {'a': atom('int')}):
            for rest in ((), ('a',)):
                if isinstance(x, A) and rest:
                    continue
                el = Stars(x)

                def setup(I, i=i):
                    I.star_len = {'pre': P_, 'post': Q_}
                    I.int_of = {'IDX': i}
                fields = ['IDX', *rest]
                out = region != 'hit'
                want = () if out else x['a'] if rest else x
                edit(c, 'select', el, fields, want, rule='index', setup=setup)
                pre, post = star('pre', el.pre), star('post', el.post)
                if out:
                    want = ()
                elif rest:
                    want = Cells(pre, {}, post)
                else:
                    want = Cells(pre, post)
                edit(c, 'remove', el, fields, want, rule='index', setup=setup)
                v = atom('str')
                new = {'a': v} if rest else v
                if region == 'hit':
                    want = Cells(pre, new, post)
                elif region == 'end':
                    want = Cells(pre, x, post, new)
                else:
                    want = ()
                edit(c, 'override', el, fields, want, (('value', v),), rule='index', setup=setup)


# ------------------------------------------------------------------ C16
def spec_merge2(a, b, cat):
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: spec_merge2(a.get(k, MISS), b.get(k, MISS), cat) for k in [*a, *(k for k in b if k not in a)]}
    if cat and isinstance(a, list) and isinstance(b, list):
        return a + b
    if isinstance(b, Miss):
        return a
    return b


def spec_merge(cat, *els):
    r = els[0]
    for e in els[1:]:
        r = spec_merge2(r, e, cat)
    return r


def merge_operands(depth):
    yield MISS
    for k in ('none', 'int', 'str', 'bool'):
        yield atom(k)
    yield []
    yield [atom('int'), atom('str')]
    yield {}
    yield {'a': atom('int'), 'b': MISS}
    yield {'b': atom('str'), 'a': atom('none'), 'c': [atom('int')]}
    if depth:
        yield {'a': {'x': atom('int'), 'y': MISS}, 'b': [atom('str')]}
        yield {'b': MISS, 'a': {'y': atom('int'), 'z': {'a': atom('int')}}}


def c16(c):
    c.rule('table', 'the merged element is what the documented table gives, keys in order of first appearance')
    c.explain('merge is abstractly interpreted on every pair of element kinds (null, each primitive, missing, sequences, mappings with common and separate keys, nested) with and without concatenation, and on one and three operands.')
    f = c.p.get_func(EL + 'merge')
    n = 0
    ops = list(merge_operands(True))
    for cat in (False, True):
        groups = [(a,) for a in ops] + list(itertools.product(ops, repeat=2))
        few = [MISS, atom('int'), [atom('str')], {'a': MISS, 'b': atom('int')}, {'b': MISS, 'a': [atom('int')]}]
        groups += list(itertools.product(few, repeat=3))
        for els in groups:
            I = interp(c.p)
            st = State()
            vs = [put(st, e) for e in els]
            what = f'merge({", ".join(map(repr, els))}' + (', concatenate=True)' if cat else ')')
            sc = c.use(execute(I, what, st, FuncV(f), vs, [('concatenate', Const(cat))], info=f))
            for o in sc.decided():
                note(c, I, sc, o, spec_merge(cat, *els), (), 'table', f.where, what)
    report_scans(c)


def report_scans(c):
    pass


CHECKS = {'C16': c16, 'C17': c17}
