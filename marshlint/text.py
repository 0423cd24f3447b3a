"""Text whose characters are known by class.

A text is a row of cells.  A cell is one character - a constant, or an
*ordinary* character: an unknown one that is neither white space nor equal to
any character the program mentions - or a run of any number (possibly none)
of ordinary characters.  Ordinary characters written with different symbols
are different.  Text made of constants only is a plain constant.

Operations on texts are carried out by standing each ordinary character for
a private character of its own; what depends on an unknown property of a
character (its case, whether it is a digit, the number of characters in a
run) is marked as a guess, and no report is based on it.
"""
import itertools
import re

from .values import Const, Sym, Term, Tup, Ref, ExtV, ExtBound, SliceV, Lst, one, star

BASE, RUN = 0xE000, 0xF000


def char(name):
    return Sym(name, None, 'char')


def is_char(v):
    return isinstance(v, Sym) and v.group == 'char'


def is_text(v):
    return isinstance(v, Tup) and v.kind == 'text' or is_char(v)


def make(cells):
    """A text from cells."""
    cells = tuple(cells)
    if all(c[0] == '1' and isinstance(c[1], Const) for c in cells):
        return Const(''.join(c[1].v for c in cells))
    if len(cells) == 1 and cells[0][0] == '1':
        return cells[0][1]
    return Tup(cells, 'text')


def cells(v):
    """The characters of a text (constants included), or None."""
    if isinstance(v, Const):
        return tuple(one(Const(c)) for c in v.v) if isinstance(v.v, str) else None
    if is_char(v):
        return (one(v),)
    if isinstance(v, Tup) and v.kind == 'text':
        return v.cells
    if isinstance(v, Term) and v.op == 'fstr':
        out = ()
        for a in v.args:
            c = cells(a)
            if c is None:
                return None
            out += c
        return out
    return None


def run(name):
    return star(name, Sym(name, name, 'char'))


CASE = {'lower', 'upper', 'casefold', 'title', 'capitalize', 'swapcase'}


class Code:
    """Texts as real strings, with private characters for the unknown ones."""

    def __init__(self):
        self.to, self.back = {}, {}
        self.runs = False

    def enc(self, v):
        cs = cells(v)
        if cs is None:
            return None
        out = []
        for c in cs:
            if c[0] == '1' and isinstance(c[1], Const):
                out.append(c[1].v)
                continue
            if c[0] == '1' and not is_char(c[1]):
                return None
            if c[0] == '*':
                self.runs = True
            key = c
            if key not in self.to:
                n = chr((BASE if c[0] == '1' else RUN) + len(self.to))
                self.to[key] = n
                self.back[n] = key
            out.append(self.to[key])
        return ''.join(out)

    def dec(self, s):
        return make(self.back.get(ch, one(Const(ch))) for ch in s)

    def value(self, r, st):
        if isinstance(r, str):
            return self.dec(r)
        if isinstance(r, bytes):
            return None
        if r is None or isinstance(r, (bool, int)):
            return Const(r)
        if isinstance(r, (list, tuple)):
            xs = [self.value(x, st) for x in r]
            if any(x is None for x in xs):
                return None
            t = tuple(one(x) for x in xs)
            return Tup(t) if isinstance(r, tuple) else st.new(Lst(t))
        return None


EXACT = {'split', 'rsplit', 'replace', 'startswith', 'endswith', 'strip', 'lstrip', 'rstrip', 'partition',
         'rpartition', 'removeprefix', 'removesuffix', 'isspace', 'count', 'find', 'rfind', 'index', 'rindex',
         'join', '__contains__', 'splitlines', 'translate'}
LENGTH = {'find', 'rfind', 'index', 'rindex', 'count'}


def without(x, gone):
    if isinstance(x, str):
        return ''.join(ch for ch in x if ch not in gone)
    if isinstance(x, (list, tuple)):
        return type(x)(without(y, gone) for y in x)
    return x


def method(I, recv, name, pos, kw, st, fr, node):
    """A method of a text -> results, or None when not a text operation."""
    if I.plain_text and is_text(recv) and not pos and not kw:
        if name in CASE:
            code = Code()
            return [(st, code.dec(getattr(code.enc(recv), name)()))]
        if name in ('isdigit', 'isdecimal', 'isnumeric', 'isupper', 'isalnum', 'isalpha', 'islower', 'isidentifier'):
            if name in ('isdigit', 'isdecimal', 'isnumeric'):
                return [(st, Const(False))]
            return None
    if name not in EXACT:
        return None
    args = [c[1] if c[0] == '1' else None for c in pos] + [c[2] if c[0] == '1' else None for c in kw]
    if not (is_text(recv) or any(is_text(a) for a in args if a is not None)
            or any(isinstance(a, Tup) and any(is_text(c[1]) for c in a.cells if c[0] == '1') for a in args if a is not None)):
        return None
    if name == 'join':
        return None
    code = Code()
    r = code.enc(recv)
    if r is None or kw:
        return None
    xs = []
    for a in args:
        if a is None:
            return None
        if isinstance(a, Const) and not isinstance(a.v, str):
            xs.append(a.v)
            continue
        if isinstance(a, Tup) and a.kind == 'tuple':
            es = [code.enc(c[1]) if c[0] == '1' else None for c in a.cells]
            if any(e is None for e in es):
                return None
            xs.append(tuple(es))
            continue
        e = code.enc(a)
        if e is None:
            return None
        xs.append(e)
    if code.runs and name in LENGTH:
        return None
    f = lambda t: getattr(t, name)(*xs)
    try:
        got = f(r)
        # any of the runs may be empty
        marks = sorted({ch for ch in r if ch >= chr(RUN)})
        for n in range(1, len(marks) + 1):
            for gone in itertools.combinations(marks, n):
                if f(without(r, gone)) != without(got, gone):
                    return None
        v = code.value(got, st)
    except Exception as e:
        return [(st, I.raise_new(st, f'builtins.{type(e).__name__}', node, fr))]
    return None if v is None else [(st, v)]


def join(I, recv, items, st):
    """sep.join(items) as a text, or None."""
    sep = cells(recv)
    if sep is None or not any(is_text(c[1]) for c in items if c[0] == '1') and not is_text(recv) and not any(c[0] == '*' for c in items):
        return None
    out, first = [], True
    for c in items:
        if c[0] == '*':
            # joining the characters of a run gives the run
            if sep or not all(is_char(x) for x in c[2]):
                return None
            out.append(c)
            continue
        cs = cells(c[1])
        if cs is None:
            return None
        if not first:
            out.extend(sep)
        first = False
        out.extend(cs)
    return make(out)


def same(I, a, b, st):
    """Equality of two texts -> bool or None."""
    if not (is_text(a) or is_text(b)):
        return None
    ca, cb = cells(a), cells(b)
    if ca is None or cb is None:
        # a text and something that is no text
        return None
    if ca == cb:
        return True
    if all(c[0] == '1' for c in ca + cb):
        return False if len(ca) != len(cb) or all(is_char(c[1]) or isinstance(c[1], Const) for c in ca + cb) else None
    for x, y in ((ca, cb), (cb, ca)):
        need = sum(c[0] == '1' for c in x)
        if all(c[0] == '1' for c in y) and len(y) < need:
            return False
    for i, j in (((0, 1)), ((-1, -1))):
        if ca and cb:
            x, y = ca[0 if i == 0 else -1], cb[0 if i == 0 else -1]
            if x[0] == y[0] == '1' and x != y:
                return False
    fixed = lambda cs: [c for c in cs if c[0] == '1' and isinstance(c[1], Const)]
    if fixed(ca) != fixed(cb):
        return False        # a run has no constant characters
    return None


def contains(I, a, b, st):
    """a in b for texts -> bool or None."""
    if not (is_text(a) or is_text(b)):
        return None
    code = Code()
    x, y = code.enc(a), code.enc(b)
    if x is None or y is None:
        return None
    if code.runs and len(x) > 1:
        return None
    return x in y


def add(I, a, b):
    if not (is_text(a) or is_text(b)):
        return None
    ca, cb = cells(a), cells(b)
    return None if ca is None or cb is None else make(ca + cb)


def subscript(I, v, k, st, fr, node):
    cs = cells(v)
    fixed = all(c[0] == '1' for c in cs)
    if isinstance(k, SliceV):
        lo, hi, step = k.a
        vals = [None if x == Const(None) else x.v if isinstance(x, Const) and type(x.v) is int else '?' for x in (lo, hi, step)]
        if '?' in vals:
            if not getattr(I, 'text_slices', False):
                st.blur('slice of a text')
            return [(st, Term('slice', v, k))]
        if fixed:
            return [(st, make(cs[slice(*vals)]))]
        lo, hi, step = vals
        if step in (None, 1):
            out = list(cs)
            ok = True
            if lo is not None:
                ok = lo >= 0 and all(c[0] == '1' for c in out[:lo]) and len(out) >= lo
                out = out[lo:]
            if hi is not None and ok:
                ok = hi < 0 and len(out) >= -hi and all(c[0] == '1' for c in out[hi:])
                out = out[:hi]
            if ok:
                return [(st, make(out))]
        st.blur('slice of a text with a run')
        return [(st, Term('slice', v, k))]
    if isinstance(k, Const) and isinstance(k.v, int) and not isinstance(k.v, bool):
        n = k.v
        seq = cs if n >= 0 else tuple(reversed(cs))
        n = n if n >= 0 else -n - 1
        if all(c[0] == '1' for c in seq[:n + 1]):
            if n < len(seq):
                return [(st, seq[n][1])]
            return [(st, I.raise_new(st, 'builtins.IndexError', node, fr))]
    st.blur('character of a text')
    return [(st, Term('item', v, k))]


RE = {'re.sub': re.sub, 're.split': re.split, 're.escape': re.escape}


def external(I, name, pos, kw, st, fr, node):
    """Library functions on texts -> results or None."""
    if name[:3] == 're.' and name[3:] in MATCH and len(pos) in (2, 3) and all(c[0] == '1' for c in pos):
        pat = Term('call', ExtV('re.compile'), Tup((pos[0],) + tuple(pos[2:])), Tup((), 'kw'))
        return regex(I, pat, name[3:], [pos[1]], kw, st, fr, node)
    f = RE.get(name)
    if f is None or kw:
        return None
    args = [c[1] if c[0] == '1' else None for c in pos]
    code = Code()
    xs = [code.enc(a) if a is not None else None for a in args]
    if any(x is None for x in xs) or code.runs:
        return None
    try:
        v = code.value(f(*xs), st)
    except Exception as e:
        return [(st, I.raise_new(st, f'builtins.{type(e).__name__}', node, fr))]
    return None if v is None else [(st, v)]


MATCH = {'match', 'fullmatch', 'search'}


def flag(v):
    """The value of a constant expression of regular expression flags, or None."""
    if isinstance(v, Const) and isinstance(v.v, int):
        return int(v.v)
    if isinstance(v, ExtV) and v.name.startswith('re.') and isinstance(getattr(re, v.name[3:], None), re.RegexFlag):
        return int(getattr(re, v.name[3:]))
    if isinstance(v, Term) and v.op == 'BitOr' and len(v.args) == 2:
        a, b = flag(v.args[0]), flag(v.args[1])
        return None if a is None or b is None else a | b
    return None


def pattern(v):
    """A compiled pattern -> (text, flags) or None."""
    if isinstance(v, Term) and v.op == 'call' and v.args[0] == ExtV('re.compile') and not v.args[2].cells:
        xs = [c[1] for c in v.args[1].cells if c[0] == '1']
        if xs and len(xs) == len(v.args[1].cells) <= 2 and isinstance(xs[0], Const) and isinstance(xs[0].v, str):
            fl = flag(xs[1]) if len(xs) == 2 else 0
            return None if fl is None else (xs[0].v, fl)
    return None


def found(v):
    """The match object a term stands for, or None."""
    if isinstance(v, Term) and v.op == 'found':
        pat, fl, mode, t = (a.v for a in v.args)
        return getattr(re.compile(pat, fl), mode)(t)
    return None


def regex(I, recv, name, pos, kw, st, fr, node):
    """Methods of patterns and matches on constant text -> results or None."""
    m = found(recv)
    xs = [c[1].v if c[0] == '1' and isinstance(c[1], Const) else NO for c in pos]
    if kw or NO in xs:
        return None
    try:
        if m is not None:
            if name in ('group', 'groups', 'start', 'end', 'span', '__getitem__'):
                v = Code().value(getattr(m, name)(*xs), st)
                return None if v is None else [(st, v)]
            return None
        pf = pattern(recv)
        if pf is None or not all(isinstance(x, str) for x in xs):
            return None
        if name in MATCH and len(xs) == 1:
            if getattr(re.compile(*pf), name)(xs[0]) is None:
                return [(st, Const(None))]
            t = Term('found', Const(pf[0]), Const(pf[1]), Const(name), Const(xs[0]))
            st.facts[Term('truth', t)] = True
            st.facts[Term('is', *sorted((t, Const(None)), key=repr))] = False
            return [(st, t)]
        if name in ('sub', 'split', 'findall'):
            v = Code().value(getattr(re.compile(*pf), name)(*xs), st)
            return None if v is None else [(st, v)]
    except Exception as e:
        return [(st, I.raise_new(st, f'builtins.{type(e).__name__}', node, fr))]
    return None


NO = object()
