"""Rules on text: paths (C15)."""
import itertools
from ..scen import *
from ..interp import Raise, Endless
from .. import text
from .caching import guard
from ..report import parallel
from ..text import char, make, run as run_cell

PATH = 'marsh.path.'


def unknown_call(I, f, pos, kw, st, fr, node):
    st.blur(f'{f!r} is not modelled')
    return None


def machine(p, **kw):
    I = lib.make(p, kinds=False, defaults=False, budget=15.0, **kw)
    I.models.pop('marsh.path.split', None)
    for k in [k for k in I.models if k.startswith(PATH) or k.startswith('marsh.parse.')]:
        del I.models[k]
    I.max_steps = 2000000
    I.call_hook = unknown_call
    I.unroll = 40
    I.rec_limit = 8
    return I


def show(v):
    cs = text.cells(v)
    if cs is None:
        return repr(v)
    return '"' + ''.join(c[1].v if c[0] == '1' and isinstance(c[1], Const) else 'x' if c[0] == '1' else 'x*' for c in cs) + '"'


def shows(vs):
    return '(' + ', '.join(map(show, vs)) + ')'


class Lab:
    """Calls of functions on texts."""

    def __init__(self, c, p, name):
        self.c, self.p = c, p
        self.I = machine(p)
        self.sc = Scene(name, self.I)
        self.root = Frame(None, None, p.modules[p.PKG])

    def func(self, name):
        f = self.p.get_func(name)
        return FuncV(f)

    def call(self, name, pos, kw, st):
        """-> [(st, value | Raise)], undecided ones dropped"""
        f = self.func(name)
        self.I.steps, self.I.t0 = 0, None
        self.lost = False
        try:
            got = self.I.call(f, [one(x) for x in pos], [kwcell(k, v) for k, v in kw.items()], st, self.root, None)
        except Endless as e:
            return [(st, e)]
        except Budget:
            self.sc.cut = self.lost = True
            return []
        except (RecursionError, AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError) as e:
            if STRICT:
                raise
            self.sc.cut = self.lost = True
            self.sc.why = f'{type(e).__name__}: {e}'
            return []
        return got

    def seq(self, v, st):
        """The items of a returned sequence -> [(st, [items])]"""
        out = []
        for s, cells in self.I.collect(v, st, self.root):
            if isinstance(cells, Raise):
                out.append((s, cells))
            elif all(c[0] == '1' for c in cells):
                out.append((s, [c[1] for c in cells]))
            else:
                s.blur('sequence of unknown length')
                out.append((s, None))
        return out

    def done(self, s, v):
        self.sc.outcomes.append(Outcome(s, v))

    def finish(self):
        self.c.use(self.sc)


def where(f):
    return f'{f.module.path}:{f.node.lineno} ({f.full})'


def words(alpha, n):
    for k in range(n + 1):
        yield from itertools.product(alpha, repeat=k)


def spell(classes, tag, d):
    """A text of the given character classes; every ordinary character is its own."""
    out = []
    for i, c in enumerate(classes):
        if c == 'x':
            out.append(one(char(f'{tag}{i}')))
        elif c == 'R':
            out.append(run_cell(f'{tag}run{i}'))
        elif c == 'D':
            out.extend(text.cells(d))
        else:
            out.append(one(Const(c)))
    return make(out)


def spec_split(v, d):
    """The fields of a path: the documented reading. -> list of texts, or None when it is malformed."""
    fields, cur, quote, esc = [], [], None, False
    for c in text.cells(v):
        ch = c[1] if c[0] == '1' else None
        if esc:
            cur.append(c)
            esc = False
        elif ch == Const('\\'):
            esc = True
        elif quote is not None:
            if ch == quote:
                quote = None
            else:
                cur.append(c)
        elif ch in (Const('"'), Const("'")):
            quote = ch
        elif ch == d:
            if cur:
                fields.append(make(cur))
            cur = []
        else:
            cur.append(c)
    if esc or quote is not None:
        return None
    if cur:
        fields.append(make(cur))
    return fields


def settle(st, v):
    """The text without the runs known to be empty."""
    cs = text.cells(v)
    return v if cs is None else make(c for c in cs if not (c[0] == '*' and st.card.get(c[1]) == 'zero'))


def equal(st, got, want):
    return got is not None and [settle(st, x) for x in got] == [settle(st, x) for x in want]


SPECIAL = ('"', "'", '\\', 'D', ' ')


def c15(c):
    p = c.p
    c.rule('split', 'splitting a path answers the fields its quotes, escapes and delimiters separate, or raises PathError when a quote or an escape is left open')
    c.rule('escape', 'splitting an escaped field gives back that one field')
    c.rule('join', 'splitting joined fields gives back the non-empty fields')
    c.rule('append', 'appending a field to a path adds exactly that field at the end')
    c.rule('prepend', 'prepending a field to a path adds exactly that field at the front')
    c.rule('head', 'head answers the first field and a path of the others')
    c.rule('tail', 'tail answers the last field and a path of the others')
    c.explain('The functions of marsh.path are interpreted over texts whose characters are known by class: quote, apostrophe, backslash, delimiter, blank, ordinary, '
              'and runs of any number of ordinary characters; delimiters: full stop, slash and an arbitrary ordinary character.')
    c.assumptions.append('Texts hold up to three special characters per field or path with runs of ordinary characters around them; each pair of a scanner state and a character class is reached by these.')
    err = p.get_class('marsh.errors.PathError')
    names = ['split', 'iterative_split', 'escape_field', 'prepend', 'append', 'join_fields', 'head', 'tail']
    fn = {n: p.get_func(PATH + n) for n in names}
    n1 = 3 if c.tier == 'quick' else 4
    n2 = 1 if c.tier == 'quick' else 2
    runs = [('x', 'R', a, 'x', 'R', b, 'x', 'R') for a in SPECIAL for b in SPECIAL] + [('x', 'R', a, 'x', 'R') for a in SPECIAL] + [('x', 'R')]
    single = list(words(SPECIAL + ('x',), n1)) + runs
    pairs = list(words(SPECIAL + ('x',), 2)) + [('x', 'R'), ('x', 'R', '\\', 'x', 'R'), ('x', 'D', 'x', 'D'), ('D', 'x', 'R')]
    def work(c, job):
        d, dn = job
        lab = Lab(c, p, f'delimiter {dn}')
        kw = {'delimiter': d}

        def fields_of(v, s, then):
            """then(st, fields | Raise) for each way the path v splits."""
            for s2, r in lab.call(PATH + 'split', [v], kw, s):
                if isinstance(r, Raise):
                    then(s2, r)
                    continue
                for s3, fs in lab.seq(r, s2):
                    then(s3, fs)

        def err_of(s, r):
            k = s.obj(r.exc).cls
            return k.full if isinstance(k, ClassInfo) else k

        def expect(rule, name, s, got, want, what):
            lab.done(s, got if isinstance(got, Raise) else NONE)
            if s.taint:
                return
            if isinstance(got, Raise):
                o = s.obj(got.exc)
                ok = want is None and isinstance(o.cls, ClassInfo) and p.is_subclass(o.cls, err) is True
                c.ob(rule, ok, o.origin if not ok and o.origin else where(fn[name]), f'{what}: raises {err_of(s, got)}' + (f' instead of answering {shows(want)}' if want is not None else ''))
                return
            c.ob(rule, want is not None and equal(s, got, want), where(fn[name]), f'{what}: the fields are {shows(got) if got is not None else "unknown"}'
                 + (f' instead of {shows(want)}' if want is not None else ' although the path is malformed'))

        # splitting
        for w in single:
            v = spell(w, 'p', d)
            want = spec_split(v, d)
            fields_of(v, State(), lambda s, got: expect('split', 'iterative_split', s, got, want, f'split({show(v)})'))
        # escaping
        for w in single:
            v = spell(w, 'f', d)
            if w == ():
                continue
            for s, e in lab.call(PATH + 'escape_field', [v], kw, State()):
                if isinstance(e, Raise):
                    expect('escape', 'escape_field', s, e, [v], f'escape_field({show(v)})')
                    continue
                fields_of(e, s, lambda s, got: expect('escape', 'escape_field', s, got, [v], f'split(escape_field({show(v)}))'))
        # joining
        some = list(words(SPECIAL + ('x',), 1)) + [('x', 'R'), ('x', 'R', '\\'), ('\\', 'D')]
        if c.tier == 'quick':
            triples = [t for t in itertools.product(some, repeat=2)] + [(a, ('x',), b) for a in some for b in some]
        else:
            triples = [t for k in (1, 2, 3) for t in itertools.product(some, repeat=k)]
        for ws in triples:
            vs = [spell(w, f'f{i}', d) for i, w in enumerate(ws)]
            want = [v for v in vs if v != Const('')]
            for s, e in lab.call(PATH + 'join_fields', [Tup([one(v) for v in vs])], kw, State()):
                if isinstance(e, Raise):
                    expect('join', 'join_fields', s, e, want, f'join_fields({shows(vs)})')
                    continue
                fields_of(e, s, lambda s, got: expect('join', 'join_fields', s, got, want, f'split(join_fields({shows(vs)}))'))
        # adding one field
        small = [w for w in words(SPECIAL + ('x',), n2) if w != ()] + [('x', 'R', '\\', 'x', 'R')] + [()]
        for wp in (pairs if c.tier == 'quick' else list(words(SPECIAL + ('x',), 3)) + pairs):
            pv = spell(wp, 'p', d)
            base = spec_split(pv, d)
            if base is None:
                continue
            for wf in small:
                fv = spell(wf, 'f', d)
                for name in ('append', 'prepend'):
                    new = [] if wf == () else [fv]
                    want = base + new if name == 'append' else new + base
                    for s, e in lab.call(PATH + name, [], dict(kw, path=pv, field=fv), State()):
                        if isinstance(e, Raise):
                            expect(name, name, s, e, want, f'{name}({show(pv)}, {show(fv)})')
                            continue
                        fields_of(e, s, lambda s, got: expect(name, name, s, got, want, f'split({name}({show(pv)}, {show(fv)}))'))
        # taking one field
        for w in (single if c.tier != 'quick' else pairs + [('x', 'D', '\\', 'D', 'x'), ('x', 'D', 'x', 'D', 'x'), ('D', 'x', 'D'), ('"', 'D', '"', 'D', '\\', '\\')]):
            pv = spell(w, 'p', d)
            base = spec_split(pv, d)
            for name in ('head', 'tail'):
                for s, r in lab.call(PATH + name, [pv], kw, State()):
                    what = f'{name}({show(pv)})'
                    if isinstance(r, Raise):
                        expect(name, name, s, r, base, what)
                        continue
                    if base is None:
                        expect(name, name, s, [], None, what)
                        continue
                    for s2, parts in lab.seq(r, s):
                        if isinstance(parts, Raise) or parts is None or len(parts) != 2:
                            lab.done(s2, NONE)
                            continue
                        f1, rest = parts
                        wf = (base[0] if name == 'head' else base[-1]) if base else Const('')
                        wr = base[1:] if name == 'head' else base[:-1]
                        if not s2.taint:
                            c.ob(name, equal(s2, [f1], [wf]), where(fn[name]), f'{what}: the field is {show(f1)} instead of {show(wf)}')
                        fields_of(rest, s2, lambda s, got: expect(name, name, s, got, wr, f'the path left by {what}'))
        lab.finish()
    parallel(c, work, [(Const('.'), '.'), (Const('/'), '/'), (char('D'), 'any character')])




# ---------------------------------------------------------------- C18
PARSE = 'marsh.parse.'
ALPHABET = '+=@~([)]{}:,"\'\\ x'
OPENINGS = {
    'override': ('', 'x=', 'x+=', 'x@', 'x+@', '~x', 'x=[', 'x=[x', 'x=[x,', 'x={', 'x={x', 'x={x:', 'x={x:x', 'x={x:x,', 'x=(x', 'x="', 'x="x"', 'x=x', 'x@x', 'x@[x', 'x=[[x]', 'x={x:[x]', 'x={x:{x:x}', 'x=[{x:x}', '"x"'),
    'element': ('', '[', '[x', '[x,', '{', '{x:', '{x:x', '"x', '[[x]'),
    'config_names': ('', 'x', 'x,', '[x', '[x,', '"x"'),
    'sequence': ('', '[', '[x,'),
    'mapping': ('', '{x:', '{x:x,', '{"x"'),
    'terminal': ('', '"x', '"x"'),
    'string': ('', '"x', '"x"'),
}


def read(word):
    """A word with x for an ordinary character, as a text."""
    return make(one(char(f'c{i}')) if ch == 'x' else one(Const(ch)) for i, ch in enumerate(word))


def reading(s, v, p):
    """The parsed value as plain nested tuples."""
    if isinstance(v, Ref):
        o = s.obj(v)
        if isinstance(o, Inst) and isinstance(o.cls, ClassInfo):
            return (o.cls.name,) + tuple((k, reading(s, x, p)) for k, x in o.attrs)
        if isinstance(o, Lst):
            return ('seq',) + tuple(reading(s, c[1], p) if c[0] == '1' else None for c in o.cells)
        if isinstance(o, Dct):
            return ('map',) + tuple((reading(s, c[1], p), reading(s, c[2], p)) if c[0] == '1' else None for c in o.cells)
        return None
    if isinstance(v, Tup) and v.kind == 'tuple':
        return ('seq',) + tuple(reading(s, c[1], p) if c[0] == '1' else None for c in v.cells)
    return v


def atoms(r):
    if isinstance(r, tuple):
        for x in r:
            yield from atoms(x)
    elif text.cells(r) is not None and text.is_text(r):
        for c in text.cells(r):
            if c[0] == '1':
                yield c[1]
    elif isinstance(r, Term):
        for a in r.args:
            yield from atoms(a)
    elif isinstance(r, Tup):
        for c in r.cells:
            yield from atoms(c[1])


def tell(r):
    if isinstance(r, tuple):
        if r and isinstance(r[0], str):
            return f'{r[0]}({", ".join(tell(x) for x in r[1:])})'
        return ': '.join(x if isinstance(x, str) else tell(x) for x in r)
    return show(r) if isinstance(r, (Const, Sym, Tup)) and text.cells(r) is not None else repr(r)


def q(quote, content):
    return quote + content + quote


QUOTED = ('\0', ' \0 ', '[\0]', '(\0)', '[x,\0]', '[\0,x]', '{x:\0}', '{x:x,x:\0}', '[[\0]]', '{x:[\0]}', '[{x:\0}]', '[ \0 , x ]', '{ x : \0 }')


def s_(t):
    return ('seq',) + tuple(t)


def c18(c):
    p = c.p
    c.rule('error', 'a malformed text raises ParseError and nothing else')
    c.rule('end', 'parsing ends')
    c.rule('whole', 'what is accepted keeps every ordinary character of the text')
    c.rule('trailing', 'a reserved character after a complete text is an error or changes the result; it is not ignored')
    c.rule('quoted', 'quoted text is the text between the quotes, whatever it looks like')
    c.rule('override', 'each form of an override gives the override it stands for')
    c.rule('message', 'the error can be shown')
    c.explain('The parser is interpreted over texts whose characters are known by class (every reserved character, blank, ordinary). '
              'Each reading is checked for what may be raised, for ordinary characters that got lost and for reserved characters that have no effect.')
    c.assumptions.append('Texts are every row of up to three characters (four in the thorough tier, after some openings one less) after each of the listed openings.')
    err = p.get_class('marsh.parse.ParseError')
    fn = {n: p.get_func(PARSE + n) for n in OPENINGS}
    deep = c.tier != 'quick'
    jobs = [(name, o) for name, openings in OPENINGS.items() for o in openings] + [('quoted', quote) for quote in '"\'']  + [('forms', '')]
    parallel(c, lambda c, job: Reader(c, fn, err, deep).work(*job), jobs)


class Reader:
    """The obligations on one group of texts."""

    def __init__(self, c, fn, err, deep):
        self.c, self.p, self.fn, self.err, self.deep = c, c.p, fn, err, deep
        self.lab = Lab(c, c.p, 'parser')
        self.lab.I.while_limit = 60
        self.lab.I.plain_text = True
        self.told = set()
        self.readings = {}

    def work(self, name, what):
        if name == 'quoted':
            self.quotes(what)
        elif name == 'forms':
            self.forms()
        else:
            n = 3 if what == '' and name in ('element',) else 1 if name not in ('override', 'element') and what else 2
            for w in words(ALPHABET, n + self.deep):
                self.sweep(name, what + ''.join(w))
        self.lab.finish()

    def parse(self, name, v, what):
        """Common obligations -> readings of the accepted paths, None when undecided."""
        c, lab, f, out = self.c, self.lab, self.fn[name], []
        for s, r in lab.call(PARSE + name, [v], {}, State()):
            if isinstance(r, Endless):
                c.ob('end', False, f'{r} ({f.full})', f'{what} does not end: the loop repeats itself')
                return None
            lab.done(s, r)
            if s.taint:
                return None
            c.ob('end', True, where(f), what)
            if isinstance(r, Raise):
                o = s.obj(r.exc)
                ok = isinstance(o.cls, ClassInfo) and self.p.is_subclass(o.cls, self.err) is True
                c.ob('error', ok, o.origin or where(f), f'{what} raises {o.cls.full if isinstance(o.cls, ClassInfo) else o.cls}')
                if ok:
                    self.shown(s, r.exc, what)
                continue
            out.append(reading(s, r, self.p))
        return None if lab.lost else out

    def shown(self, s, exc, what):
        # the message depends on the lengths of what is remembered only
        c, lab, o = self.c, self.lab, s.obj(exc)
        k = tuple((n, len(text.cells(x) or ()) if text.cells(x) is not None else repr(type(x))) for n, x in o.attrs if n in ('remaining', 'source'))
        if k in self.told:
            return
        self.told.add(k)
        s = s.fork()
        s.events = ()
        if o.get('__cause__') is None:
            s.put(exc, o.set('__cause__', NONE))
        lab.I.while_limit = None
        lab.I.steps, lab.I.t0 = 0, None
        got = guard(lab.sc, lambda: lab.I.bind(lab.I.getattr(exc, '__str__', s, lab.root), lambda s3, m: lab.I.call(m, [], [], s3, lab.root, None)))
        lab.I.while_limit = 60
        for s2, m in got or ():
            if s2.taint:
                continue
            lab.done(s2, m)
            bad = isinstance(m, Raise)
            c.ob('message', not bad, (s2.obj(m.exc).origin if bad else None) or where(self.fn['override']), f'showing the error of {what} raises')

    def accepted(self, name, word):
        if (name, word) not in self.readings:
            self.readings[name, word] = self.parse(name, read(word), f'{name}({show(read(word))})')
        return self.readings[name, word]

    def sweep(self, name, word):
        c, v = self.c, read(word)
        what = f'{name}({show(v)})'
        for r in self.accepted(name, word) or ():
            have = set(atoms(r))
            lost = [i for i, ch in enumerate(word) if ch == 'x' and char(f'c{i}') not in have]
            if not duplicate(r):
                c.ob('whole', not lost, where(self.fn[name]), f'{what} gives {tell(r)}: character {lost[0] + 1 if lost else ""} is ignored')
            if word and word[-1] not in ' x' and not empty_quotes(word):
                before = self.accepted(name, word[:-1]) or ()
                c.ob('trailing', r not in before, where(self.fn[name]), f'{what} gives the same as without its last character: {tell(r)}')

    def quotes(self, quote):
        c, p, lab = self.c, self.p, self.lab
        contents = ['', ' ', 'x', 'xx', '1', '-2', '1.5', '1e3', 'true', 'False', 'null', 'nan', 'None', ' x', 'x '] + [ch for ch in ALPHABET if ch not in '"\'\\'] + ['x' + ch for ch in '=,]}:'] + [',x', '[x]', '{x:x}']
        for content in contents + (["'", "x'"] if quote == '"' else ['"', 'x"']):
            for t in QUOTED:
                quoted(c, p, lab, self.parse, 'element', '', t, quote, content)
            for t in QUOTED[:7]:
                quoted(c, p, lab, self.parse, 'override', 'x=', t, quote, content)
            quoted(c, p, lab, self.parse, 'terminal', '', '\0', quote, content)
            quoted(c, p, lab, self.parse, 'string', '', '\0', quote, content)
        for content in ('\\' + quote, 'x\\' + quote + 'x', '\\\\', '\\x', '1\\' + quote):
            for t in QUOTED[:7]:
                quoted(c, p, lab, self.parse, 'element', '', t, quote, content)
        # unknown text in quotes: it may look like anything
        lab2 = Lab(c, p, 'quoted unknown text')
        lab2.I.while_limit = 60
        for t in ('\0', '[\0]', '{k:\0}'):
            v = make(sum(((one(Const(ch)),) if ch != '\0' else (one(Const(quote)), one(char('u1')), one(char('u2')), one(Const(quote))) for ch in t), ()))
            for s, r in lab2.call(PARSE + 'element', [v], {}, State()):
                if isinstance(r, Endless):
                    continue
                lab2.done(s, r)
                if s.taint or isinstance(r, Raise):
                    continue
                u = make((one(char('u1')), one(char('u2'))))
                want = {'\0': u, '[\0]': ('seq', u), '{k:\0}': ('map', (Const('k'), u))}[t]
                got = reading(s, r, p)
                c.ob('quoted', got == want, where(self.fn['terminal']), f'element({show(v)}) may give {tell(got)} instead of the quoted text')
        lab2.finish()

    def forms(self):
        """The forms of an override."""
        c = self.c

        def field(**kw):
            return tuple(sorted(kw.items()))
        x = lambda i: char(f'c{i}')
        forms = []
        for plus in ('', '+'):
            k = len(plus)
            comb = Const(bool(plus))
            for path, pv in (('x', x(0)), ('x.x', make((one(x(0)), one(Const('.')), one(x(2))))), ('', Const('')), ('x.1', make((one(x(0)), one(Const('.')), one(Const('1')))))):
                n = len(path) + k + 1
                values = [('', Const('')), ('x', x(n)), ('12', Const(12)), ('-3', Const(-3)), ('1.5', Const(1.5)), ('true', Const(True)), ('False', Const(False)), ('null', Const(None)),
                          ('"x"', x(n + 1)), ('[]', ('seq',)), ('()', ('seq',)), ('{}', ('map',)), ('[x,x]', ('seq', x(n + 1), x(n + 3))), ('{x:x}', ('map', (x(n + 1), x(n + 3)))),
                          ('{x:[x]}', ('map', (x(n + 1), ('seq', x(n + 4))))), ('x=x', make((one(x(n)), one(Const('=')), one(x(n + 2))))), ('"12"', Const('12')),
                          ('x,x', make((one(x(n)), one(Const(',')), one(x(n + 2))))), ('x}]', make((one(x(n)), one(Const('}')), one(Const(']'))))), ('x:x', make((one(x(n)), one(Const(':')), one(x(n + 2))))),
                          ('x@x', make((one(x(n)), one(Const('@')), one(x(n + 2))))), ('x+x', make((one(x(n)), one(Const('+')), one(x(n + 2))))), ('~', Const('~'))]
                for t, val in values:
                    forms.append((path + plus + '=' + t, ('SetValue', field(path=pv, value=val, combine=comb))))
                for t, val in (('x', ('seq', x(n))), ('x,x', ('seq', x(n), x(n + 2))), ('[x,x]', ('seq', x(n + 1), x(n + 3))), ('"x"', ('seq', x(n + 1))), ('1', ('seq', Const('1')))):
                    forms.append((path + plus + '@' + t, ('SetConfig', field(path=pv, names=val, combine=comb))))
                forms.append(('~' + path, ('DeleteValue', field(path=make(one(char(f'c{i + 1}')) if ch == 'x' else one(Const(ch)) for i, ch in enumerate(path))))))
        for word, want in forms:
            v = read(word)
            rs = self.parse('override', v, f'override({show(v)})')
            if rs is None:
                continue
            got = [(r[0], tuple(sorted(r[1:]))) if isinstance(r, tuple) and r else r for r in rs]
            c.ob('override', got == [want], where(self.fn['override']), f'override({show(v)}) gives {[tell(r) for r in rs] or "an error"} instead of {want[0]}({", ".join(f"{k}={tell(w)}" for k, w in want[1])})')


def duplicate(r):
    """A mapping with fewer keys than entries was written; the last entry counts."""
    return isinstance(r, tuple) and (r[:1] == ('map',) and any(k == Const('') for k, _ in r[1:] if isinstance(_, object)) or any(duplicate(x) for x in r if isinstance(x, tuple)))


def empty_quotes(word):
    return word[-2:] in ('""', "''")


def quoted(c, p, lab, parse, name, before, template, quote, content):
    word, offset = '', None
    cells = []
    for ch in before + template:
        if ch == '\0':
            cells.append(one(Const(quote)))
            esc = False
            want = []
            for d in content:
                cell = one(char(f'c{len(cells)}')) if d == 'x' else one(Const(d))
                cells.append(cell)
                if d == '\\' and not esc:
                    esc = True
                    continue
                esc = False
                want.append(cell)
            cells.append(one(Const(quote)))
        else:
            cells.append(one(char(f'c{len(cells)}')) if ch == 'x' else one(Const(ch)))
    v, want = make(cells), make(want)
    what = f'{name}({show(v)})'
    rs = parse(name, v, what)
    if rs is None:
        return
    for r in rs or [None]:
        ok = r is not None and quoted_leaf(r, want) and (name == 'override' or shape(r, template, want))
        f = p.get_func(PARSE + name)
        c.ob('quoted', ok, where(f), f'{what} gives {tell(r) if r is not None else "an error"}: the quoted text {show(want)} is not kept')


def quoted_leaf(r, want):
    if isinstance(r, tuple):
        return any(quoted_leaf(x, want) for x in r if not isinstance(x, str))
    return r == want and type(r) is type(want)


def shape(r, template, want):
    depth = template.strip().count('[') + template.count('{') + template.count('(')
    d = 0
    while isinstance(r, tuple):
        d += 1
        r = r[-1] if r and r[0] == 'seq' and not (len(r) > 2 and template.strip().replace(' ', '').startswith('[\0,')) else r[1] if r and r[0] == 'seq' else r[-1][-1] if len(r) > 1 else None
        if d > 6:
            break
    return d == depth and r == want


CHECKS = {'C15': c15, 'C18': c18}
