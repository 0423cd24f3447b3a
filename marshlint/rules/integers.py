"""Rules on integer text: C19."""
from ..scen import *
from .. import text
from ..text import char, make
from .texts import Lab, reading, where, read as read_text
from ..interp import Endless
from ..report import parallel
from .primitive import V, PRIM, ty, mentions, core
from .primitive import cast_scene

WIDTHS = (1, 2, 3, 5, 9, 10, 15, 16, 17, 18, 19, 20, 21, 25, 40, 100, 309, 310, 400)


def integers(deep):
    """Integers around every limit another representation has."""
    out = {0, 1, 7, 42}
    for b in (8, 15, 16, 24, 31, 32, 52, 53, 54, 62, 63, 64, 65, 100, 127, 128, 256, 1023, 1024, 1025):
        out |= {2 ** b - 1, 2 ** b, 2 ** b + 1}
    for w in WIDTHS + ((600, 800) if deep else ()):
        out |= {10 ** w - 1, 10 ** w + 1, int(('123456789' * (w // 9 + 1))[:w]), 10 ** w}
    return sorted(out)


def spellings(n):
    """Texts of an integer that are not its plain digits."""
    s = str(n)
    yield '+' + s
    yield '0' * 3 + s
    if len(s) > 3:
        yield s[:-3] + '_' + s[-3:]
        yield '-' + s[:1] + '_' + s[1:]


def texts(deep):
    out = []
    for n in integers(deep):
        for t in (str(n), str(-n)) + (tuple(spellings(n)) if len(str(n)) in (1, 2, 17, 19, 20, 40) else ()):
            out.append(t)
    return out


def short(t):
    return t if len(t) < 30 else f'{t[:12]}...{t[-6:]} ({len(t)} characters)'


def c19(c):
    c.rule('first', 'text becomes something else than its integer only after the exact conversion to an integer was refused')
    c.rule('value', 'the text of an integer becomes exactly that integer')
    c.rule('parts', 'each part of a slice is converted exactly')
    c.rule('literal', 'integer text matches the literal of that integer and no other')
    c.explain('The conversions are interpreted on an unknown text, where every returning path must either return int(text) itself or have had int(text) refused before, '
              'and on the texts of integers around the limits of every other representation, where the computed constant is compared with the integer.')
    c.assumptions.append('Integers longer than the interpreter converts (sys.get_int_max_str_digits) are outside: int() itself refuses them.')
    p = c.p
    deep = c.tier != 'quick'
    ts = texts(deep)
    jobs = [(unknown, n) for n in WRAP] + [(constants, ts[i::6]) for i in range(6)] + [(casts, ts[i::4]) for i in range(4)] + [(literals, None), (slices, None)]
    parallel(c, lambda c, job: job[0](c, job[1]), jobs)


# ------------------------------------------------------------------ unknown text
def parts(v):
    """The values an outcome consists of."""
    if isinstance(v, tuple):
        for x in v:
            yield from parts(x)
    else:
        yield v


def leaf_rule(c, f, what, s, leaf, t, tr=''):
    """One value made from the text t."""
    if isinstance(leaf, Term) and leaf.op == 'int' and stripped(leaf.args[0]) == stripped(t):
        c.ob('first', True, f, '')
        return
    if any(k[0] == 'int refused' and stripped(k[1]) == stripped(t) for k in s.data if isinstance(k, tuple)):
        c.ob('first', True, f, '')
        return
    if isinstance(leaf, Const) and not isinstance(leaf.v, str):
        known = [k for k, b in s.facts.items() if b and isinstance(k, Term) and k.op == 'eq' and mentions(k, t)]
        if known:
            c.undecided.append(f'{what}: {leaf!r} where {known[:2]}')
            return
    tests = [k for k, b in s.facts.items() if isinstance(k, Term) and k.op not in ('truth', 'is', 'isinstance', 'issubclass') and (mentions(k, t) or touches(k, t))]
    if tests:
        c.undecided.append(f'{what}: depends on {tests[:2]}')
        return
    c.ob('first', False, f, f'{what} gives {leaf!r} without having tried int() on the text', tr)


def stripped(t):
    """int() ignores white space around the number."""
    if isinstance(t, Term) and t.op == 'strmeth' and t.args[0].v == 'strip' and t.args[2] == Tup(()):
        return stripped(t.args[1])
    cs = text.cells(t)
    if cs is None or t == Const(''):
        return t
    cs = list(cs)
    blank = lambda x: x[0] == '1' and isinstance(x[1], Const) and x[1].v.isspace()
    while cs and blank(cs[0]):
        del cs[0]
    while cs and blank(cs[-1]):
        del cs[-1]
    return make(cs)


def touches(k, t):
    cs = text.cells(t)
    if cs is None:
        return False
    return any(mentions(k, x[1]) for x in cs)


WRAP = {
    'terminal': ('\0',),
    'element': ('\0', '[\0]', '(\0)', '[\0,\0]', '[[\0]]', '{x:\0}', '{x:[\0]}', ' \0 ', '[ \0 , \0 ]'),
    'sequence': ('[\0]', '(\0,\0)'),
    'mapping': ('{x:\0}', '{x:\0,y:\0}'),
    'override': ('x=\0', 'x+=\0', 'x.x=\0', 'x=[\0]', 'x+=[\0,\0]', 'x={x:\0}', '=\0'),
}


def unknown(c, only):
    p = c.p
    lab = Lab(c, p, 'parser on unknown texts')
    for name, wraps in [(only, WRAP[only])]:
        f = p.get_func('marsh.parse.' + name)
        for w in wraps:
            for n in (1, 2, 3):
                cells, leaves, i = [], [], 0
                for ch in w:
                    if ch == '\0':
                        own = [one(char(f'd{i}_{j}')) for j in range(n)]
                        i += 1
                        cells += own
                        leaves.append(make(own))
                    else:
                        cells.append(one(char('key' + ch) if ch in 'xy' else Const(ch)))
                v = make(cells)
                what = f'{name}({w.replace(chr(0), "<text>")})'
                if n > 1 and len(leaves) > 1:
                    continue
                for s, r in lab.call('marsh.parse.' + name, [v], {}, State()):
                    if isinstance(r, (Raise, Endless)):
                        continue
                    if s.taint:
                        c.undecided.append(f'{what}: {s.taint[:1]}')
                        continue
                    got = [x for x in flat(reading(s, r, p))]
                    for t in map(stripped, leaves):
                        mine = [x for x in got if mentions(x, t) or touches(x, t)]
                        for x in mine:
                            leaf_rule(c, where(f), what, s, x, t)
                        if not mine:
                            for x in got:
                                if not touches(x, char('keyx')) and not touches(x, char('keyy')):
                                    leaf_rule(c, where(f), what, s, x, t)
    lab.finish()


def flat(r):
    if isinstance(r, tuple):
        for x in r:
            yield from flat(x)
    elif r is not None and not isinstance(r, str):
        yield r


# ------------------------------------------------------------------ constant text
def constants(c, ts):
    p = c.p
    lab = Lab(c, p, 'parser on integer texts')
    f = p.get_func('marsh.parse.terminal')

    def value(name, v):
        got = []
        for s, r in lab.call('marsh.parse.' + name, [v], {}, State()):
            if s.taint:
                return None
            got.append('an error' if isinstance(r, (Raise, Endless)) else reading(s, r, p))
        return None if lab.lost else got
    forms = [('terminal', '{}', lambda x: x), ('element', '{}', lambda x: x)]
    few = [t for t in ts if len(t) in (1, 2, 16, 17, 18, 20, 21)]
    more = [('element', '[{}]', lambda x: ('seq', x)), ('element', '{{k:{}}}', lambda x: ('map', (Const('k'), x))), ('element', '[[{}]]', lambda x: ('seq', ('seq', x))),
            ('override', 'k={}', None), ('override', 'k+={}', None), ('override', 'k=[{}]', None)]
    for (name, form, want), pool in [(x, ts) for x in forms] + [(x, few) for x in more]:
        f = p.get_func('marsh.parse.' + name)
        for t in pool:
            n = Const(int(t))
            got = value(name, Const(form.format(t)))
            what = f'{name}({form.format(short(t))!r})'
            if got is None:
                c.undecided.append(what)
                continue
            if want is None:
                ok = len(got) == 1 and isinstance(got[0], tuple) and any(k == 'value' and x in (n, ('seq', n)) for k, x in got[0][1:])
            else:
                ok = got == [want(n)]
            c.ob('value', ok, where(f), f'{what} gives {short(repr(got))}')
    lab.finish()


def casts(c, ts):
    p = c.p
    f = p.get_func('marsh.utils.cast_primitive')
    for k in ('str',):
        sc = c.use(cast_scene(p, 'cast_primitive', [ty('int'), V], {V: k}, 'cast_primitive(int, <str>)'))
        for o in sc.decided():
            if o.ok:
                leaf_rule(c, f.where, 'cast_primitive(int, <text>)', o.st, o.value, V, trace_of(o))
    for t in ts:
        sc = c.use(cast_scene(p, 'cast_primitive', [ty('int'), Const(t)], {}, f'cast_primitive(int, {short(t)!r})'))
        for o in sc.decided():
            c.ob('value', o.ok and o.value == Const(int(t)), f.where, f'cast_primitive(int, {short(t)!r}) gives {short(repr(o.value))}', trace_of(o))
        n = Const(int(t))
        for target in ('int',):
            sc = c.use(cast_scene(p, 'cast_primitive', [ty(target), n], {}, f'cast_primitive({target}, {short(t)})'))
            for o in sc.decided():
                c.ob('value', o.ok and o.value == n, f.where, f'cast_primitive({target}, {short(t)}) gives {short(repr(o.value))}', trace_of(o))
    for cls in [p.get_class('marsh.schema.types.primitive.PrimitiveUnmarshalSchema')]:
        f = method(p, cls, 'unmarshal')
        for e in [V] + [Const(t) for t in ts if len(t) < 60]:
            I = lib.make(p)
            st = State()
            me = st.new(Inst(cls, (('value', ty('int')), ('default', MISSING), ('default_factory', MISSING))))
            if e == V:
                st.kinds[V] = frozenset(('str',))
            what = f'{cls.full}[int].unmarshal({"<text>" if e == V else short(e.v)})'
            sc = c.use(execute(I, what, st, FuncV(f), [me, e], info=f))
            for o in sc.decided():
                if e == V:
                    if o.ok:
                        leaf_rule(c, f.where, what, o.st, o.value, V, trace_of(o))
                else:
                    c.ob('value', o.ok and o.value == Const(int(e.v)), f.where, f'{what} gives {short(repr(o.value))}', trace_of(o))


def trace_of(o):
    from .unmarshal import trace
    return trace(o)


def literals(c, _):
    p = c.p
    f = p.get_func('marsh.utils.cast_literal')
    for b in (53, 54, 63, 64, 100, 1024):
        n = 2 ** b
        for lit in (n, n + 1):
            for other in (n - 1, n, n + 1, n + 2):
                for v in (str(other), other):
                    sc = c.use(cast_scene(p, 'cast_literal', [Const(lit), Const(v)], {}, f'cast_literal({short(str(lit))}, {short(repr(v))})'))
                    for o in sc.decided():
                        ok = o.ok and o.value == Const(lit) if other == lit else not o.ok
                        c.ob('literal', ok, f.where, f'cast_literal(2**{b}{lit - n:+}, {short(repr(v))}) gives {short(repr(o.value))}', trace_of(o))
                    g = p.get_func('marsh.utils.match_literal')
                    st = State()
                    I = lib.make(p)
                    sc = c.use(execute(I, f'match_literal({short(str(lit))}, {short(repr(v))})', st, FuncV(g), [Tup([one(Const(lit))]), Const(v)], info=g))
                    for o in sc.decided():
                        ok = o.ok and o.value == Const(lit) if other == lit else not o.ok
                        c.ob('literal', ok, g.where, f'match_literal((2**{b}{lit - n:+},), {short(repr(v))}) gives {short(repr(o.value))}', trace_of(o))


# ------------------------------------------------------------------ slices
def slices(c, _):
    p = c.p
    cls = p.get_class('marsh.schema.types.slice.SliceUnmarshalSchema')
    f = method(p, cls, 'unmarshal')
    big = ['0', '7', '-3', str(2 ** 53 + 1), '-' + str(2 ** 63 + 1), str(10 ** 25 + 1), '0012']
    cases = [(a + ':' + b, (a, b, None)) for a in [''] + big for b in [''] + big]
    cases += [(f'{a}:{b}:{d}', (a, b, d)) for a in ('', '1', big[3]) for b in ('', '2', big[4]) for d in ['', '-1'] + big[3:5]]
    for t, want in cases:
        I = lib.make(p)
        st = State()
        me = st.new(Inst(cls, (('value', ExtV('builtins.slice')), ('default', MISSING), ('default_factory', MISSING))))
        what = f'{cls.full}.unmarshal({short(t)!r})'
        sc = c.use(execute(I, what, st, FuncV(f), [me, Const(t)], info=f))
        want = [Const(int(x)) if x else Const(None) for x in want]
        for o in sc.decided():
            got = slice_parts(o.value) if o.ok else None
            if o.ok and got is None:
                c.undecided.append(f'{what}: {o.value!r}')
                continue
            c.ob('parts', o.ok and got == want, f.where, f'{what} gives {short(repr(o.value))}', trace_of(o))


def slice_parts(v):
    if isinstance(v, Const) and isinstance(v.v, slice):
        return [Const(v.v.start), Const(v.v.stop), Const(v.v.step)]
    if isinstance(v, SliceV):
        return list(v.a)
    if isinstance(v, Term) and v.op == 'call' and v.args[0] == ExtV('builtins.slice'):
        ps = [x[1] for x in v.args[1].cells if x[0] == '1']
        if len(ps) != len(v.args[1].cells):
            return None
        if len(ps) == 1:
            ps = [Const(None)] + ps
        return ps + [Const(None)] * (3 - len(ps))
    return None


CHECKS = {'C19': c19}
