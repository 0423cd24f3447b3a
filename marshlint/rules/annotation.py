"""Annotation hooks (C09) and value validators (C10)."""
import itertools
from ..scen import *
from .unmarshal import Runs, trace, ANN

A_ = 'marsh.annotation.'
V = Sym('V')


# ------------------------------------------------------------------ C10
REGIONS = {
    'Positive': ('pos',),
    'Negative': ('neg',),
    'Unsigned': ('zero', 'pos'),
}


def c10(c):
    c.rule('region', 'the constraint accepts exactly the documented side; zero is on the documented side; nan is refused')
    c.rule('unchanged', 'an accepted value is returned unchanged')
    c.explain('Each validator is abstractly interpreted on every region of numbers (negative, zero, positive, not a number; int and float) and on empty and non-empty containers of unknown items.')
    p = c.p
    for name, want in REGIONS.items():
        cls = p.get_class(A_ + name)
        f = method(p, cls, '__call__')
        for kind in ('int', 'float'):
            for r in ('neg', 'zero', 'pos', 'nan'):
                if r == 'nan' and kind == 'int':
                    continue
                I = lib.make(p)
                st = State()
                st.kinds[V] = frozenset((kind,))
                st.num[V] = r
                me = st.new(Inst(cls, ()))
                sc = c.use(execute(I, f'{name}()({kind}, {r})', st, FuncV(f), [me, V], info=f))
                check_region(c, sc, f, f'{name} on a {kind} that is {LABEL[r]}', r in want, V)
    cls = p.get_class(A_ + 'Populated')
    f = method(p, cls, '__call__')
    contents = []
    for kind in ('list', 'tuple', 'set', 'dict', 'str'):
        contents.append((kind, False, ()))
        contents.append((kind, True, (Sym('item'),)))
        contents.append((kind, True, (Const(0),)))
        contents.append((kind, True, (NONE, Const(''))))
        contents.append((kind, True, (Sym('i1'), Sym('i2'), Sym('i3'))))
    for kind, ok, items in contents:
        I = lib.make(p)
        st = State()
        v = V
        if kind == 'str':
            v = Const('x' * len(items))
        elif kind == 'tuple':
            v = Tup(tuple(map(one, items)))
        elif kind == 'dict':
            v = st.new(Dct(tuple(kv(Const(f'k{i}'), x) for i, x in enumerate(items)), 'dict', 'input', V))
        else:
            v = st.new(Lst(tuple(map(one, items)), kind, 'input', V))
        me = st.new(Inst(cls, ()))
        sc = c.use(execute(I, f'Populated()({kind} of {len(items)})', st, FuncV(f), [me, v], info=f))
        check_region(c, sc, f, f'Populated on a {kind} of {len(items)} item(s)', ok, v)


LABEL = {'neg': 'negative', 'zero': 'zero', 'pos': 'positive', 'nan': 'not a number'}


def check_region(c, sc, f, what, ok, v):
    for o in sc.decided():
        c.ob('region', o.ok == ok, f.where if o.ok else o.origin(), f'{what} is ' + ('accepted' if o.ok else f'refused ({o.cls_name()})'), trace(o))
        if o.ok and ok:
            c.ob('unchanged', o.value == v, f.where, f'{what}: {o.value!r} is returned instead of the value', trace(o))


# ------------------------------------------------------------------ C09
KINDS_ = ('pre', 'post', 'pre-class', 'post-class', 'other', 'other-class')


def hook_sym(i, k):
    return Sym(f'H{i}:{k}')


def layouts():
    for n in (0, 1, 2, 3):
        yield from itertools.product(('pre', 'post', 'other') if n == 3 else KINDS_, repeat=n)
    yield ('post', 'pre', 'post-class', 'pre-class')
    yield ('pre', 'pre-class', 'pre', 'post', 'post', 'post-class')
    yield ('post-class', 'other-class', 'pre-class', 'other', 'post', 'pre')


def setup_hooks(I, st, layout):
    pre, post = ClassV(I.p.get_class(A_ + 'PreAnnotation')), ClassV(I.p.get_class(A_ + 'Annotation'))
    I.annotations = Tup([one(hook_sym(i, k)) for i, k in enumerate(layout)])
    insts = []
    for i, k in enumerate(layout):
        h = hook_sym(i, k)
        which = k.split('-')[0]
        if k.endswith('class'):
            st.kinds[h] = frozenset(('type',))
            inst = Sym(f'H{i}()')
            for base, nm in ((pre, 'pre'), (post, 'post')):
                st.facts[Term('issubclass', h, base)] = which == nm
                st.facts[Term('isinstance', h, base)] = False
        else:
            st.kinds[h] = frozenset(('other',))
            inst = h
        st.kinds[inst] = frozenset(('other',))
        for base, nm in ((pre, 'pre'), (post, 'post')):
            st.facts[Term('isinstance', inst, base)] = which == nm
            # callable objects, neither types nor something else
        insts.append(inst)
    return insts


def c09(c):
    c.rule('order', 'pre-hooks run first, in order, each on the previous result; then the conversion once; then the post-hooks in order')
    c.rule('errors', 'a failing hook surfaces as a library error')
    c.rule('result', 'the last result is returned')
    c.explain('The annotated schema is abstractly interpreted for every arrangement of up to three (and three longer) hooks given as instances or classes, mixed with unrelated annotations; every call may fail.')
    p = c.p
    cls = p.get_class(ANN)
    f = method(p, cls, 'unmarshal')
    for layout in layouts():
        I = Runs.of(p).interp()
        st = State()
        insts = setup_hooks(I, st, layout)
        base = I.call_hook

        def hook(I, f_, pos, kw, st, fr, node, insts=insts, layout=layout):
            for i, k in enumerate(layout):
                if f_ == hook_sym(i, k) and k.endswith('class') and not pos and not kw:
                    st.event('make', insts[i])
                    return [(st, insts[i]), failing(I, st, fr, node, insts[i])]
                if f_ == insts[i]:
                    t = Term('H', insts[i], *[x[1] for x in pos], *[x[2] for x in kw])
                    st.event('hook', insts[i], *[x[1] for x in pos], *[x[2] for x in kw])
                    return [(st, t), failing(I, st, fr, node, insts[i])]
            return base(I, f_, pos, kw, st, fr, node)
        I.call_hook = hook
        st.kinds[E] = NOT_MISSING
        prepare(st)
        me = st.new(Inst(cls, (('value', T), ('default', MISSING), ('default_factory', MISSING), ('schema', Sym('WS')))))
        what = f'hooks [{", ".join(layout)}]'
        sc = c.use(execute(I, what, st, FuncV(f), [me, E], info=f))
        for b in ('pre', 'post'):
            pass
        want, v = [], E
        for i, k in enumerate(layout):
            if k.startswith('pre'):
                want.append(('hook', insts[i], v))
                v = Term('H', insts[i], v)
        want.append(('U', Sym('WS'), v))
        v = Term('U', Sym('WS'), v)
        for i, k in enumerate(layout):
            if k.startswith('post'):
                want.append(('hook', insts[i], v))
                v = Term('H', insts[i], v)
        for o in sc.decided():
            got = [e for e in o.st.events if e[0] in ('hook', 'U')]
            if any(t not in preset_ok(o) for t in ()):
                continue
            if o.ok:
                c.ob('order', got == want, f.where, f'{what}: the calls are {got}, not {want}', trace(o))
                c.ob('result', o.value == v, f.where, f'{what}: {o.value!r} is returned instead of {v!r}', trace(o))
            else:
                c.ob('errors', o.is_marsh(p), o.origin(), f'{what}: {o.cls_name()} leaves the schema', trace(o))
                c.ob('order', got == want[:len(got)], o.origin(), f'{what}: the calls before the failure are {got}, not {want[:len(got)]}', trace(o))


def preset_ok(o):
    return o.st.facts


def failing(I, st, fr, node, inst):
    s2 = st.fork()
    r = I.raise_new(s2, 'builtins.Exception', node, fr, exact=False)
    s2.put(r.exc, s2.obj(r.exc).set('__user__', TRUE))
    return (s2, r)


CHECKS = {'C09': c09, 'C10': c10}
