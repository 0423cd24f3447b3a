"""Rules on primitive conversion: C28, C29, C19."""
import re
from ..scen import *
from .unmarshal import Runs, trace, classes, is_named

U_ = 'marsh.utils.'
V = Sym('V')
L = Sym('L')
PRIM = ('bool', 'int', 'float', 'str')
NONPRIM = ('none', 'bytes', 'mapping', 'sequence', 'other', 'type')
TRUE_WORDS = {'1', 'true', 'y', 'yes', 'on'}
FALSE_WORDS = {'0', 'false', 'n', 'no', 'off'}
FOLD = {'lower', 'casefold', 'upper', 'title', 'capitalize'}


def cast_scene(p, fn, pos, kinds, name):
    f = p.get_func(U_ + fn)
    I = lib.make(p)
    I.child_any_exc = False
    st = State()
    for v, k in kinds.items():
        st.kinds[v] = frozenset((k,)) if isinstance(k, str) else frozenset(k)
    return execute(I, name, st, FuncV(f), pos, info=f)


def ty(n):
    return ExtV('builtins.' + n)


def cast_runs(p):
    R = Runs.of(p)
    for t in PRIM:
        for k in PRIM + NONPRIM:
            name = f'cast_primitive({t}, <{k}>)'
            yield t, k, R.get(('cast', t, k), lambda: cast_scene(p, 'cast_primitive', [ty(t), V], {V: k}, name))


def subclass_scene(p, t, k):
    """cast_primitive into a user-defined subclass of a primitive."""
    R = Runs.of(p)

    def build():
        f = p.get_func(U_ + 'cast_primitive')
        I = lib.make(p)
        I.child_any_exc = False
        st = State()
        st.kinds[V] = frozenset((k,))
        sub = Sym('SUB:' + t)
        st.kinds[sub] = frozenset(('type',))
        for n in PRIM + ('bytes', 'tuple', 'list', 'dict'):
            st.facts[Term('issubclass', sub, ty(n))] = n == t
            for op in ('eq', 'is'):
                st.facts[Term(op, *sorted((sub, ty(n)), key=repr))] = False
        base = I.call_hook

        def hook(I, g, pos, kw, st, fr, node):
            if g == sub:
                return I.ext_models['builtins.' + t](I, pos, kw, st, fr, node)
            return base(I, g, pos, kw, st, fr, node) if base else None
        I.call_hook = hook
        return execute(I, f'cast_primitive(subclass of {t}, <{k}>)', st, FuncV(f), [sub, V], info=f)
    return R.get(('sub', t, k), build)


def cast_scenes(p):
    for t, k, sc in cast_runs(p):
        yield sc
    for k in PRIM + NONPRIM:
        for lk in PRIM + ('other',):
            yield literal_scene(p, lk, k)


def literal_scene(p, lk, k):
    """cast_literal on a literal of kind lk and a value of kind k."""
    R = Runs.of(p)

    def build():
        f = p.get_func(U_ + 'cast_literal')
        I = lib.make(p)
        st = State()
        st.kinds[V] = frozenset((k,))
        st.kinds[L] = frozenset((lk,))
        I.nan_self = True
        base = I.ext_models.get('builtins.type')
        I.ext_models = dict(I.ext_models)
        I.ext_models['builtins.type'] = lambda I, pos, kw, st, fr, node: [(st, ty(lk) if lk in PRIM else ExtV('builtins.tuple'))] \
            if len(pos) == 1 and pos[0][1] == L else base(I, pos, kw, st, fr, node)
        return execute(I, f'cast_literal(<{lk}>, <{k}>)', st, FuncV(f), [L, V], info=f)
    return R.get(('lit', lk, k), build)


# ------------------------------------------------------------------ reading results
def core(v):
    """Strip text normalisation: -> (inner value, folded?)"""
    fold = False
    while isinstance(v, Term):
        if v.op == 'strmeth' and v.args[0].v in FOLD:
            fold = True
            v = v.args[1]
        elif v.op == 'strmeth' and v.args[0].v in ('strip', 'lstrip', 'rstrip') and v.args[2] == Tup(()):
            v = v.args[1]
        elif v.op == 'str':
            v = v.args[0]
        else:
            break
    return v, fold


def mentions(t, v):
    if t == v:
        return True
    if isinstance(t, Term):
        return any(mentions(x, v) for x in t.args)
    if isinstance(t, Tup):
        return any(mentions(x, v) for c in t.cells for x in c[1:])
    return False


def positive_words(st, v):
    """Constants that v (or its lower-cased text) is known to equal on the path."""
    out = []
    for t, b in st.facts.items():
        if b is True and isinstance(t, Term) and t.op in ('eq', 'is') and len(t.args) == 2:
            for x, y in (t.args, t.args[::-1]):
                if isinstance(y, Const) and core(x)[0] == v:
                    out.append(y.v)
    return out


OTHER_FACTS = ('isinstance', 'issubclass', 'is_obj')


def unknown_facts(st, v):
    """Facts about v that no rule below understands."""
    out = []
    for t, b in st.facts.items():
        if isinstance(t, Term) and mentions(t, v) and t.op not in OTHER_FACTS:
            if t.op in ('eq', 'is') and any(isinstance(a, Const) for a in t.args) and any(core(a)[0] == v for a in t.args):
                continue
            if t.op == 'is_integer':
                continue
            out.append(t)
    return out


def integral(st, x):
    """Does the path establish that the float x has an integral value?"""
    for t, b in st.facts.items():
        if b is not True or not isinstance(t, Term):
            continue
        if t.op == 'is_integer' and t.args[0] == x:
            return True
        if t.op == 'eq' and x in t.args:
            o = t.args[0] if t.args[1] == x else t.args[1]
            if o == Term('int', x):
                return True
        if t.op == 'eq' and Const(0) in t.args and any(isinstance(a, Term) and a.op in ('mod', 'Mod', '%', 'binop') and mentions(a, x) for a in t.args):
            return True
    return False


def judge(t, k, o, v=V):
    """Is a returned value a legitimate conversion of a k into a t?
    -> True, a complaint, or None when the path cannot be judged."""
    r, st = o.value, o.st
    if k not in PRIM:
        return f'a {k} value becomes {r!r}'
    if t == 'bool':
        if k == 'bool' and r in (v, Term('bool', v)):
            return True
        words = positive_words(st, v)
        if isinstance(r, Const) and isinstance(r.v, bool):
            ok = TRUE_WORDS if r.v else FALSE_WORDS
            num = 1 if r.v else 0
            if k == 'bool':
                for tm, b in st.facts.items():
                    if tm == v or (isinstance(tm, Term) and tm.op == 'bool' and tm.args[0] == v):
                        return True if b == r.v else f'{v!r} is {b} but the result is {r.v}'
            for w in words:
                if isinstance(w, str) and w.lower() in ok or not isinstance(w, str) and w == num:
                    return True
            if st.num.get(v) == 'zero' and not r.v:
                return True
            if words:
                return f'{words} becomes {r.v}'
            if unknown_facts(st, v):
                return None
            return f'a {k} that is none of the documented {"true" if r.v else "false"} words or numbers becomes {r.v}'
        return f'a {k} becomes the truth value of {r!r}'
    if t == 'int':
        if r == v:
            return True if k in ('int', 'bool') else f'the {k} itself is returned'
        if r == Term('int', v):
            if k != 'float' or integral(st, v):
                return True
            return None if unknown_facts(st, v) else 'a float is truncated without testing that it is integral'
        if k == 'str':
            x = Term('float', v)
            if r == Term('int', x):
                if not st.data.get(('int refused', v)):
                    return 'text that may be an integer is converted through floating point'
                if integral(st, x):
                    return True
                return None if unknown_facts(st, x) else 'text of a fraction is truncated'
        if isinstance(r, Term) and r.op in ('round', 'floor', 'trunc', 'ceil', 'float'):
            return f'the value becomes {r!r}'
        if isinstance(r, Const):
            return f'the constant {r!r} is returned'
        return None
    if t == 'float':
        if r == Term('float', v) or (r == v and k == 'float'):
            return True
        if r == v:
            return f'the {k} itself is returned'
        return f'the constant {r!r} is returned' if isinstance(r, Const) else None
    if r == Term('str', v) or (r == v and k == 'str'):
        return True
    if r == v:
        return f'the {k} itself is returned'
    if isinstance(r, Const):
        return f'the constant {r!r} is returned'
    if isinstance(r, Term) and r.op == 'strmeth':
        return f'the text is altered: {r!r}'
    return None


def c28(c):
    c.rule('exact', 'a returned value is the exact conversion: fractions never become integers, only the documented words and numbers become booleans')
    c.rule('refused', 'null, bytes, sequences, mappings and other objects are refused')
    c.rule('accepted', 'values that denote a value of the type are accepted')
    c.explain('cast_primitive and the primitive schema are abstractly interpreted for every pair of target type and kind of value; the facts each returning path has established are compared with what the target type requires.')
    p = c.p
    for t, k, sc in cast_runs(p):
        c.use(sc)
        read(c, t, k, sc, f'cast_primitive({t}, <{k}>)')
    for t in ('int', 'float', 'str'):
        for k in PRIM + NONPRIM:
            read(c, t, k, c.use(subclass_scene(p, t, k)), f'cast_primitive(subclass of {t}, <{k}>)')
    for cls in classes(p):
        if not cls.full == 'marsh.schema.types.primitive.PrimitiveUnmarshalSchema':
            continue
        for t in PRIM:
            for k in PRIM + NONPRIM:
                f = method(p, cls, 'unmarshal')
                I = lib.make(p)
                st = State()
                me = st.new(Inst(cls, (('value', ty(t)), ('default', MISSING), ('default_factory', MISSING))))
                st.kinds[V] = frozenset((k,))
                sc = c.use(execute(I, f'{cls.full}[{t}].unmarshal(<{k}>)', st, FuncV(f), [me, V], info=f))
                read(c, t, k, sc, f'unmarshal({t}, <{k}>)')
    words(c)
    never_integers(c)


REGION = ('a fraction', 'not a number', 'infinite')


def never_integers(c):
    """Fractions, nan and infinities, as floats and as text, are never integers."""
    c.rule('region', 'no path returns an integer (or, apart from the documented values, a boolean) for a fraction, nan or an infinity')
    p = c.p
    f = p.get_func(U_ + 'cast_primitive')
    for region in REGION:
        for text in (False, True):
            for t in ('int', 'bool') if not text else ('int',):
                I = lib.make(p)
                st = State()
                num = Term('float', V) if text else V
                st.kinds[V] = frozenset(('str' if text else 'float',))
                st.kinds[num] = frozenset(('float',))
                st.facts[Term('is_integer', num)] = False
                st.facts[I.eqterm(num, Term('int', num))] = False
                for k in (-1, 0, 1):
                    st.facts[I.eqterm(num, Const(k))] = False
                whole = [Term('int', num), Term('FloorDiv', num, Const(1))] + [
                    Term('call', ExtV(n), Tup([one(num)]), Tup((), 'kw')) for n in ('builtins.round', 'math.floor', 'math.ceil', 'math.trunc')]
                rest = [Term('Mod', num, Const(1)), Term('Mod', num, Const(1.0)), Term('call', ExtV('math.fmod'), Tup([one(num), one(Const(1))]), Tup((), 'kw'))]
                for x in whole:
                    st.facts[I.eqterm(num, x)] = False
                    rest += [Term('Sub', num, x), Term('Sub', x, num)]
                for x in rest:
                    for zero in (0, 0.0):
                        st.facts[I.eqterm(x, Const(zero))] = False
                    st.facts[x] = True
                    st.facts[Term('bool', x)] = True
                known = set(st.facts)
                if region == 'not a number':
                    st.num[num] = 'nan'
                for w in TRUE_WORDS | FALSE_WORDS:
                    st.facts[I.eqterm(Term('strmeth', Const('lower'), Term('str', V), Tup(())), Const(w))] = False
                    st.facts[I.eqterm(Term('strmeth', Const('casefold'), Term('str', V), Tup(())), Const(w))] = False
                base_int, base_float = I.ext_models['builtins.int'], I.ext_models['builtins.float']
                I.ext_models = dict(I.ext_models)

                def int_(I, pos, kw, st, fr, node, num=num, text=text, region=region):
                    a = pos[0][1] if pos else None
                    if a == V and text:
                        return [(st, I.raise_new(st, 'builtins.ValueError', node, fr))]
                    if a == num and region != 'a fraction':
                        return [(st, I.raise_new(st, 'builtins.ValueError' if region == 'not a number' else 'builtins.OverflowError', node, fr))]
                    if a == num:
                        return [(st, Term('int', num))]
                    return base_int(I, pos, kw, st, fr, node)

                def float_(I, pos, kw, st, fr, node, num=num):
                    if pos and pos[0][1] in (V, num):
                        return [(st, num)]
                    return base_float(I, pos, kw, st, fr, node)
                I.ext_models['builtins.int'], I.ext_models['builtins.float'] = int_, float_
                what = f'cast_primitive({t}, {"text of " if text else ""}{region})'
                sc = c.use(execute(I, what, st, FuncV(f), [ty(t), V], info=f))
                for o in sc.decided():
                    odd = [x for x in o.st.facts if x not in known and isinstance(x, Term) and mentions(x, num) and x.op not in OTHER_FACTS + ('lt', 'le', 'gt', 'ge')
                           and not (x.op == 'call' and x.args[0] == ExtV('math.isclose'))
                           and not (x.op == 'eq' and any(isinstance(a, Const) for a in x.args))]
                    if o.ok and odd:
                        c.undecided.append(f'{what}: the path depends on {odd[:2]}')
                        continue
                    c.ob('region', not o.ok, f.where, f'{what} gives {o.value!r}', trace(o))


def read(c, t, k, sc, what):
    some = False
    for o in sc.decided():
        if not o.ok:
            continue
        some = True
        r = judge(t, k, o)
        if r is None:
            c.undecided.append(f'{what}: {o.value!r}')
            continue
        c.ob('exact' if k in PRIM else 'refused', r is True, sc.info.where, f'{what}: {r}', trace(o))
    if not some and k in PRIM and not sc.undecided():
        c.ob('accepted', False, sc.info.where, f'{what} is always refused')
    if k not in PRIM and not some:
        c.ob('refused', True, sc.info.where, '')


def words(c):
    """The documented words and numbers, in any letter case."""
    table = [(w, True) for w in TRUE_WORDS] + [(w, False) for w in FALSE_WORDS]
    table = [(x, r) for w, r in table for x in {w, w.upper(), w.title()}]
    table += [(1, True), (0, False), (1.0, True), (0.0, False), (-0.0, False), (True, True), (False, False)]
    table += [(x, None) for x in (2, -1, 0.5, 1.5, float('nan'), float('inf'), 'tru', 'yess', '', '2', '-1', 'null', 'none', 't', 'f', '01', '1.0')]
    for v, want in table:
        sc = c.use(cast_scene(c.p, 'cast_primitive', [ty('bool'), Const(v)], {}, f'cast_primitive(bool, {v!r})'))
        for o in sc.decided():
            if want is None:
                c.ob('exact', not o.ok, sc.info.where, f'{v!r} becomes the boolean {o.value!r}', trace(o))
            else:
                c.ob('accepted', o.ok and o.value == Const(want), sc.info.where, f'{v!r} gives {o!r} instead of {want}', trace(o))


# ------------------------------------------------------------------ C29
def c29(c):
    c.rule('member', 'what is returned is the declared member itself')
    c.rule('denotes', 'a member is returned only on paths where the input, converted to the member\'s type, equals its value (or name)')
    c.rule('kinds', 'null, sequences and mappings never match a member')
    c.explain('cast_literal, match_literal and the literal and enum value schemas are abstractly interpreted for unknown members and values of every kind.')
    p = c.p
    for lk in PRIM + ('other',):
        for k in PRIM + NONPRIM:
            sc = c.use(literal_scene(p, lk, k))
            what = f'cast_literal(<{lk}> L, <{k}> V)'
            for o in sc.decided():
                if not o.ok:
                    c.ob('kinds', True, sc.info.where, '')
                    continue
                if k not in PRIM or lk not in PRIM:
                    c.ob('kinds', False, sc.info.where, f'{what} accepts the value', trace(o))
                    continue
                c.ob('member', o.value == L, sc.info.where, f'{what} returns {o.value!r} instead of the literal', trace(o))
                r = equated(o, lk, k)
                if r is None:
                    c.undecided.append(what)
                else:
                    c.ob('denotes', r, sc.info.where, f'{what} accepts a value that was not found equal to the literal', trace(o))
    matching(c)
    for cls in classes(p):
        if cls.full == 'marsh.schema.types.enum.EnumValueUnmarshalSchema':
            enum_value(c, cls)
        elif cls.full == 'marsh.schema.types.literal.LiteralValueUnmarshalSchema':
            literal_value(c, cls)


def equated(o, lk, k):
    """Does the path contain the fact that the converted value equals L?"""
    unknown = False
    for t, b in o.st.facts.items():
        if isinstance(t, Term) and t.op == 'eq' and L in t.args:
            other = t.args[0] if t.args[1] == L else t.args[1]
            if mentions(other, V) or isinstance(other, Const):
                if b is True:
                    return True
        elif isinstance(t, Term) and mentions(t, L) and t.op not in OTHER_FACTS:
            unknown = True
    if lk == 'bool' and any(L in (t, *getattr(t, 'args', ())) and b is True for t, b in o.st.facts.items()):
        return True
    return None if unknown else False


def matching(c):
    """match_literal: the first literal that the value denotes, by identity."""
    p = c.p
    f = p.funcs.get(U_ + 'match_literal') if hasattr(p, 'funcs') else p.get_func(U_ + 'match_literal')
    f = p.get_func(U_ + 'match_literal')
    lits = [Sym('L1'), Sym('L2'), Sym('L3')]
    I = lib.make(p)

    def cast(I, pos, kw, st, fr, node):
        lit, val = lib.arg(pos, kw, 0, 'literal'), lib.arg(pos, kw, 1, 'value')
        st.event('cast', lit, val)
        s2 = st.fork()
        st.event('hit', lit, val)
        return [(st, lit), (s2, I.raise_new(s2, 'builtins.ValueError', node, fr))]
    I.models[U_ + 'cast_literal'] = cast
    st = State()
    st.kinds[V] = frozenset(PRIM)
    seq = st.new(Lst(tuple(map(one, lits)), 'list', 'input', Sym('LITS')))
    sc = c.use(execute(I, 'match_literal([L1, L2, L3], V)', st, FuncV(f), [seq, V], info=f))
    for o in sc.decided():
        hits = [e for e in o.st.events if e[0] == 'hit']
        casts = [e for e in o.st.events if e[0] == 'cast']
        if not casts:
            c.undecided.append(sc.name)
            continue
        order = [e[1] for e in casts] == lits[:len(casts)] and all(e[2] == V for e in casts)
        c.ob('denotes', order, f.where, f'literals are tried as {[(e[1], e[2]) for e in casts]}', trace(o))
        if o.ok:
            c.ob('member', bool(hits) and o.value == hits[0][1], f.where, f'returns {o.value!r} though the first match is {hits[:1]}', trace(o))
        else:
            c.ob('member', not hits and len(casts) == 3, o.origin(), 'raises although a literal matched or was not tried', trace(o))


def enum_value(c, cls):
    """The enum member whose name or value the input denotes."""
    p = c.p
    f = method(p, cls, 'unmarshal')
    mem, nm, vl = Sym('MEMBER'), Sym('NAME'), Sym('VALUE')
    for d in ('none', 'default'):
        for k in PRIM + NONPRIM:
            I = lib.make(p)

            def cast(I, pos, kw, st, fr, node):
                lit, val = lib.arg(pos, kw, 0, 'literal'), lib.arg(pos, kw, 1, 'value')
                st.event('cast', lit, val)
                s2 = st.fork()
                st.event('hit', lit, val)
                return [(st, lit), (s2, I.raise_new(s2, 'builtins.ValueError', node, fr))]
            I.models[U_ + 'cast_literal'] = cast
            I.attr_hook = lambda I, v, name, st, fr, node: [(st, nm if name == 'name' else vl)] if v == mem and name in ('name', 'value') else None
            st = State()
            st.kinds[V] = frozenset((k,))
            st.kinds[nm] = frozenset(('str',))
            st.kinds[mem] = frozenset(('other',))
            df = DEFAULTS[d]
            me = st.new(Inst(cls, (('value', mem), ('default', df[0]), ('default_factory', df[1]))))
            what = f'{cls.full}.unmarshal(<{k}>)'
            sc = c.use(execute(I, what, st, FuncV(f), [me, V], info=f))
            for o in sc.decided():
                if not o.ok:
                    hits = [e for e in o.st.events if e[0] == 'hit']
                    c.ob('denotes', not hits, o.origin(), f'{what} raises although {hits} matched', trace(o))
                    if k in PRIM and not o.st.taint:
                        lits = {e[1] for e in o.st.events if e[0] == 'cast'}
                        c.ob('denotes', lits == {nm, vl}, o.origin(), f'{what} is refused after comparing only with {sorted(map(repr, lits))}', trace(o))
                    continue
                hits = [e for e in o.st.events if e[0] == 'hit' and e[1] in (nm, vl) and e[2] == V]
                eqs = [t for t, b in o.st.facts.items() if b is True and isinstance(t, Term) and t.op == 'eq' and mentions(t, V) and (mentions(t, nm) or mentions(t, vl))]
                if k not in PRIM:
                    c.ob('kinds', False, f.where, f'{what} gives {o.value!r}', trace(o))
                    continue
                c.ob('denotes', bool(hits or eqs), f.where, f'{what} is accepted without denoting the name or the value', trace(o))
                c.ob('member', o.value == mem, f.where, f'{what} gives {o.value!r} instead of the member', trace(o))


def literal_value(c, cls):
    p = c.p
    f = method(p, cls, 'unmarshal')
    for k in PRIM + NONPRIM:
        I = lib.make(p)
        st = State()
        st.kinds[V] = frozenset((k,))
        me = st.new(Inst(cls, (('value', T), ('default', MISSING), ('default_factory', MISSING), ('literal_value', L), ('schema', Sym('LS')))))
        what = f'{cls.full}.unmarshal(<{k}>)'
        sc = c.use(execute(I, what, st, FuncV(f), [me, V], info=f))
        u = Term('U', Sym('LS'), V)
        for o in sc.decided():
            if not o.ok:
                c.ob('member', True, f.where, '')
                continue
            eq = o.st.facts.get(I.eqterm(L, u)) is True
            direct = any(b is True and isinstance(t, Term) and t.op == 'eq' and L in t.args for t, b in o.st.facts.items())
            c.ob('denotes', eq or direct, f.where, f'{what} returns without having found the converted value equal to the literal', trace(o))
            c.ob('member', o.value == L or (o.value == u and eq), f.where, f'{what} gives {o.value!r}', trace(o))


CHECKS = {'C28': c28, 'C29': c29}
