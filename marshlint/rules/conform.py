"""The value made is an instance of the class asked for: C42."""
import collections
import datetime
from .unmarshal import *
from .unmarshal import sweep
from . import kinds
from .kinds import Registrations, S
from .primitive import PRIM, U_, V, ty
from ..host import wrap
from .. import lib


def sub(base):
    return type('Sub' + base.__name__.title(), (base,), {'__module__': __name__})


SUBCLASSES = [sub(b) for b in (int, float, str, bytes, complex, list, dict, set, collections.OrderedDict, collections.defaultdict, collections.deque,
                               datetime.datetime, datetime.date, datetime.time)]


def head(v):
    """The object whose call made the value, or None."""
    if isinstance(v, Term) and v.op in ('usercall', 'call', 'made'):
        return v.args[0]
    return None


def is_class(v):
    """The class asked for, or what it is generic over."""
    return v == T or isinstance(v, Term) and v.op == 'gettype' and v.args[0] == T


def of_class(v):
    """The class itself, or one of its own alternative constructors."""
    return is_class(v) or isinstance(v, Term) and v.op in ('attr', 'getattr') and is_class(v.args[0]) or repr(v).startswith(('T.', 'gettype(T).'))


def mentions_class(t):
    return any(is_class(x) or isinstance(x, Term) and x.op == 'type' for x in t.args)


def settled(o):
    """The path knows which class was asked for, or that the value is an instance of it."""
    for t, b in o.st.facts.items():
        if not b or not isinstance(t, Term):
            continue
        if t.op in ('eq', 'is', 'in', 'contains') and any(is_class(x) for x in t.args):
            return True
        if t.op == 'isinstance' and t.args[0] == o.value and is_class(t.args[1]):
            return True
    return False


def verdict(o, cls):
    """-> True, a text that says what is wrong, or None (not known)"""
    v = o.value
    h = head(v)
    if h is not None and of_class(h):
        return True
    if isinstance(v, Term) and v.op == 'U':
        return True                     # what another schema answers
    if isinstance(v, Term) and v.op == 'call' and repr(h).rpartition('.')[2].strip("'") == 'cast_primitive':
        return True if any(c[0] == '1' and is_class(c[1]) for c in v.args[1].cells[:1]) else 'the value is cast to another class'
    if settled(o):
        return True
    if isinstance(v, Const) and v.v is None or v == E:
        return None
    if h is not None and repr(h).startswith('builtins.') or isinstance(v, (Tup, Const)):
        return f'{v!r} is an instance of a built-in class whatever class was asked for'
    if isinstance(v, Ref):
        ob = o.st.heap.get(v.id)
        if isinstance(ob, (Lst, Dct)):
            return f'a {ob.kind} is given whatever class was asked for'
        return None
    if h is not None or isinstance(v, Term) and v.op in ('int', 'float', 'str', 'strmeth', 'join'):
        return f'{v!r} was not made by the class that was asked for'
    return None


def c42(c):
    p = c.p
    c.rule('instance', 'what a schema returns was made by the class that was asked for, unless the path knows that this class is one of the documented ones')
    c.rule('cast', 'casting to a subclass of a primitive makes an instance of the subclass')
    c.rule('served', 'the schema which serves a subclass of a built-in class is known')
    c.explain('Which schema serves a subclass is decided by interpreting the registrations and the match methods; for each of these schemas the provenance of every value its unmarshal method returns is compared with the class asked for, which stands for any class.')
    c.assumptions.append('A class called with arguments gives an instance of itself, and so do its alternative constructors.')
    B = Registrations(c, 'schemas of subclasses')
    served = {}
    if B.load():
        base = p.get_class(S + 'core.unmarshal.UnmarshalSchema')
        for t in SUBCLASSES:
            what = f'unmarshaling <type {t.__name__}({t.__mro__[1].__name__})>'
            got = B.match(base, wrap(t), what)
            if got is None:
                continue
            c.ob('served', len(got) == 1, f'{base.module.path}:{base.node.lineno} {base.name}', f'{what} is left to {sorted(got)}')
            for g in got:
                served.setdefault(g[-1], []).append(t.__mro__[1].__name__)
    c.use(B.sc)
    for cls, d, nm, sc in sweep(p):
        if d != 'none' or cls.name not in served:
            continue
        c.use(sc)
        for o in sc.decided():
            if not o.ok:
                continue
            what = f'{cls.full} (which serves subclasses of {", ".join(served[cls.name])}): {nm}'
            r = verdict(o, cls)
            if r is None:
                c.undecided.append(f'{what}: {o.value!r}')
                continue
            c.ob('instance', r is True, sc.info.where, f'{what}: {r}', trace(o))
    casts(c)


def casts(c):
    p = c.p
    f = p.get_func(U_ + 'cast_primitive')
    for t in ('int', 'float', 'str'):
        for k in PRIM:
            I = lib.make(p)
            I.child_any_exc = False
            st = State()
            st.kinds[V] = frozenset((k,))
            cls = Sym('SUB:' + t)
            st.kinds[cls] = frozenset(('type',))
            for n in PRIM + ('bytes', 'tuple', 'list', 'dict'):
                st.facts[Term('issubclass', cls, ty(n))] = n == t
                for op in ('eq', 'is'):
                    st.facts[Term(op, *sorted((cls, ty(n)), key=repr))] = False
            base = I.call_hook

            def hook(I, g, pos, kw, st, fr, node, base=base, cls=cls):
                if g == cls:
                    return [(st, Term('made', cls, Tup(pos)))]
                return base(I, g, pos, kw, st, fr, node) if base else None
            I.call_hook = hook
            what = f'cast_primitive(subclass of {t}, <{k}>)'
            sc = c.use(execute(I, what, st, FuncV(f), [cls, V], info=f))
            for o in sc.decided():
                if not o.ok:
                    continue
                h = head(o.value)
                if h == cls or isinstance(h, Term) and h.args and h.args[0] == cls:
                    ok = True
                elif any(b and isinstance(x, Term) and x.op == 'isinstance' and x.args == (o.value, cls) for x, b in o.st.facts.items()):
                    ok = True
                else:
                    ok = False
                c.ob('cast', ok, sc.info.where, f'{what} gives {o.value!r}, which is a plain {t}', trace(o))


CHECKS = {'C42': c42}
