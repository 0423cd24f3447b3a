"""Scenarios: abstract set-ups of the analysed package that the rules share."""
from .program import Program, AnalysisBroken, ClassInfo
from .values import *
from .interp import Interp, Raise, Budget, NONE, TRUE, FALSE, mk, Frame
from . import lib

MISSING = Const(MISSING_TEXT)
T, D, F, E = Sym('T'), Sym('D'), Sym('F'), Sym('E')
NOT_MISSING = ALL_KINDS - {'missing'}
import os
STRICT = bool(os.environ.get('MARSHLINT_STRICT'))
S = 'marsh.schema.'
TEMPLATE = {
    'sequence': S + 'template.sequence.SequenceUnmarshalSchema',
    'mapping': S + 'template.mapping.MappingUnmarshalSchema',
    'structured': S + 'template.structured.StructuredUnmarshalSchema',
    'union': S + 'template.union.UnionUnmarshalSchema',
}
BASE_U = S + 'core.unmarshal.UnmarshalSchema'
BASE_M = S + 'core.marshal.MarshalSchema'
WRAPPER_U = S + 'core.unmarshal.WrapperUnmarshalSchema'
WRAPPER_M = S + 'core.marshal.WrapperMarshalSchema'


class Outcome:
    __slots__ = ('st', 'value', 'exc', 'child')

    def __init__(self, st, v):
        self.st = st
        self.value = self.exc = None
        if isinstance(v, Raise):
            self.exc = st.obj(v.exc)
        else:
            self.value = v

    @property
    def ok(self):
        return self.exc is None

    @property
    def tainted(self):
        return bool(self.st.taint)

    def path(self):
        """The error's path attribute as a value, or None."""
        return self.exc.get('path') if self.exc is not None else None

    def is_marsh(self, p):
        c = self.exc.cls
        if isinstance(c, ClassInfo):
            return p.is_subclass(c, lib.ERR) is not False
        return False

    def cls_name(self):
        c = self.exc.cls
        return c.full if isinstance(c, ClassInfo) else c

    def origin(self):
        return self.exc.origin

    def __repr__(self):
        if self.ok:
            return f'RET {self.value!r}'
        return f'RAISE {self.cls_name()} exact={self.exc.exact} path={self.path()!r} @{self.origin()}'


class Scene:
    """One analysed entry with its outcomes."""

    def __init__(self, name, interp):
        self.name, self.I = name, interp
        self.outcomes = []
        self.cut = False
        self.info = None

    def undecided(self):
        return sum(o.tainted for o in self.outcomes) + (1 if self.cut else 0)

    def decided(self):
        return [o for o in self.outcomes if not o.tainted]


def execute(I, name, st, f, pos, kw=(), info=None):
    sc = Scene(name, I)
    sc.info = info or (f.info if isinstance(f, FuncV) else None)
    try:
        for s, v in I.run(f, list(pos), list(kw), st=st):
            sc.outcomes.append(Outcome(s, v))
    except Budget:
        sc.cut = True
    except (RecursionError, AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError) as e:
        if STRICT:
            raise
        sc.cut = True          # a construct the engine cannot follow: undecided, never an alarm
        sc.why = f'{type(e).__name__}: {e}'
    return sc


def method(p, cls, name):
    f = p.find_member(cls, name)
    if not f or f[1][0] != 'func':
        raise AnalysisBroken(f'{cls.full}.{name} not found')
    return f[1][1]


def kwcell(name, v):
    return ('1', Const(name), v)


def unmarshal_classes(p):
    base = p.get_class(BASE_U)
    return [c for c in p.classes() if c is not base and p.is_subclass(c, BASE_U) is True]


def family(p, c):
    for k, t in TEMPLATE.items():
        if p.is_subclass(c, t) is True:
            return k
    if p.is_subclass(c, WRAPPER_U) is True:
        return 'wrapper'
    return 'leaf'


DEFAULTS = {
    'none': (MISSING, MISSING),
    'default': (D, MISSING),
    'factory': (MISSING, F),
}


def base_attrs(default='none'):
    d, f = DEFAULTS[default]
    return (('value', T), ('default', d), ('default_factory', f))


def prepare(st):
    st.kinds[D] = NOT_MISSING
    st.kinds[F] = frozenset(('other', 'type'))
    st.kinds[T] = frozenset(('type', 'other'))
    for n in ('VS', 'KS', 'WS', 'LS', 'S:a', 'S:b', 'S:c', 'S:*r', 'S:**k'):
        st.kinds[Sym(n)] = frozenset(('other',))
    st.kinds[Sym('WT')] = frozenset(('type', 'other'))


def make_self(p, I, st, c, default='none', **extra):
    prepare(st)
    fam = family(p, c)
    attrs = dict(base_attrs(default))
    if fam == 'sequence':
        attrs['value_schema'] = Sym('VS')
    elif fam == 'mapping':
        attrs['key_schema'], attrs['value_schema'] = Sym('KS'), Sym('VS')
    elif fam == 'wrapper':
        attrs['_schema'] = Sym('WS')
        attrs['_args'], attrs['_kwargs'] = Tup([one(T)]), st.new(Dct(()))
        attrs['wrapped'] = Tup([one(Sym('WT'))])
    attrs.update(extra)
    return st.new(Inst(c, tuple(attrs.items())))
