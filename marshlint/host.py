"""Objects of the standard library as constants.

The predicates that tell kinds of values and types apart ask what a value or a
type declares: its bases, origin, arguments and attributes.  Here such values
are constants of the abstract interpretation, and the library functions that
read those declarations (isinstance, get_origin, getmro, ...) are folded.  The
package's own functions and classes are interpreted as everywhere else; its
protocols are mirrored from their syntax (the names they declare)."""
import ast
import builtins
import collections.abc
import importlib
import types
import typing
from .values import *
from .values import _T
from .interp import Interp, Raise, Frame, NONE, TRUE, FALSE, mk
from .program import ClassInfo

MODULES = ('builtins', 'typing', 'collections.abc', 'collections', 'enum', 'datetime', 'types', 'dataclasses', 'numbers', 'inspect', 'abc', 'logging', 'functools', 'itertools', 'fractions', 'decimal',
           'pathlib', 'uuid', 'array', 'io', 'string', 'operator')
ALIAS = {'typing_extensions': 'typing', '_collections_abc': 'collections.abc'}
NO = object()
SKIP = {'__abstractmethods__', '__annotations__', '__dict__', '__doc__', '__init__', '__module__', '__new__', '__slots__', '__subclasshook__', '__weakref__', '__class_getitem__',
        '__parameters__', '__orig_bases__', '__orig_class__', '_is_protocol', '_is_runtime_protocol', '__protocol_attrs__', '__match_args__', '__static_attributes__', '__firstlineno__'}


class Host(_T):
    """An object of the interpreter's library (or a representative made from it)."""
    __slots__ = ('obj',)

    def __init__(self, obj):
        super().__init__(id(obj))
        self.obj = obj

    def __repr__(self):
        try:
            return f'<{self.obj!r}>'[:60]
        except Exception:
            return f'<{type(self.obj).__name__}>'


_names = {}


def resolve(name):
    """The library object of a dotted name, or NO."""
    if name in _names:
        return _names[name]
    r = NO
    for a, b in ALIAS.items():
        if name == a or name.startswith(a + '.'):
            r = resolve(b + name[len(a):])
            break
    else:
        for m in MODULES:
            if name == m:
                r = importlib.import_module(m)
                break
            if name.startswith(m + '.'):
                o = importlib.import_module(m)
                try:
                    for part in name[len(m) + 1:].split('.'):
                        o = getattr(o, part)
                    r = o
                    break
                except Exception:
                    continue
    _names[name] = r
    return r


def missing(name):
    """A name that a known module does not have."""
    m = name.rpartition('.')[0]
    m = ALIAS.get(m, m)
    return m in MODULES and resolve(name) is NO


def real(v):
    if isinstance(v, Host):
        return v.obj
    if isinstance(v, Const):
        return v.v
    if isinstance(v, ExtV):
        return resolve(v.name)
    if isinstance(v, ModV):
        return resolve(v.a[0]) if isinstance(v.a[0], str) else NO
    if isinstance(v, Tup) and v.kind == 'tuple' and all(c[0] == '1' for c in v.cells):
        xs = [real(c[1]) for c in v.cells]
        return NO if any(x is NO for x in xs) else tuple(xs)
    return NO


def wrap(o):
    if type(o) in (type(None), bool, int, float, str, bytes, complex, type(...)):
        return Const(o)
    if type(o) is tuple:
        return Tup([one(wrap(x)) for x in o])
    mod, name = getattr(o, '__module__', None), None
    for attr in ('__qualname__', '_name', '__name__'):
        try:
            name = getattr(o, attr, None)
        except Exception:
            name = None
        if isinstance(name, str) and isinstance(mod, str) and resolve(f'{mod}.{name}') is o:
            return ExtV(f'{mod}.{name}')
    return Host(o)


PURE = {id(f) for f in (isinstance, issubclass, type, hasattr, getattr, callable, len, iter, bool, tuple, repr, str, id, dir)}
PURE_MODULES = ('typing', 'inspect', 'dataclasses', 'types')


def pure(f):
    return id(f) in PURE or getattr(f, '__module__', None) in PURE_MODULES and isinstance(f, types.FunctionType)


class HostInterp(Interp):
    host = True

    def __init__(self, program, **kw):
        super().__init__(program, **kw)
        self.ext_raises, self.track_ext, self.cache = {}, set(), {}
        self.call_hook = None
        self.user_attr = lambda f: False
        self.models['marsh.MISSING'] = Const(MISSING_TEXT)

    def ext(self, name):
        return Const(MISSING_TEXT) if name == 'omegaconf.MISSING' else super().ext(name)

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name, st, fr, node=None):
        o = real(v)
        if isinstance(v, ExtV) and missing(f'{v.name}.{name}') and (o is NO or isinstance(o, types.ModuleType)):
            return [(st, self.raise_new(st, 'builtins.AttributeError', node, fr))]
        if o is not NO and (isinstance(v, Host) or not isinstance(o, types.ModuleType)) and not isinstance(v, (Const, Tup)):
            return self.fold(getattr, [o, name], st, fr, node)
        if isinstance(v, Const) and not isinstance(v.v, (str, int, float, bytes)) or isinstance(v, (Const, Tup)) and name[:2] == '__':
            return self.fold(getattr, [o, name], st, fr, node)
        if isinstance(v, ModV) and o is not NO:
            return self.fold(getattr, [o, name], st, fr, node)
        return super().getattr(v, name, st, fr, node)

    def fold(self, f, args, st, fr, node, kw={}):
        try:
            return [(st, wrap(f(*args, **kw)))]
        except RecursionError:
            raise
        except Exception as e:
            t = type(e)
            return [(st, self.raise_new(st, f'builtins.{t.__name__}' if getattr(builtins, t.__name__, None) is t else 'builtins.Exception', node, fr))]

    # ------------------------------------------------------------ calls
    def call(self, f, pos, kw, st, fr, node=None):
        g = real(f) if isinstance(f, (ExtV, Host)) else NO
        if g in (isinstance, issubclass) and len(pos) == 2 and all(c[0] == '1' for c in pos) and not kw:
            return self.typetest(g, pos[0][1], pos[1][1], pos, st, fr, node)
        if g is not NO and all(c[0] == '1' for c in list(pos) + list(kw)) and not (g is type and len(pos) != 1):
            args = [real(c[1]) for c in pos]
            kws = {c[1].v: real(c[2]) for c in kw}
            if NO not in args and NO not in kws.values() and (g in (getattr, hasattr) or not any(isinstance(x, types.ModuleType) for x in args)):
                if pure(g):
                    return self.fold(g, args, st, fr, node, kws)
                if isinstance(f, Host):
                    st.blur(f'{f!r} is called')
        return super().call(f, pos, kw, st, fr, node)

    def metaclass_of(self, info):
        """A class whose metaclass declares what the metaclass of a class of the package declares."""
        key = ('meta', info.full)
        if key not in self.cache:
            mc, ns, bases = self.metaclass(info), {}, [type]
            for c in reversed(self.p.mro(mc)) if mc is not None else ():
                if isinstance(c, ClassInfo):
                    ns.update({n: (lambda *a, **k: None) for n in c.members if n not in SKIP and n not in ('__call__', '__init_subclass__', '__getattribute__', '__instancecheck__', '__prepare__', 'mro')})
            self.cache[key] = type('Meta', (type,), ns)('Class', (), {})
        return self.cache[key]

    def typetest(self, g, v, t, pos, st, fr, node):
        o = real(v)
        if isinstance(v, ClassV) and g is isinstance and all(isinstance(ty, ExtV) and real(ty) is not NO for ty in self.flat_types(t, st)):
            o = self.metaclass_of(v.info)
        if o is NO or isinstance(o, types.ModuleType):
            return super().call(ExtV('builtins.' + g.__name__), pos, [], st, fr, node)
        for ty in self.flat_types(t, st):
            r = self.mirror(ty.info) if isinstance(ty, ClassV) else real(ty)
            if r is NO:
                if isinstance(ty, ClassV) or isinstance(ty, ExtV) and ty.name.split('.')[0] == 'omegaconf':
                    r = type('Other', (), {})        # a class none of the representatives belongs to
                else:
                    st.blur(f'{g.__name__} of {ty!r}')
                    continue
            (s, x), = self.fold(g, [o, r], st, fr, node)
            if isinstance(x, Raise) or x == TRUE:
                return [(s, x)]
            st = s
        return [(st, FALSE)]

    def mirror(self, info):
        """A protocol with the names that a protocol of the package declares."""
        key = ('mirror', info.full)
        if key not in self.cache:
            mro = [c for c in self.p.mro(info) if isinstance(c, ClassInfo)]
            r = NO
            if self.protocol(info):
                ns, ann = {}, {}
                for c in reversed(mro):
                    for n, k in c.members.items():
                        if n not in SKIP:
                            if k[0] == 'func':
                                ns[n] = lambda *a, **k: None
                            else:
                                ns[n] = None
                    for n in c.annotations:
                        if n not in SKIP:
                            ann[n] = object
                ns['__annotations__'] = ann
                r = types.new_class(info.name, (typing.Protocol,), {}, lambda d: d.update(ns))
                if any('runtime_checkable' in ast.unparse(d) for d in info.node.decorator_list):
                    r = typing.runtime_checkable(r)
            self.cache[key] = r
        return self.cache[key]

    def protocol(self, info):
        for b in info.node.bases:
            r = self.p.resolve_expr(info.module, b)
            if r and r[0] == 'ext' and r[1].rpartition('.')[2] == 'Protocol':
                return True
        return False

    # ------------------------------------------------------------ comparisons
    def same(self, a, b, st, identity=False):
        x, y = real(a), real(b)
        if x is not NO and y is not NO and not (isinstance(a, Const) and isinstance(b, Const) and not identity):
            try:
                return [(st, x is y if identity else bool(x == y))]
            except Exception:
                st.blur('comparison that raises')
                return [(st, False)]
        if (x is NO) != (y is NO):
            return [(st, False)]
        return super().same(a, b, st, identity)

    def truth(self, v, st):
        o = real(v) if isinstance(v, (Host, ExtV, Tup)) else NO
        if o is not NO:
            try:
                return [(st, bool(o))]
            except Exception:
                st.blur('truth test that raises')
                return [(st, True)]
        return super().truth(v, st)

    def contains(self, a, b, st, fr, node):
        x, y = real(a), real(b)
        if x is not NO and y is not NO:
            try:
                return [(st, x in y)]
            except Exception as e:
                return [(st, self.raise_new(st, f'builtins.{type(e).__name__}', node, fr))]
        return super().contains(a, b, st, fr, node)

    def iterate(self, v, st, fr, body, node=None):
        if isinstance(v, (Host, ExtV)):
            o = real(v)
            if isinstance(o, (list, tuple, dict, set, frozenset)) or isinstance(o, (collections.abc.KeysView, collections.abc.ItemsView, types.MappingProxyType)):
                v = Tup([one(wrap(x)) for x in o])
        return super().iterate(v, st, fr, body, node)

    def kinds(self, v, st):
        if isinstance(v, Host):
            return frozenset(('type',)) if isinstance(v.obj, type) else frozenset(('other',))
        return super().kinds(v, st)

    # ------------------------------------------------------------ tables filled at import time
    def from_resolved(self, r, modname, name, st, fr):
        if r[0] == 'ext':
            return self.ext(r[1])
        if r[0] in ('expr', 'item') and isinstance(r[2], (ast.List, ast.Dict, ast.Set)) and not (r[2].keys if isinstance(r[2], ast.Dict) else r[2].elts):
            self.fill(r[1], st, fr)
        return super().from_resolved(r, modname, name, st, fr)

    def fill(self, mod, st, fr):
        """Run the loops at the top level of a module once."""
        key = ('filled', mod.name)
        if st.globals.get(key):
            return
        st.globals[key] = TRUE
        loops = [n for n in mod.tree.body if isinstance(n, (ast.For, ast.While))]
        if not loops:
            return
        mfr = Frame(f'm:{mod.name}', None, mod, fr)
        st.frames[mfr.fid] = {}
        st.parents[mfr.fid] = None
        got = self.block(loops, st.fork(), mfr)
        if len(got) != 1 or got[0][1] is not None:
            st.blur(f'top level of {mod.name}')
            return
        s = got[0][0]
        st.heap, st.nid, st.content = s.heap, s.nid, s.content
        st.globals.update(s.globals)
        if s.taint:
            st.blur(f'top level of {mod.name}')
