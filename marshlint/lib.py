"""Library level modelling shared by the rules: element kinds, child schemas,
path helpers and error objects of the analysed package."""
from .program import Program, AnalysisBroken, ClassInfo
from .values import *
from .interp import Interp, Raise, NONE, TRUE, FALSE, mk, Frame
from .models import P, KW, arg

ERR = 'marsh.errors.MarshError'


def kind_pred(yes):
    def f(I, pos, kw, st, fr, node):
        v = pos[0][1] if pos else (kw[0][2] if kw else None)
        if v is None:
            return None
        return [(s, mk(b)) for s, b in I.split_kinds(st, v, frozenset(yes))]
    return f


def opaque(name, kinds=None):
    def f(I, pos, kw, st, fr, node):
        t = Term(name, *[c[1] for c in pos if c[0] == '1'], *[c[2] for c in kw if c[0] == '1'])
        if kinds:
            st.kinds[t] = frozenset(kinds)
        return [(st, t)]
    return f


def marsh_error(I, st, node, fr, path, what=''):
    """A library error of unknown subclass with the given path."""
    r = I.raise_new(st, I.p.get_class(ERR), node, fr, exact=False)
    st.put(r.exc, st.obj(r.exc).set('path', path).set('__what__', Const(what)))
    return r


def build_schema(I, pos, kw, st, fr, node):
    """UnmarshalSchema(type, ...): an opaque child schema, or a library error."""
    value = P(pos, 0) if pos else KW(kw, 'value')
    rest = Tup(pos[1:])
    k = Tup([c for c in kw if not (c[0] == '1' and c[1] == Const('value'))], 'kw')
    t = Term('schema', value, rest, k)
    st.event('build', value, rest, k)
    if not getattr(I, 'schema_may_fail', True):
        return [(st, t)]
    s2 = st.fork()
    s2.data = dict(s2.data)
    r = marsh_error(I, s2, node, fr, Term('buildpath', value), 'build')
    return [(st, t), (s2, r)]


def build_marshal(I, pos, kw, st, fr, node):
    value = P(pos, 0) if pos else KW(kw, 'value')
    t = Term('mschema', value)
    if not getattr(I, 'schema_may_fail', True):
        return [(st, t)]
    s2 = st.fork()
    return [(st, t), (s2, marsh_error(I, s2, node, fr, Term('mbuildpath', value), 'mbuild'))]


# methods of library objects that reject some arguments
METHOD_RAISES = {'setLevel': (ExtV('logging.getLogger'), 'builtins.ValueError')}


def call_hook(I, f, pos, kw, st, fr, node):
    """Opaque callees: schema methods, user callables, tracked external calls."""
    if isinstance(f, ExtV):
        errs = I.ext_raises.get(f.name)
        if f.name in I.track_ext or errs:
            if f.name in I.track_ext:
                st.event('ext', Const(f.name), Tup(pos), Tup(kw, 'kw'), Const(I.loc(node, fr)))
            t = I.call_term(f, pos, kw)
            out = [(st, t)]
            for e in errs or ():
                s2 = st.fork()
                out.append((s2, I.raise_new(s2, e, node, fr)))
            return out
        return None
    recv = name = None
    if isinstance(f, ExtBound) and not isinstance(f.recv, (SuperV,)):
        recv, name = f.recv, f.name
    elif isinstance(f, Term) and f.op == 'attr':
        recv, name = f.args
    if name in METHOD_RAISES and isinstance(recv, Term) and recv.op == 'call' and recv.args[0] == METHOD_RAISES[name][0]:
        s2 = st.fork()
        return [(st, Term('call', Term('attr', recv, Const(name)) if not isinstance(f, Term) else f, Tup(pos), Tup(kw, 'kw'))),
                (s2, I.raise_new(s2, METHOD_RAISES[name][1], node, fr))]
    if name == 'unmarshal':
        a = arg(pos, kw, 0, 'element')
        extra_p, extra_k = Tup(pos[1:]), Tup([c for c in kw if not (c[0] == '1' and c[1] == Const('element'))], 'kw')
        t = Term('U', recv, a) if not extra_p.cells and not extra_k.cells else Term('U', recv, a, extra_p, extra_k)
        st.event('U', recv, a)
        s2 = st.fork()
        r = marsh_error(I, s2, node, fr, Term('childpath', recv, a), 'U')
        s2.put(r.exc, s2.obj(r.exc).set('__child__', Tup([one(recv), one(a)])))
        out = [(st, t), (s2, r)]
        if getattr(I, 'child_any_exc', False):
            s3 = st.fork()
            r3 = I.raise_new(s3, 'builtins.Exception', node, fr, exact=False)
            s3.put(r3.exc, s3.obj(r3.exc).set('__user__', TRUE).set('__child__', Tup([one(recv), one(a)])))
            out.append((s3, r3))
        return out
    if name == 'marshal' and not isinstance(recv, ModV):
        t = Term('M', recv.args[0] if isinstance(recv, Term) and recv.op == 'mschema' else recv)
        st.event('M', recv)
        s2 = st.fork()
        return [(st, t), (s2, marsh_error(I, s2, node, fr, Term('mpath', recv), 'M'))]
    if name == 'has_default' and not pos and not kw and isinstance(recv, (Sym, Term)):
        return [(s, mk(b)) for s, b in I.fact(st, Term('has_default', recv))]
    if name == 'select' and isinstance(recv, (Sym, Term)):
        a = arg(pos, kw, 0, 'path')
        t = Term('SEL', recv, a)
        st.event('SEL', recv, a)
        s2 = st.fork()
        return [(st, t), (s2, marsh_error(I, s2, node, fr, Term('selpath', recv, a), 'SEL'))]
    if isinstance(f, (Sym,)) or (isinstance(f, Term) and f.op in ('item', 'usercall', 'val', 'spread', 'unpacked', 'get', 'type', 'gettype')):
        return I.user_call(f, pos, kw, st, fr, node)
    if isinstance(f, Term) and f.op == 'attr' and I.user_attr(f):
        return I.user_call(f, pos, kw, st, fr, node)
    return None


def path_prepend(I, pos, kw, st, fr, node):
    p, f, d = arg(pos, kw, 0, 'path'), arg(pos, kw, 1, 'field'), arg(pos, kw, 2, 'delimiter', Const('.'))
    t = Term('prepend', p, f)
    st.kinds[t] = frozenset(('str',))
    return [(st, t)]


def path_append(I, pos, kw, st, fr, node):
    p, f = arg(pos, kw, 0, 'path'), arg(pos, kw, 1, 'field')
    t = Term('append', p, f)
    st.kinds[t] = frozenset(('str',))
    return [(st, t)]


KIND_PREDS = {
    'marsh.utils.is_missing': {'missing'},
    'marsh.utils.is_mapping': {'mapping'},
    'marsh.utils.is_sequence': {'sequence'},
    'marsh.utils.is_primitive': {'bool', 'int', 'float', 'str', 'missing'},
}
DEFAULT_MODELS = {
    'marsh.utils.get_type_name': opaque('typename', ['str']),
    'marsh.utils.get_closest_error_message': opaque('closest', ['str']),
    'marsh.schema.core.unmarshal.UnmarshalSchema': build_schema,
    'marsh.schema.core.marshal.MarshalSchema': build_marshal,
    'marsh.path.prepend': path_prepend,
    'marsh.path.append': path_append,
    'marsh.utils.get_type': opaque('gettype'),
    'marsh.utils.is_annotated': None,
}


def make(p, budget=20.0, kinds=True, defaults=True, **flags):
    I = Interp(p, budget=budget)
    I.ext_raises, I.track_ext = {}, set()
    I.user_attr = lambda f: False
    I.call_hook = call_hook
    if kinds:
        for n, ks in KIND_PREDS.items():
            p.get_func(n)
            I.models[n] = kind_pred(ks)
    if defaults:
        for n, f in DEFAULT_MODELS.items():
            if f is not None:
                I.models[n] = f
    p_missing = Const(MISSING_TEXT)
    I.models['marsh.MISSING'] = p_missing
    for k, v in flags.items():
        setattr(I, k, v)
    return I


def drop(I, *names):
    for n in names:
        I.models.pop(n, None)
    return I
