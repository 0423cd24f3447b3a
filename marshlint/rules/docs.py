"""What schemas say about themselves: documentation (C39) and selection by path (C41)."""
import itertools
from ..scen import *
from ..interp import Raise
from .unmarshal import Runs, trace, path_fields, same_field, wrapper_classes, generic_extra, is_wrapped, contains
from . import build
from .build import structured_classes

DOC = BASE_U + '.Doc'


class DocClasses:
    """The record types documentation is made of."""

    def __init__(self, p):
        base = p.get_class(BASE_U)
        self.doc = member_class(p, base, 'Doc')
        self.field = member_class(p, self.doc, 'Field')
        self.special = member_class(p, self.doc, 'SpecialField')


def member_class(p, cls, name):
    m = p.find_member(cls, name)
    if not m or m[1][0] != 'class':
        raise AnalysisBroken(f'{cls.full}.{name} not found')
    return m[1][1]


def text(st, *args):
    t = Term(*args)
    st.kinds[t] = frozenset(('str',))
    return t


DOC_PARTS = ('doc_type', 'doc_field_type', 'doc_default', 'doc_description', 'doc_fields', 'doc_special_fields')
CHILD_TEXT = {'doc_field_type': 'DFT', 'doc_type': 'DT', 'doc_default': 'DD', 'doc_description': 'DESC', 'doc_fields': 'DFS', 'doc_special_fields': 'DSF'}


def doc_hook(p, k):
    def hook(I, f, pos, kw, st, fr, node):
        recv = name = None
        if isinstance(f, ExtBound) and not isinstance(f.recv, (SuperV,)):
            recv, name = f.recv, f.name
        elif isinstance(f, Term) and f.op == 'attr':
            recv, name = f.args
        if isinstance(recv, (Sym, Term)) and name == 'doc':
            extra = [c for c in pos[1:]] + [c for c in kw if not (c[0] == '1' and c[1] == Const('depth'))]
            depth = lib.arg(pos, kw, 0, 'depth', Const(0))
            attrs = [(n, text(st, 'child', recv, Const(n), depth)) for n in ('type', 'default', 'description', 'fields', 'special_fields')]
            st.kinds[attrs[3][1]] = frozenset(('mapping', 'none'))
            st.kinds[attrs[4][1]] = frozenset(('sequence', 'none'))
            d = st.new(Inst(k.doc, tuple(attrs) + (('__of__', recv), ('__depth__', depth)), True, 'fresh', ''))
            st.event('DOC', recv, depth)
            if extra:
                st.event('DOCX', recv, Tup(extra))
            return [(st, d)]
        if isinstance(recv, (Sym, Term)) and name in CHILD_TEXT:
            extra = pos
            t = Term(CHILD_TEXT[name], recv, *(c[1] for c in pos if c[0] == '1'))
            if name in ('doc_type', 'doc_field_type'):
                st.kinds[t] = frozenset(('str',))
            return [(st, t)]
        return lib.call_hook(I, f, pos, kw, st, fr, node)
    return hook


def doc_interp(p, k):
    R = Runs.of(p)
    I = R.interp()
    I.call_hook = doc_hook(p, k)
    I.models['marsh.utils.get_attribute_description'] = lib.opaque('attrdesc')
    I.models['marsh.utils.get_description'] = lib.opaque('typedesc')
    return I


# ------------------------------------------------------------------ C39: structured types
FIELDS = [(), ('a',), ('a', 'b'), ('b', 'a', 'c'), ('a', '*r'), ('*r', '**k'), ('a', 'b', '*r', 'c', '**k'), ('a', '**k'), ('0', '1')]
ARGS = [(None, None), (0, ()), (1, ()), (2, ()), (3, ()), (0, ('a',)), (1, ('b',)), (1, ('c',)), (0, ('c', 'x')), (2, ('c', 'x', 'y')), (0, ('x',))]


def bound_defaults(names, nargs, kws):
    """field -> ('arg', i) | ('rest', [i...]) | ('kw', name) | ('rest-kw', [names]); None when the call cannot be made."""
    out, args, kws = {}, list(range(nargs)), list(kws)
    for n in names:
        if n.startswith('**'):
            if kws:
                out[n] = ('rest-kw', kws)
            kws = []
        elif n.startswith('*'):
            if args:
                out[n] = ('rest', args)
            args = []
        elif n in kws:
            # taken by position as well: a call nobody can make
            if args:
                return None
            out[n] = ('kw', n)
            kws.remove(n)
        elif args:
            out[n] = ('arg', args.pop(0))
    return None if args or kws else out


def arg_value(i):
    return Sym(f'P{i}')


def kw_value(n):
    return Sym(f'K:{n}')


def shown(v, want, st):
    """Is v the text of the wanted default(s)?"""
    if not isinstance(v, Term) or v.op not in ('str', 'fstr', 'format') or len(v.args) != 1:
        return False
    x = v.args[0]
    if want[0] == 'arg':
        return x == arg_value(want[1])
    if want[0] == 'kw':
        return x == kw_value(want[1])
    got = contents(x, st)
    if want[0] == 'rest':
        return got == [arg_value(i) for i in want[1]]
    return got == [(Const(n), kw_value(n)) for n in want[1]]


def contents(x, st):
    o = st.heap.get(x.id) if isinstance(x, Ref) else x
    if isinstance(o, (Lst, Tup)):
        return [c[1] if c[0] == '1' else None for c in o.cells]
    if isinstance(o, Dct):
        return [(c[1], c[2]) if c[0] == '1' else None for c in o.cells]
    return None


def structured_doc(c, k):
    p = c.p
    R = Runs.of(p)
    for cls in doc_classes(p):
        f = method(p, cls, 'doc')
        for names in FIELDS:
            for depth in (-1, 0, 1, 2, 5):
                for nargs, kws in ARGS:
                    if (nargs is not None) and depth not in (1, 2):
                        continue
                    want = bound_defaults(names, nargs or 0, kws or ())
                    if want is None:
                        continue
                    sc = c.use(R.get(('doc', cls.full, names, depth, nargs, tuple(kws or ()) if kws is not None else None),
                                     lambda: run_doc(p, cls, f, k, names, depth, nargs, kws)))
                    for o in sc.decided():
                        judge_doc(c, k, sc, o, f, names, depth, want)


def doc_classes(p):
    """Structured schema types that document themselves in their own way, one of each."""
    seen, out = set(), []
    for c, fam in structured_classes(p):
        key = tuple(p.find_member(c, n)[1][1].full if p.find_member(c, n) else '' for n in ('doc', 'doc_fields', 'validate_defaults'))
        if key not in seen:
            seen.add(key)
            out.append(c)
    return out


def run_doc(p, cls, f, k, names, depth, nargs, kws):
    I = doc_interp(p, k)
    for n in ('doc_type', 'doc_default', 'doc_description', 'doc_special_fields'):      # decided on their own
        m = p.find_member(cls, n)
        if m and m[1][0] == 'func':
            I.models[m[1][1].full] = part_model(n)
    st = State()
    d = Dct(tuple(kv(Const(n), Sym('S:' + n)) for n in names))
    me = make_self(p, I, st, cls, 'none', schemas=st.new(d))
    for n in names:
        st.kinds[Sym('S:' + n)] = frozenset(('other',))
    kw = []
    if nargs is not None:
        kw.append(('default_args', Tup([one(arg_value(i)) for i in range(nargs)])))
        kw.append(('default_kwargs', st.new(Dct(tuple(kv(Const(n), kw_value(n)) for n in kws)))))
    name = f'{cls.full}.doc(depth={depth}' + ('' if nargs is None else f', {nargs} positional, {list(kws)} by name') + f') [{", ".join(names) or "no fields"}]'
    return execute(I, name, st, FuncV(f), [one(me), one(Const(depth))], kw, info=f)


def judge_doc(c, k, sc, o, f, names, depth, want):
    if not o.ok:
        c.ob('never-fails', False, o.origin(), f'{sc.name}: raises {o.cls_name()}', trace(o))
        return
    d = o.st.heap.get(o.value.id) if isinstance(o.value, Ref) else None
    if not c.ob('record', isinstance(d, Inst) and d.cls is k.doc, f.where, f'{sc.name} gives {o.value!r}, not a documentation record', trace(o)):
        return
    fields = d.get('fields')
    if depth <= 0:
        got = contents(fields, o.st) if fields not in (None, NONE) else []
        c.ob('depth', not got, f.where, f'{sc.name}: fields are documented although none were asked for', trace(o))
        return
    got = contents(fields, o.st)
    if got is None and fields is not None and isinstance(fields, (Sym, Term)):
        return
    keys = [x[0] if x else None for x in got or []]
    if not c.ob('every-field', keys == [Const(n) for n in names], f.where, f'{sc.name}: the fields {list(names)} are documented as {keys!r}', trace(o)):
        return
    for n, (_, v) in zip(names, got):
        s = Sym('S:' + n)
        e = o.st.heap.get(v.id) if isinstance(v, Ref) else None
        if not c.ob('record', isinstance(e, Inst) and e.cls is k.field, f.where, f'{sc.name}: {n!r} is documented by {v!r}', trace(o)):
            continue
        c.ob('field-type', e.get('type') == Term('DFT', s), f.where, f'{sc.name}: the type of {n!r} is shown as {e.get("type")!r}', trace(o))
        de = e.get('description')
        ok = isinstance(de, Term) and de.op == 'attrdesc' and de.args[0] == T and de.args[1] == Const(n.lstrip('*'))
        c.ob('field-description', ok, f.where, f'{sc.name}: the description of {n!r} is {de!r}', trace(o))
        ref = e.get('doc')
        x = o.st.heap.get(ref.id) if isinstance(ref, Ref) else None
        ok = isinstance(x, Inst) and x.get('__of__') == s and x.get('__depth__') == Const(depth - 1)
        if not c.ob('nested', ok, f.where, f'{sc.name}: {n!r} is documented by {x and x.get("__of__")!r} at depth {x and x.get("__depth__")!r}, not by its own schema one level down', trace(o)):
            continue
        for a in ('type', 'description', 'fields', 'special_fields'):
            ok = x.get(a) == Term('child', s, Const(a), Const(depth - 1))
            c.ob('nested', ok, f.where, f'{sc.name}: the {a} in the documentation of {n!r} is {x.get(a)!r}', trace(o))
        dv = x.get('default')
        if n in want:
            c.ob('field-default', shown(dv, want[n], o.st), f.where, f'{sc.name}: the default of {n!r} is shown as {dv!r}, the call gives {want[n]}', trace(o))
        else:
            c.ob('field-default', dv == Term('child', s, Const('default'), Const(depth - 1)), f.where, f'{sc.name}: the default of {n!r} is shown as {dv!r}, not as its own schema does', trace(o))


# ------------------------------------------------------------------ C39: every schema
def all_classes(p):
    """Every schema type, once per way of documenting itself."""
    seen, out = set(), []
    for cls in unmarshal_classes(p) + [p.get_class(BASE_U)]:
        ms = tuple(p.find_member(cls, n) for n in ('doc',) + DOC_PARTS)
        key = (tuple(m[1][1].full if m and m[1][0] == 'func' else '' for m in ms), family(p, cls))
        if key in seen:
            continue
        seen.add(key)
        out.append(cls)
    return out


def self_state(p, I, cls, default):
    st = State()
    extra = generic_extra(p, cls)(st)
    me = make_self(p, I, st, cls, default, **extra)
    st.facts[Term('is_optional', T)] = False
    for n in ('0', 'a', 'b', 'c'):
        st.kinds[Sym('S:' + n)] = frozenset(('other',))
    return st, me


def marshal_default(I, pos, kw, st, fr, node):
    """marsh.marshal(value): its plain form, or any error of the hooks that make it."""
    v = lib.arg(pos, kw, 0, 'value')
    s2 = st.fork()
    t = Term('marshaled', v)
    st.kinds[t] = frozenset(('str', 'int', 'mapping'))
    return [(st, t), (s2, I.raise_new(s2, 'builtins.Exception', node, fr))]


def plain_text(v, x):
    """Is v str(x) (or x where x is text already)?"""
    return v == x or (isinstance(v, Term) and v.op in ('str', 'fstr', 'format') and v.args[:1] == (x,) and len(v.args) == 1)


def call_self(p, I, cls, name, default, *args):
    st, me = self_state(p, I, cls, default)
    m = p.find_member(cls, name)
    if not m or m[1][0] != 'func':
        raise AnalysisBroken(f'{cls.full}.{name} not found')
    f = m[1][1]
    sc = execute(I, f'{cls.full}.{name}({", ".join(map(repr, args))}) [default: {default}]', st, FuncV(f), [one(me)] + [one(a) for a in args], info=f)
    sc.me = me
    return sc


def default_texts(c, k):
    """doc_default of every type that decides it itself."""
    p = c.p
    for cls in all_classes(p):
        if is_wrapper(p, cls):
            continue
        for d in DEFAULTS:
            I = doc_interp(p, k)
            I.models['marsh._functional.marshal'] = marshal_default
            sc = c.use(call_self(p, I, cls, 'doc_default', d))
            f = sc.info
            given = DEFAULTS[d]
            for o in sc.decided():
                if not o.ok:
                    c.ob('never-fails', False, o.origin(), f'{sc.name}: raises {o.cls_name()}', trace(o))
                elif d == 'none':
                    c.ob('default-text', o.value == NONE, f.where, f'{sc.name}: {o.value!r} is shown as the default of a type without one', trace(o))
                elif d == 'factory':
                    ok = isinstance(o.value, Const) and isinstance(o.value.v, str) and o.value.v and not mentions(o.value, given[1])
                    c.ob('default-text', ok, f.where, f'{sc.name}: a default made by a factory is shown as {o.value!r}', trace(o))
                    c.ob('factory-unused', not any(e[0] == 'usercall' and e[1] == given[1] for e in flat(o)), f.where, f'{sc.name}: the factory is called for a text', trace(o))
                else:
                    ok = plain_text(o.value, Term('marshaled', given[0])) or plain_text(o.value, given[0])
                    c.ob('default-text', ok, f.where, f'{sc.name}: the default {given[0]!r} is shown as {o.value!r}', trace(o))


def flat(o):
    from .unmarshal import flat_events
    try:
        return list(flat_events(o))
    except TypeError:
        return []


def mentions(v, x):
    return v == x or (isinstance(v, (Term, Tup)) and contains(v, (x,), State()))


def is_wrapper(p, cls):
    return cls in wrapper_classes(p)


def record_parts(c, k):
    """doc() puts every part into its own place."""
    p = c.p
    for cls in all_classes(p):
        if is_wrapper(p, cls):
            continue
        m = p.find_member(cls, 'doc')[1][1]
        for depth in (0, 1, 3):
            I = doc_interp(p, k)
            parts = {}
            for n in DOC_PARTS:
                g = p.find_member(cls, n)
                if g and g[1][0] == 'func':
                    # structured types are asked for their fields elsewhere
                    parts[n] = g[1][1]
                    I.models[g[1][1].full] = part_model(n)
            sc = c.use(call_self(p, I, cls, 'doc', 'none', Const(depth)))
            for o in sc.decided():
                if not c.ob('never-fails', o.ok, o.origin() if not o.ok else m.where, f'{sc.name}: raises {o.cls_name() if not o.ok else ""}', trace(o)):
                    continue
                d = o.st.heap.get(o.value.id) if isinstance(o.value, Ref) else None
                if not c.ob('record', isinstance(d, Inst) and d.cls is k.doc, m.where, f'{sc.name} gives {o.value!r}, not a documentation record', trace(o)):
                    continue
                for n in ('doc_type', 'doc_default', 'doc_description', 'doc_special_fields', 'doc_fields'):
                    v = d.get(n[4:])
                    ok = isinstance(v, Term) and v.op == 'part' and v.args[0] == Const(n)
                    c.ob('record', ok, m.where, f'{sc.name}: the {n[4:]} in the record is {v!r}', trace(o))
                    if ok and n == 'doc_fields':
                        c.ob('depth', v.args[1] == Const(depth), m.where, f'{sc.name}: the fields are asked for at depth {v.args[1]!r}', trace(o))


def part_model(n):
    def f(I, pos, kw, st, fr, node):
        rest = [c[1] for c in pos[1:]] + [c[2] for c in kw if c[1] == Const('depth')]
        t = Term('part', Const(n), *rest[:1])
        return [(st, t)]
    return f


def shown_types(c, k):
    """The types a type is made of appear in the text that shows it."""
    p = c.p
    for cls in all_classes(p):
        if is_wrapper(p, cls):
            continue
        for n in ('doc_type', 'doc_field_type', 'doc_description'):
            I = doc_interp(p, k)
            sc = c.use(call_self(p, I, cls, n, 'none'))
            f = sc.info
            for o in sc.decided():
                if not o.ok:
                    if o.exc.get('__user__') is None and o.cls_name() != 'builtins.AttributeError':
                        c.ob('never-fails', False, o.origin(), f'{sc.name}: raises {o.cls_name()}', trace(o))
                    continue
                c.ob('never-fails', True, f.where, '')
                if n == 'doc_description':
                    continue
                c.ob('type-text', o.value not in (NONE, Const('')), f.where, f'{sc.name} gives {o.value!r}', trace(o))
                if n != 'doc_field_type' or f.full.startswith(BASE_U + '.'):
                    continue
                fam = family(p, cls)
                me = o.st.obj(sc.me)
                parts = {'sequence': [Sym('VS')], 'mapping': [Sym('KS'), Sym('VS')]}.get(fam, [])
                if fam == 'union' or (fam == 'structured' and build.family_of(p, cls) == 'tuple'):
                    cont = I.container(me.get('schemas'), o.st)
                    parts = [x[-1] for x in cont.cells] if cont else []
                got = order_of(o.value, [Term('DFT', s) for s in parts], o.st)
                if got is not None:
                    c.ob('parts-shown', got == [Term('DFT', s) for s in parts], f.where, f'{sc.name}: the types {parts!r} are shown as {o.value!r}', trace(o))


def order_of(v, parts, st):
    """The parts in the order in which the text names them; None for a text of unknown make."""
    out = []

    def walk(x):
        if x in parts:
            out.append(x)
        elif isinstance(x, (Term, tuple)):
            for a in x.args if isinstance(x, Term) else x:
                walk(a)
        elif isinstance(x, Tup):
            for c in x.cells:
                for a in c[1:]:
                    walk(a)
        elif isinstance(x, Ref):
            o = st.heap.get(x.id)
            if isinstance(o, (Lst, Tup, Dct)):
                for c in o.cells:
                    for a in c[1:]:
                        walk(a)
    walk(v)
    return out


# ------------------------------------------------------------------ C39: types that stand for another
def delegating(c, k):
    p = c.p
    for cls in wrapper_classes(p):
        recursive = cls.full == S + 'core.unmarshal.RecursiveReferenceUnmarshalSchema'
        if cls.full == NSU_:
            continue
        for n in ('doc',) + DOC_PARTS:
            for depth in ((0, 2) if n in ('doc', 'doc_fields') else (None,)):
                m = p.find_member(cls, n)
                if not m or m[1][0] != 'func' or (recursive and n == 'doc'):
                    continue
                I = doc_interp(p, k)
                args = [] if depth is None else [Const(depth)]
                sc = c.use(call_self(p, I, cls, n, 'none', *args))
                for o in sc.decided():
                    if not o.ok:
                        c.ob('delegates', o.exc.has('__user__') or o.exc.get('__what__') == Const('build') or o.cls_name() == 'builtins.AttributeError', o.origin(), f'{sc.name}: raises {o.cls_name()}', trace(o))
                        continue
                    v = o.value
                    if n == 'doc':
                        d = o.st.heap.get(v.id) if isinstance(v, Ref) else None
                        ok = isinstance(d, Inst) and is_wrapped(d.get('__of__')) and d.get('__depth__') == Const(depth)
                        ok = ok and all(d.get(a) == Term('child', d.get('__of__'), Const(a), Const(depth)) for a in ('type', 'default', 'description', 'fields', 'special_fields'))
                    else:
                        ok = isinstance(v, Term) and v.op == CHILD_TEXT[n] and is_wrapped(v.args[0]) and v.args[1:] == tuple(args)
                    c.ob('delegates', ok, sc.info.where, f'{sc.name} gives {v!r}, not what the wrapped schema says', trace(o))


NSU_ = S + 'types.namespace.NamespaceUnmarshalSchema'
RECURSIVE = S + 'core.unmarshal.RecursiveReferenceUnmarshalSchema'


def recursive_doc(c, k):
    """A type inside itself: named, not expanded again."""
    p = c.p
    cls = p.get_class(RECURSIVE)
    f = method(p, cls, 'doc')
    for depth in (0, 1, 3):
        I = doc_interp(p, k)
        sc = c.use(call_self(p, I, cls, 'doc', 'none', Const(depth)))
        for o in sc.decided():
            if not o.ok:
                c.ob('never-fails', o.exc.has('__user__') or o.cls_name() == 'builtins.AttributeError', o.origin(), f'{sc.name}: raises {o.cls_name()}', trace(o))
                continue
            d = o.st.heap.get(o.value.id) if isinstance(o.value, Ref) else None
            if not c.ob('record', isinstance(d, Inst) and d.cls is k.doc, f.where, f'{sc.name} gives {o.value!r}', trace(o)):
                continue
            for a, op in (('type', 'DT'), ('default', 'DD'), ('description', 'DESC')):
                v = d.get(a)
                ok = isinstance(v, Term) and ((v.op == op and is_wrapped(v.args[0])) or (v.op == 'child' and v.args[1] == Const(a)))
                c.ob('recursive', ok, f.where, f'{sc.name}: the {a} of a type inside itself is {v!r}', trace(o))
            ev = [e for e in o.st.events if e[0] in ('DOC',)]
            ok = d.get('fields') in (None, NONE) or contents(d.get('fields'), o.st) == []
            c.ob('recursive', ok, f.where, f'{sc.name}: the fields of a type inside itself are listed again', trace(o))


def namespace_doc(c, k):
    """A namespaced type lists the names it can be given."""
    from .registry import World, WORLDS, schema_of, subclass, comp as comp_, hook as ns_hook
    p = c.p
    cls = p.get_class(NSU_)
    f = method(p, cls, 'doc')
    mine = doc_hook(p, k)
    for spaces, depth, fits in itertools.product(WORLDS, (0, 2), (lambda x: True, lambda x: x == 'C2', lambda x: False)):
        w = World(p, spaces)
        for x in spaces:
            for n in x.values():
                w.st.facts[Term('issubclass', comp_(n), T)] = fits(n)
        me = make_self(p, w.I, w.st, cls)
        w.st.kinds[T] = frozenset(('type',))
        inner = w.I.models[BASE_U]

        def hook(I, f, pos, kw, st, fr, node):
            return mine(I, f, pos, kw, st, fr, node) if doc_call(f) else ns_hook(I, f, pos, kw, st, fr, node)
        w.I.call_hook = hook
        w.I.models['marsh.utils.get_description'] = lib.opaque('typedesc')
        sc = c.use(execute(w.I, f'{cls.name}.doc({depth}) [{w!r}]', w.st, FuncV(f), [me, Const(depth)], info=f))
        for o in sc.decided():
            if not o.ok:
                c.ob('never-fails', False, o.origin(), f'{sc.name}: raises {o.cls_name()}', trace(o))
                continue
            d = o.st.heap.get(o.value.id) if isinstance(o.value, Ref) else None
            if not c.ob('record', isinstance(d, Inst) and d.cls is k.doc, f.where, f'{sc.name} gives {o.value!r}', trace(o)):
                continue
            for a in ('type', 'default', 'description', 'fields'):
                v = d.get(a)
                ok = v == Term('child', Sym('WS'), Const(a), Const(depth)) or (isinstance(v, Term) and v.op == {'type': 'DT', 'default': 'DD', 'description': 'DESC', 'fields': 'DFS'}[a] and v.args[0] == Sym('WS'))
                c.ob('delegates', ok, f.where, f'{sc.name}: the {a} is {v!r}, not the one of the wrapped schema', trace(o))
            named = names_of(cells_of(d.get('special_fields'), o.st), o.st, k)
            for n, comp in w.all():
                s = subclass(o.st, comp, T)
                if s:
                    c.ob('names-listed', named is None or any(mention(x, n) for x in named), f.where, f'{sc.name}: the registered name {n!r} is not listed ({d.get("special_fields")!r})', trace(o))
                elif s is False and sum(x == n for x, _ in w.all()) == 1:
                    c.ob('names-listed', named is None or not any(mention(x, n) for x in named), f.where, f'{sc.name}: the name {n!r} of an unrelated type is listed', trace(o))


def doc_call(f):
    if isinstance(f, ExtBound):
        return f.name in CHILD_TEXT or f.name == 'doc'
    return isinstance(f, Term) and f.op == 'attr' and (f.args[1] in CHILD_TEXT or f.args[1] == 'doc')


def cells_of(v, st):
    o = st.heap.get(v.id) if isinstance(v, Ref) else v
    return o.cells if isinstance(o, (Lst, Tup)) else ()


def names_of(cells, st, k):
    """The texts of the special fields besides those of the wrapped schema; None when one of them is of unknown make."""
    out = []
    for x in cells:
        v = x[1]
        o = st.heap.get(v.id) if isinstance(v, Ref) else None
        if isinstance(o, Inst) and o.cls is k.special:
            out.append(o.get('value'))
        elif not any(contains(a, (Sym('WS'),), st) for a in x[1:]):
            return None
    return out


def mention(v, n):
    """Does the text contain the name?"""
    if isinstance(v, Const):
        return isinstance(v.v, str) and n in v.v
    if isinstance(v, Term):
        return any(mention(a, n) for a in v.args)
    return False


# ------------------------------------------------------------------ C39: as text
FMT = 'marsh.doc.terminal.'
TREES = [(), (('a', ()),), (('a', ()), ('b', ())), (('a', (('x', ()), ('y', ()))), ('b', ())), (('b', (('x', (('z', ()),)),)), ('a', (('x', ()),)))]


def doc_tree(st, k, tree, path=(), special=0):
    """A documentation record with these fields, every part an unknown text or nothing."""
    at = '.'.join(path)
    fields = []
    for n, sub in tree:
        q = '.'.join(path + (n,))
        d = doc_tree(st, k, sub, path + (n,), special)
        fields.append(kv(Const(n), st.new(Inst(k.field, (('doc', d), ('type', part(st, 'type', q)), ('description', part(st, 'description', q)))))))
    sp = [one(st.new(Inst(k.special, (('value', part(st, 'special', f'{at}#{i}', ('str',))), ('description', part(st, 'sdesc', f'{at}#{i}')))))) for i in range(special)]
    attrs = (('type', part(st, 'owntype', at)), ('default', part(st, 'default', at)), ('description', part(st, 'owndesc', at)),
             ('fields', st.new(Dct(tuple(fields))) if fields else NONE), ('special_fields', st.new(Lst(tuple(sp), 'list')) if sp else NONE))
    return st.new(Inst(k.doc, attrs))


def part(st, what, q, kinds=('str', 'none')):
    x = Sym(f'{what}:{q}')
    st.kinds[x] = frozenset(kinds)
    return x


def line_model(I, pos, kw, st, fr, node):
    v, d = lib.arg(pos, kw, 0, 'value'), lib.arg(pos, kw, 2, 'description', NONE)
    t = Term('line', v, d)
    st.kinds[t] = frozenset(('str',))
    st.facts[Term('truth', t)] = True
    return [(st, t)]


def expected_lines(tree, depth, special, path=()):
    if depth <= 0:
        return
    for n, sub in tree:
        q = path + (n,)
        yield 'field', '.'.join(q), n, q
        yield from expected_lines(sub, depth - 1, special, q)
    for i in range(special):
        yield 'special', f'{".".join(path)}#{i}', None, path


def as_text(c, k):
    p = c.p
    f = p.get_func(FMT + 'format_unmarshal_fields')
    for tree, depth, special, prefix in itertools.product(TREES, (0, 1, 2, 3), (0, 2), ('', 'p')):
        if special and (len(tree) > 1 or prefix):
            continue
        I = doc_interp(p, k)
        I.models[p.get_func(FMT + 'format_terminal_value').full] = line_model
        I.rec_limit = 6
        st = State()
        prepare(st)
        src = doc_tree(st, k, tree, (), special)
        sc = c.use(execute(I, f'{f.full} [{tree!r}, {special} special, depth {depth}, below {prefix!r}]', st, FuncV(f), [], [('prefix_path', Const(prefix)), ('source', src), ('depth', Const(depth)), ('width', Const(80))], info=f))
        want = list(expected_lines(tree, depth, special))
        for o in sc.decided():
            if not c.ob('never-fails', o.ok, o.origin() if not o.ok else f.where, f'{sc.name}: raises {o.cls_name() if not o.ok else ""}', trace(o)):
                continue
            got = lines_of(o.value, o.st)
            if got is None:
                continue
            ok = len(got) == len(want) and all(fits_line(g, w, o.st, prefix) for g, w in zip(got, want))
            c.ob('all-lines', ok, f.where, f'{sc.name}: expected lines for {[w[1] for w in want]}, got {got!r}', trace(o))


def lines_of(v, st):
    out = []

    def walk(x):
        if isinstance(x, Term):
            if x.op == 'line':
                out.append(x)
                return
            if x.op == 'call' and isinstance(x.args[0], FuncV):
                out.append(None)            # not followed
                return
            for a in x.args:
                walk(a)
        elif isinstance(x, (Tup, Lst, Dct)):
            for c in x.cells:
                for a in c[1:]:
                    walk(a)
        elif isinstance(x, Ref) and x.id in st.heap:
            walk(st.heap[x.id])
    walk(v)
    return None if None in out else out


def shows(v, x, st):
    return contains(v, (x,), st) or v == x


def joined(v, top=True):
    """The parts of every path put together in a text."""
    if isinstance(v, Term) and v.op == 'append' and len(v.args) == 2:
        return [joined_parts(v)]
    out = []
    for a in v.args if isinstance(v, Term) else v if isinstance(v, tuple) else ():
        out += joined(a)
    return out


def joined_parts(v):
    if isinstance(v, Term) and v.op == 'append' and len(v.args) == 2:
        return joined_parts(v.args[0]) + joined_parts(v.args[1])
    return [] if v == Const('') else [v]


def fits_line(g, w, st, prefix=''):
    kind, q, name, path = w
    value, desc = g.args
    if kind == 'special':
        return shows(value, Sym('special:' + q), st) and desc == Sym('sdesc:' + q)
    if desc != Sym('description:' + q):
        return False
    for what in ('type', 'default'):
        x = Sym(f'{what}:{q}')
        has = shows(value, x, st)
        t = st.facts.get(Term('truth', x))
        if t is True and not has:
            return False
    paths = joined(value)
    if len(paths) == 1:
        return paths[0] == [Const(n) for n in ((prefix,) if prefix else ()) + path]
    return all(mention(value, n) for n in path)


def wrap_model(I, pos, kw, st, fr, node):
    v = lib.arg(pos, kw, 0, 'text')
    return [(st, st.new(Lst((one(text(st, 'wrapped', v)),), 'list')))]


def fill_model(I, pos, kw, st, fr, node):
    return [(st, text(st, 'filled', lib.arg(pos, kw, 0, 'text')))]


def value_line(c, k):
    """One entry: its text, then its description."""
    p = c.p
    f = p.get_func(FMT + 'format_terminal_value')
    V, DE = Sym('VALUE'), Sym('DESCRIPTION')
    for width, given in itertools.product((None, 1, 30, 80), (True, False)):
        I = doc_interp(p, k)
        I.text_slices = True        # only ever a part of the margin
        I.models['marsh.utils.get_terminal_width'] = lambda I, pos, kw, st, fr, node: [(st, Const(78))]
        I.ext_models['textwrap.wrap'] = wrap_model
        I.ext_models['textwrap.fill'] = fill_model
        st = State()
        prepare(st)
        st.kinds[V] = st.kinds[DE] = frozenset(('str',))
        st.facts[Term('truth', V)] = st.facts[Term('truth', DE)] = True
        kw = [('value', V)] + ([('description', DE)] if given else []) + ([('width', Const(width))] if width else [])
        sc = c.use(execute(I, f'{f.full} [width {width}{", described" if given else ""}]', st, FuncV(f), [], kw, info=f))
        for o in sc.decided():
            if not c.ob('never-fails', o.ok, o.origin() if not o.ok else f.where, f'{sc.name}: raises {o.cls_name() if not o.ok else ""}', trace(o)):
                continue
            got = order_of(o.value, [V, DE], o.st)
            c.ob('all-lines', V in got and (DE in got) == given and (not given or got.index(V) < got.index(DE)), f.where, f'{sc.name} gives {o.value!r}', trace(o))


def help_text(c, k):
    """The help of a type: its name, its description, its fields."""
    p = c.p
    f = p.get_func(FMT + 'format_unmarshal_help')
    fields = p.get_func(FMT + 'format_unmarshal_fields')
    OT, OD, FS = Sym('owntype:'), Sym('owndesc:'), Sym('FIELDS')
    for omit_t, omit_d, depth in itertools.product((False, True), (False, True), (0, 2)):
        I = doc_interp(p, k)

        def model(I, pos, kw, st, fr, node):
            st.event('FIELDS', lib.arg(pos, kw, 0, 'source'), lib.arg(pos, kw, 3, 'depth', Const(1)))
            return [(st, FS)]
        I.models[fields.full] = model
        st = State()
        prepare(st)
        st.kinds[FS] = frozenset(('str',))
        src = doc_tree(st, k, (('a', ()),))
        kw = [('source', src), ('depth', Const(depth))] + ([('omit_type', TRUE)] if omit_t else []) + ([('omit_description', TRUE)] if omit_d else [])
        sc = c.use(execute(I, f'{f.full} [omit_type={omit_t}, omit_description={omit_d}, depth {depth}]', st, FuncV(f), [], kw, info=f))
        for o in sc.decided():
            if not c.ob('never-fails', o.ok, o.origin() if not o.ok else f.where, f'{sc.name}: raises {o.cls_name() if not o.ok else ""}', trace(o)):
                continue
            want = [x for x, omit in ((OT, omit_t), (OD, omit_d), (FS, False)) if not omit and o.st.facts.get(Term('truth', x)) is not False
                    and not o.st.kinds.get(x, frozenset(('str',))) <= {'none'}]
            got = order_of(o.value, [OT, OD, FS], o.st)
            c.ob('all-lines', got == want, f.where, f'{sc.name} gives {o.value!r}, expected {want!r}', trace(o))
            ev = [e for e in o.st.events if e[0] == 'FIELDS']
            c.ob('all-lines', any(e[1] == src and e[2] == Const(depth) for e in ev), f.where, f'{sc.name}: the fields are asked for as {ev!r}', trace(o))


def source_forms(c, k):
    """A record is taken as it is, a schema is asked, a type gets a schema first."""
    p = c.p
    f = p.get_func('marsh.doc.common.get_unmarshal_doc')
    base = p.get_class(BASE_U)
    SRC, N = Sym('SOURCE'), Sym('DEPTH')
    for form in ('record', 'schema', 'type', 'unusual type'):
        I = doc_interp(p, k)
        st = State()
        prepare(st)
        st.kinds[SRC] = frozenset(('type',)) if 'type' in form else frozenset(('other',))
        st.kinds[N] = frozenset(('int',))
        I.models[BASE_U] = lib.build_schema
        I.schema_may_fail = False
        for cls, yes in ((k.doc, form == 'record'), (base, form == 'schema')):
            st.facts[Term('isinstance', SRC, ClassV(cls))] = yes
        sc = c.use(execute(I, f'{f.full} [{form}]', st, FuncV(f), [], [('source', SRC), ('depth', N)], info=f))
        for o in sc.decided():
            if not c.ob('never-fails', o.ok, o.origin() if not o.ok else f.where, f'{sc.name}: raises {o.cls_name() if not o.ok else ""}', trace(o)):
                continue
            if form == 'record':
                ok = o.value == SRC
            else:
                d = o.st.heap.get(o.value.id) if isinstance(o.value, Ref) else None
                of = d.get('__of__') if isinstance(d, Inst) else None
                ok = of is not None and d.get('__depth__') == N and (of == SRC if form == 'schema' else isinstance(of, Term) and of.op == 'schema' and of.args[0] == SRC)
            c.ob('delegates', ok, f.where, f'{sc.name} gives {o.value!r}', trace(o))


TRACKED = ('docstring_parser.parse', 'inspect.getsource', 'ast.parse', 'inspect.getmro', 'inspect.cleandoc')


def descriptions(c, k):
    """Docstrings nobody can read do no harm."""
    p = c.p
    DOCSTR = Sym('DOCSTRING')
    for name, args in (('extract_description', [DOCSTR]), ('get_description', [T]), ('get_attribute_description', [T, Const('a')])):
        f = p.get_func('marsh.utils.' + name)
        for fails in (True, False):
            I = Runs.of(p).interp(budget=4)
            I.ext_raises = {n: ['builtins.Exception'] for n in TRACKED} if fails else {}
            st = State()
            prepare(st)
            st.kinds[DOCSTR] = frozenset(('str',))
            st.facts[Term('truth', DOCSTR)] = True
            sc = c.use(execute(I, f'{f.full} [{"unreadable docstrings" if fails else "any docstring"}]', st, FuncV(f), args, info=f))
            for o in sc.decided():
                c.ob('never-fails', o.ok, o.origin() if not o.ok else f.where, f'{sc.name}: raises {o.cls_name() if not o.ok else ""}', trace(o))
                if o.ok and name == 'extract_description' and fails and not any(isinstance(x, Term) for x in [o.value]):
                    c.ob('description', o.value not in (NONE, Const('')), f.where, f'{sc.name}: a docstring gives {o.value!r}', trace(o))


def c39(c):
    k = DocClasses(c.p)
    c.rule('never-fails', 'Asking for documentation raises nothing.')
    c.rule('record', 'Documentation is given as the documented record types, every part in its own place.')
    c.rule('depth', 'No fields are documented below the requested depth.')
    c.rule('every-field', 'Every field is documented once, under its name, in declaration order.')
    c.rule('field-type', 'A field shows the type its own schema shows.')
    c.rule('field-description', 'A field shows the description of the attribute of that name.')
    c.rule('nested', 'A field is documented by its own schema, one level down.')
    c.rule('field-default', 'A field shows the default it takes: the argument of the call when there is one, else the default of its schema.')
    c.rule('default-text', 'A default is shown as the text of its marshaled form (or of itself when that fails), a default made by a factory as a fixed text, no default as nothing.')
    c.rule('factory-unused', 'Documenting a default calls no factory.')
    c.rule('type-text', 'Every type is shown by some text.')
    c.rule('parts-shown', 'The text of a collection, tuple or union names the types it is made of, all of them, in order.')
    c.rule('delegates', 'A type that stands for another is documented as the other one is.')
    c.rule('recursive', 'A type inside itself is named and not expanded again.')
    c.rule('names-listed', 'A namespaced type lists the names registered for its subclasses and no others.')
    structured_doc(c, k)
    default_texts(c, k)
    record_parts(c, k)
    shown_types(c, k)
    delegating(c, k)
    recursive_doc(c, k)
    namespace_doc(c, k)
    c.rule('description', 'A docstring that can not be parsed is shown as it is.')
    c.rule('all-lines', 'The help text has one entry for every documented field down to the depth, in order, with path, type, default and description, and for every special field.')
    as_text(c, k)
    value_line(c, k)
    source_forms(c, k)
    descriptions(c, k)
    help_text(c, k)
    c.explain('The documentation methods of every schema type, structured types with 0-5 fields at depths -1..5 and with arguments given in the call.')


# ------------------------------------------------------------------ C41
SELECT_FIELDS = [('a',), ('a', 'b'), ('b', '*r', '**k'), ('aa', 'a'), ('0', '1', '10'), ()]
PATHS = [('', None, ''), ('.', None, ''), ('a', 'a', ''), ('a.x', 'a', 'x'), ('.a.x.y', 'a', 'x.y'), ('r', 'r', ''), ('*r.x', 'r', 'x'), ('k.x', 'k', 'x'), ('aa', 'aa', ''), ('zz', 'zz', ''), ('zz.a', 'zz', 'a'),
         ('1', '1', ''), ('10.x', '10', 'x'), ('"a".x', 'a', 'x'), ("'a", 'malformed', ''), ('b.a', 'b', 'a'), ('x.a', 'x', 'a')]


def selected(sc, o, s, rest, me, c, f, tell):
    """The result is what the schema s selects for the rest of the path."""
    want = Term('SEL', s, Const(rest))
    if o.ok:
        c.ob('selects', o.value == want or (rest == '' and o.value == s), f.where, f'{sc.name} gives {o.value!r}, expected {want!r}', trace(o))
    else:
        base, fields = path_fields(o.path())
        own = isinstance(base, Term) and base.op == 'selpath' and base.args[0] == s
        c.ob('selects', own, o.origin(), f'{sc.name}: raises {o.cls_name()} although the field exists', trace(o))
        if own:
            ok = len(fields) == (0 if tell is None else 1) and all(isinstance(x, Const) and x.v.strip('*') == tell for x in fields)
            c.ob('select-path', ok, o.origin(), f'{sc.name}: an error below {tell!r} leaves with path {fields!r}', trace(o))


def refused(sc, o, c, f):
    p = c.p
    if o.ok:
        c.ob('refuses', False, f.where, f'{sc.name} gives {o.value!r} for a path that leads nowhere', trace(o))
    else:
        c.ob('refuses', p.is_subclass(o.exc.cls, 'marsh.errors.PathError') is True, o.origin(), f'{sc.name}: a path that leads nowhere is answered with {o.cls_name()}', trace(o))


def select_classes(p, fam):
    seen, out = set(), []
    for cls in unmarshal_classes(p) + [p.get_class(BASE_U)]:
        if is_wrapper(p, cls) or cls.full == NSU_ or family(p, cls) != fam:
            continue
        m = p.find_member(cls, 'select')
        if not m or m[1][0] != 'func' or m[1][1].full in seen:
            continue
        seen.add(m[1][1].full)
        out.append(cls)
    return out


def c41(c):
    p = c.p
    c.rule('selects', 'A path selects what the schema of its first field selects for the rest; the empty path selects the schema itself (for a collection what the item schema selects).')
    c.rule('refuses', 'A path to no field is refused with a PathError.')
    c.rule('select-path', 'An error from below a field carries the name of the field.')
    c.explain('select() of every schema type, structured types with 0-3 fields, on concrete paths.')
    for fam in ('structured', 'leaf', 'sequence', 'mapping', 'union'):
        todo = select_classes(p, fam)
        if not todo and fam != 'leaf':
            raise AnalysisBroken(f'no {fam} schema can be selected from')
        for cls in todo:
            f = method(p, cls, 'select')
            for path, head, rest in PATHS:
                if fam == 'structured':
                    for names in SELECT_FIELDS:
                        sc, me = run_select(c, cls, f, path, schemas=names)
                        for o in sc.decided():
                            hit = next((n for n in names if n.strip('*') == head), None)
                            if head is None:
                                c.ob('selects', o.ok and o.value == me, f.where, f'{sc.name} gives {o!r}, not the schema itself', trace(o))
                            elif hit:
                                selected(sc, o, Sym('S:' + hit), rest, me, c, f, head)
                            else:
                                refused(sc, o, c, f)
                elif fam in ('sequence', 'mapping'):
                    sc, me = run_select(c, cls, f, path)
                    for o in sc.decided():
                        if o.ok:
                            c.ob('selects', o.value == Term('SEL', Sym('VS'), Const(path)), f.where, f'{sc.name} gives {o.value!r}, not what the item schema selects', trace(o))
                        else:
                            base, fields = path_fields(o.path())
                            c.ob('selects', isinstance(base, Term) and base.op == 'selpath' and base.args == (Sym('VS'), Const(path)), o.origin(), f'{sc.name}: raises {o.cls_name()}', trace(o))
                elif fam == 'leaf':
                    sc, me = run_select(c, cls, f, path)
                    for o in sc.decided():
                        if path == '':
                            c.ob('selects', o.ok and o.value == me, f.where, f'{sc.name} gives {o!r}, not the schema itself', trace(o))
                        elif head is not None:
                            refused(sc, o, c, f)
                else:
                    union_select(c, cls, f, path, head, rest)
    namespace_select(c)
    wrapped_select(c)


def wrapped_select(c):
    p = c.p
    for cls in wrapper_classes(p):
        if cls.full == NSU_:
            continue
        f = method(p, cls, 'select')
        for path in ('', 'a', 'a.x'):
            sc, me = run_select(c, cls, f, path)
            for o in sc.decided():
                if not o.ok:
                    base, fields = path_fields(o.path())
                    own = isinstance(base, Term) and base.op == 'selpath' and is_wrapped(base.args[0]) and not fields
                    c.ob('selects', own or o.exc.has('__user__') or o.exc.get('__what__') == Const('build') or o.cls_name() == 'builtins.AttributeError', o.origin(), f'{sc.name}: raises {o.cls_name()}', trace(o))
                    continue
                v = o.value
                ok = isinstance(v, Term) and v.op == 'SEL' and is_wrapped(v.args[0]) and v.args[1] == Const(path)
                c.ob('selects', ok or path == '' and (v == me or is_wrapped(v)), f.where, f'{sc.name} gives {v!r}, not what the wrapped schema selects', trace(o))


def run_select(c, cls, f, path, schemas=None):
    p = c.p
    I = Runs.of(p).interp()
    st = State()
    extra = generic_extra(p, cls)(st)
    if schemas is not None:
        extra['schemas'] = st.new(Dct(tuple(kv(Const(n), Sym('S:' + n)) for n in schemas)))
        for n in schemas:
            st.kinds[Sym('S:' + n)] = frozenset(('other',))
    me = make_self(p, I, st, cls, 'none', **extra)
    sc = c.use(execute(I, f'{cls.full}.select({path!r})' + ('' if schemas is None else f' [{", ".join(schemas) or "no fields"}]'), st, FuncV(f), [me, Const(path)], info=f))
    return sc, me


def union_select(c, cls, f, path, head, rest):
    from .unmarshal import union_setup
    p = c.p
    for n, optional in ((1, None), (2, None), (3, None), (2, 0), (2, 1)):
        I = Runs.of(p).interp()
        st = State()
        prepare(st)
        ms, extra = union_setup(n, optional)
        attrs = extra(st)
        me = make_self(p, I, st, cls, 'none', **attrs)
        sc = c.use(execute(I, f'{cls.full}.select({path!r}) [{n} members' + ('' if optional is None else f', member {optional + 1} null') + ']', st, FuncV(f), [me, Const(path)], info=f))
        for o in sc.decided():
            if optional is not None:
                s = ms[1 - optional]
                if o.ok:
                    c.ob('selects', o.value == Term('SEL', s, Const(path)), f.where, f'{sc.name} gives {o.value!r}, not what {s!r} selects', trace(o))
                else:
                    base, fields = path_fields(o.path())
                    c.ob('selects', isinstance(base, Term) and base.op == 'selpath' and base.args == (s, Const(path)), o.origin(), f'{sc.name}: raises {o.cls_name()}', trace(o))
            elif path == '':
                c.ob('selects', o.ok and o.value == me, f.where, f'{sc.name} gives {o!r}, not the schema itself', trace(o))
            elif head is not None:
                refused(sc, o, c, f)


def namespace_select(c):
    from .registry import World, WORLDS, schema_of, comp
    p = c.p
    cls = p.get_class(NSU_)
    f = method(p, cls, 'select')
    for spaces, path, fits in itertools.product(WORLDS, ('', 'n2', 'n2.x', 'N\\.1.x', 'zz', 'zz.n2', 'N2', 'n\\.1'), (lambda x: True, lambda x: x == 'C2', lambda x: False)):
        w = World(p, spaces)
        w.I.models.pop('marsh.path.head', None)
        hits = []
        head, rest = {'': ('', ''), 'n2': ('n2', ''), 'n2.x': ('n2', 'x'), 'N\\.1.x': ('N.1', 'x'), 'zz': ('zz', ''), 'zz.n2': ('zz', 'n2'), 'N2': ('N2', ''), 'n\\.1': ('n.1', '')}[path]
        for x in spaces:
            for k, n in x.items():
                w.st.facts[Term('issubclass', comp(n), T)] = fits(n)
                if k == head and fits(n):
                    hits.append(comp(n))
        me = make_self(p, w.I, w.st, cls)
        w.st.kinds[T] = frozenset(('type',))
        sc = c.use(execute(w.I, f'{cls.name}.select({path!r}) [{w!r}]', w.st, FuncV(f), [me, Const(path)], info=f))
        for o in sc.decided():
            if path == '':
                c.ob('selects', o.ok and o.value == me or o.ok and o.value == Term('SEL', Sym('WS'), Const('')), f.where, f'{sc.name} gives {o!r}', trace(o))
            elif not hits:
                refused(sc, o, c, f)
            elif o.ok:
                v = o.value
                ok = schema_of(v, o.st) in hits if rest == '' and not (isinstance(v, Term) and v.op == 'SEL') else isinstance(v, Term) and v.op == 'SEL' and schema_of(v.args[0], o.st) in hits and v.args[1] == Const(rest)
                c.ob('selects', ok, f.where, f'{sc.name} gives {v!r}', trace(o))
            else:
                base, fields = path_fields(o.path())
                own = isinstance(base, Term) and base.op == 'selpath' and schema_of(base.args[0], o.st) in hits
                if o.exc.get('__what__') == Const('build'):
                    continue
                c.ob('selects', own, o.origin(), f'{sc.name}: raises {o.cls_name()} although the name is registered', trace(o))
                if own:
                    c.ob('select-path', [x.v if isinstance(x, Const) else None for x in fields] == [head], o.origin(), f'{sc.name}: an error below the name leaves with path {fields!r}', trace(o))


CHECKS = {'C39': c39, 'C41': c41}
