"""Rules on the command line and configuration files: C20 - C23."""
import ast
import posixpath
from ..scen import *
from ..interp import Raise
from .unmarshal import trace

EP = 'marsh.entry_point.EntryPoint'
CFG = 'marsh.config.'
ARGS_SCHEMA = S + 'argument.ArgumentsUnmarshalSchema'
FN = Sym('FN')
OVERRIDES = (Const('b=1'), Const('a=2'), Const('b=1'))      # neither sorted nor distinct
CONFIG = Sym('CONFIG')
USED = ('usercall',)
PRINTERS = ('builtins.print', 'sys.stderr.write', 'sys.stdout.write', 'logging.error', 'logging.critical', 'logging.exception', 'warnings.warn')
SAFE_DUMPERS = {'SafeDumper', 'CSafeDumper'}
SAFE_LOADERS = {'SafeLoader', 'CSafeLoader', 'BaseLoader', 'CBaseLoader'}
SAFE_YAML = {'safe_load', 'safe_load_all', 'safe_dump', 'safe_dump_all', 'dump', 'dump_all', 'load', 'load_all', 'YAMLError', 'SafeDumper', 'Dumper',
             'CSafeDumper', 'CDumper', 'SafeLoader', 'CSafeLoader', 'BaseLoader', 'CBaseLoader', 'error', 'scanner', 'parser', 'nodes', 'representer', 'constructor'}
EXECUTING = ('pickle.', 'dill.', 'cloudpickle.', 'shelve.', 'marshal.load', 'builtins.eval', 'builtins.exec', 'builtins.compile', 'os.system', 'os.popen', 'subprocess.',
             'runpy.', 'jsonpickle.', 'joblib.load', 'torch.load', 'numpy.load')


# ---------------------------------------------------------------- effects
def raises(I, st, node, fr, *classes, exact=True):
    out = []
    for c in classes:
        s = st.fork()
        out.append((s, I.raise_new(s, c, node, fr, exact=exact)))
    return out


def note(tag, *errors, value=None, exact=True):
    """An external effect: recorded, then it succeeds or raises."""
    def f(I, pos, kw, st, fr, node):
        st.event(tag, Tup(pos), Tup(kw, 'kw'), Const(I.loc(node, fr)))
        v = value(I, pos, kw, st) if value else Term('call', ExtV(tag), Tup(pos), Tup(kw, 'kw'))
        failed = []
        for s, r in raises(I, st, node, fr, *errors, exact=exact):
            s.event('failed', Const(tag))
            failed.append((s, r))
        return [(st, v)] + failed
    return f


def exit_model(I, pos, kw, st, fr, node):
    r = I.raise_new(st, 'builtins.SystemExit', node, fr)
    v = pos[0][1] if pos else (kw[0][2] if kw else NONE)
    st.put(r.exc, st.obj(r.exc).set('code', v))
    st.event('exit-called', v)
    return [(st, r)]


def environ_get(I, pos, kw, st, fr, node):
    """The environment is empty."""
    return [(st, lib.arg(pos, kw, 1, 'default', NONE))]


def fold(fn, arity=None):
    def f(I, pos, kw, st, fr, node):
        if kw or any(c[0] != '1' or not isinstance(c[1], Const) or not isinstance(c[1].v, str) for c in pos):
            return None
        r = fn(*[c[1].v for c in pos])
        if isinstance(r, tuple):
            return [(st, Tup([one(Const(x)) for x in r]))]
        return [(st, mk(r) if isinstance(r, bool) else Const(r))]
    return f


def opened(I, pos, kw, st, fr, node):
    path, mode = lib.arg(pos, kw, 0, 'file'), lib.arg(pos, kw, 1, 'mode', Const('r'))
    st.event('open', path, mode, Const(I.loc(node, fr)))
    ref = st.new(Inst('marshlint.File', (('path', path), ('mode', mode)), True, 'fresh', ''))
    return [(st, ref)] + [(s, r) for s, r in raises(I, st.fork(), node, fr, 'builtins.OSError')]


def writing(mode):
    return not isinstance(mode, Const) or any(c in mode.v for c in 'wax+')


def file_of(st, v):
    while isinstance(v, Term) and v.op == 'entered':
        v = v.args[0]
    o = st.heap.get(v.id) if isinstance(v, Ref) else None
    return o if isinstance(o, Inst) and o.cls == 'marshlint.File' else None


def encoder(kind, stream_at, full=False):
    """json.dump(s), yaml.safe_dump ...: text, or text into a stream; fails on what it cannot represent."""
    def f(I, pos, kw, st, fr, node):
        el = pos[0][1] if pos else lib.KW(kw, 'obj') or lib.KW(kw, 'data')
        stream = lib.arg(pos, kw, 1, stream_at, NONE) if stream_at else NONE
        st.event('encode', el, stream, Const(I.loc(node, fr)))
        if full:        # writes every Python object, with tags only an unsafe loader reads
            d = lib.arg(pos, kw, 2, 'Dumper')
            st.event('dumper', d if d is not None else Const(None), Const(I.loc(node, fr)))
        t = Term('encoded', Const(kind), el)
        st.kinds[t] = frozenset(('str',))
        bad = []
        for s, r in raises(I, st, node, fr, 'builtins.ValueError', 'builtins.TypeError', 'yaml.YAMLError'):
            s.event('failed', Const('encode'))
            bad.append((s, r))
        if stream != NONE:
            st.event('written', stream, t)
            t = NONE
        return [(st, t)] + bad
    return f


def decoder(kind, loader_at=None):
    def f(I, pos, kw, st, fr, node):
        src = pos[0][1] if pos else NONE
        if loader_at:
            ld = lib.arg(pos, kw, 1, loader_at)
            st.event('loader', Const(kind), ld if ld is not None else Const(None), Const(I.loc(node, fr)))
        t = Term('decoded', Const(kind.split('.')[0]), src)
        return [(st, t)] + raises(I, st.fork(), node, fr, 'builtins.ValueError', 'yaml.YAMLError')
    return f


def file_attr(I, v, name, st, fr, node):
    o = file_of(st, v)
    if o is not None and name in ('write', 'read', 'close', 'flush', 'writelines', 'seek', 'truncate', '__enter__', '__exit__', 'readlines', 'name'):
        return [(st, Term('fileop', v, Const(name)))]
    return None


def file_call(I, f, pos, kw, st, fr, node):
    v, name = f.args[0], f.args[1].v
    if name == 'write':
        st.event('written', v, pos[0][1] if pos else NONE)
    if name == 'read':
        t = Term('content', file_of(st, v).get('path'))
        st.kinds[t] = frozenset(('str',))
        return [(st, t)] + raises(I, st.fork(), node, fr, 'builtins.OSError', 'builtins.UnicodeDecodeError')
    return [(st, v if name == '__enter__' else NONE)]


def effects(I):
    E = I.ext_models
    for n in PRINTERS:
        E[n] = note('print', value=lambda *a: NONE)
    for n in ('sys.exit', 'builtins.exit', 'builtins.quit', 'os._exit'):
        E[n] = exit_model
    E['os.environ.get'] = E['os.getenv'] = environ_get
    E['os.getcwd'] = note('getcwd', value=cwd)
    E['os.chdir'] = note('chdir', 'builtins.OSError', value=lambda *a: NONE)
    E['os.makedirs'] = E['os.mkdir'] = note('mkdir', 'builtins.OSError', value=lambda *a: NONE)
    E['os.replace'] = E['os.rename'] = E['shutil.move'] = note('replace', 'builtins.OSError', value=lambda *a: NONE)
    E['logging.basicConfig'] = note('logging', 'builtins.ValueError', value=lambda *a: NONE)
    E['builtins.open'] = E['io.open'] = opened
    for n in ('splitext', 'basename', 'dirname', 'join', 'isabs', 'normpath', 'split'):
        E['os.path.' + n] = fold(getattr(posixpath, n))
    E['json.dumps'], E['json.dump'] = encoder('json', None), encoder('json', 'fp')
    for n in ('safe_dump', 'dump', 'safe_dump_all', 'dump_all'):
        E['yaml.' + n] = encoder('yaml', 'stream', not n.startswith('safe'))
    E['json.load'], E['json.loads'] = decoder('json'), decoder('json')
    for n in ('safe_load', 'safe_load_all', 'full_load', 'unsafe_load', 'full_load_all', 'unsafe_load_all'):
        E['yaml.' + n] = decoder('yaml')
    E['yaml.load'], E['yaml.load_all'] = decoder('yaml.load', 'Loader'), decoder('yaml.load_all', 'Loader')


def cwd(I, pos, kw, st):
    """The current directory is what the latest chdir made it."""
    t = Term('cwd', Const('start'))
    for e in st.events:
        if e[0] == 'chdir':
            t = Term('cwd', e[1].cells[0][1] if e[1].cells else NONE)
    st.kinds[t] = frozenset(('str',))
    st.facts[Term('truth', t)] = True
    return t


# ---------------------------------------------------------------- argparse
def parser_new(I, pos, kw, st, fr, node):
    opts = st.new(Lst((), 'list'))
    if lib.KW(kw, 'add_help') != FALSE:
        st.event('own-help')
    return [(st, st.new(Inst('argparse.ArgumentParser', (('options', opts),), True, 'fresh', '')))]


def parser_attr(I, v, name, st, fr, node):
    o = st.heap.get(v.id) if isinstance(v, Ref) else None
    if isinstance(o, Inst) and o.cls == 'argparse.ArgumentParser' and name != 'options':
        return [(st, Term('parserop', v, Const(name)))]
    return None


def parser_call(I, f, pos, kw, st, fr, node):
    v, name = f.args[0], f.args[1].v
    ref = st.obj(v).get('options')
    if name == 'add_argument':
        flags = [c[1].v for c in pos if isinstance(c[1], Const)]
        d = lib.KW(kw, 'dest')
        longs = [x for x in flags if x.startswith('--')] or flags
        dest = d.v if isinstance(d, Const) else longs[0].lstrip('-').replace('-', '_')
        o = st.obj(ref)
        st.put(ref, replace(o, cells=o.cells + (one(Tup([one(Const(dest)), one(lib.KW(kw, 'nargs') or NONE), one(lib.KW(kw, 'default') or NONE),
                                                         one(lib.KW(kw, 'const') or NONE), one(lib.KW(kw, 'action') or NONE)])),)))
        return [(st, Term('action'))]
    if name in ('add_argument_group', 'add_mutually_exclusive_group'):
        return [(st, v)]
    if name in ('print_help', 'print_usage'):
        st.event('print', Tup(()), Tup((), 'kw'), Const(''))
        return [(st, NONE)]
    if name in ('error', 'exit'):
        code = Const(2) if name == 'error' else lib.arg(pos, kw, 0, 'status', Const(0))
        if name == 'error' or lib.arg(pos, kw, 1, 'message') is not None:
            st.event('print', Tup(pos), Tup(kw, 'kw'), Const(I.loc(node, fr)))
        return exit_model(I, [one(code)], [], st, fr, node)
    if name in ('parse_args', 'parse_known_args'):
        attrs = []
        for c in st.obj(ref).cells:
            dest, nargs, default, const, _ = [x[1] for x in c[1].cells]
            mode = I.given.get(dest.v, 'default')
            if mode == 'default':
                v = Lst(tuple(one(OVERRIDES[i]) for i in range(I.given.get('#', 0))), 'list') if nargs in (Const('*'), Const('+')) else default
                v = st.new(v) if isinstance(v, Lst) else v
            elif mode == 'const':
                v = const
            else:
                v = mode
            attrs.append((dest.v, v))
        ns = st.new(Inst('argparse.Namespace', tuple(attrs), True, 'fresh', ''))
        st.event('parsed')
        s2 = st.fork()
        s2.event('rejected')
        r = I.raise_new(s2, 'builtins.SystemExit', node, fr)
        s2.put(r.exc, s2.obj(r.exc).set('code', Const(2)))
        out = ns if name == 'parse_args' else Tup([one(ns), one(st.new(Lst((one(Sym('extra')),), 'list')))])
        return [(st, out), (s2, r)]
    return None


def is_help_text(n):
    return n.startswith('format_')


# ---------------------------------------------------------------- engine
def engine(p, given=None, shape=None):
    I = lib.make(p, budget=60.0)
    effects(I)
    I.given = given or {}
    E, M = I.ext_models, I.models
    E['argparse.ArgumentParser'] = parser_new
    for n in ('shutil.get_terminal_size', 'builtins.max', 'builtins.min'):
        E[n] = lib.opaque(n)
    for m in p.modules:
        if m.startswith('marsh.doc'):
            for n, b in p.modules[m].bindings.items():
                if b[0] == 'func' and is_help_text(n):
                    M[b[1].full] = help_text(n)
    M[ERRP] = lib.opaque('pretty', ['str'])
    M['marsh.parse.override'] = parse_override(p)
    M['marsh.element.resolve'] = resolver(p, shape)
    M['marsh.config.write'] = write_model(p)
    M[ARGS_SCHEMA] = lambda I, pos, kw, st, fr, node: [(st, new_args_schema(I, p, pos, st))]

    def attr(I, v, name, st, fr, node):
        r = file_attr(I, v, name, st, fr, node) or parser_attr(I, v, name, st, fr, node)
        if r is None and isinstance(v, Ref) and name in ('unmarshal', 'doc', 'select', 'doc_description', 'doc_name', 'doc_fields'):
            o = st.heap.get(v.id)
            if isinstance(o, Inst) and o.has('__schema__'):
                return [(st, Term('attr', o.get('__schema__'), name))]
        return r
    I.attr_hook = attr
    I.call_hook = interruptible
    I.interrupts = False
    return I


def interruptible(I, f, pos, kw, st, fr, node):
    out = hook(I, f, pos, kw, st, fr, node)
    if I.interrupts and out is not None and len(out) > 1 and f != FN:
        s = out[0][0].fork()
        out = list(out) + [(s, I.raise_new(s, 'builtins.KeyboardInterrupt', node, fr))]
    return out


ERRP = 'marsh.errors.MarshError.pretty'


def help_text(n):
    def f(I, pos, kw, st, fr, node):
        t = Term('helptext', Const(n))
        st.kinds[t] = frozenset(('str',))
        return [(st, t)]
    return f


def new_args_schema(I, p, pos, st):
    return st.new(Inst(p.get_class(ARGS_SCHEMA), (('__schema__', Sym('SCHEMA')), ('value', pos[0][1]), ('__opaque__', TRUE)), True, 'fresh', ''))


def parse_override(p):
    perr = p.get_class('marsh.parse.ParseError')

    def f(I, pos, kw, st, fr, node):
        src = pos[0][1] if pos else kw[0][2]
        t = Term('override', src)
        st.event('parse', src)
        s2 = st.fork()
        s2.event('libfail', Const('parse'))
        r = I.raise_new(s2, perr, node, fr)
        return [(st, t), (s2, r)]
    return f


def write_model(p):
    def f(I, pos, kw, st, fr, node):
        st.event('write', lib.arg(pos, kw, 0, 'config'), lib.arg(pos, kw, 1, 'path', Const('-')))
        out = [(st, NONE)]
        s2 = st.fork()
        s2.event('libfail', Const('write'))
        out.append((s2, I.raise_new(s2, 'builtins.Exception', node, fr, exact=False)))
        s3 = st.fork()
        s3.event('libfail', Const('write'))
        out.append((s3, lib.marsh_error(I, s3, node, fr, Const(''), 'write')))
        return out
    return f


META = Const('_meta_')
SHAPES = {'opaque': None, 'scalar': 'scalar', 'empty': (), 'plain': ('a',), 'meta': ('_meta_',), 'both': ('_meta_', 'a'), 'after': ('a', '_meta_'), 'seq': 'seq'}


def shaped(st, t, shape):
    """Make the term t a value of the given shape."""
    if shape == 'scalar':
        st.kinds[t] = frozenset(('int', 'str', 'float', 'bool', 'none'))
    elif shape == 'seq':
        st.kinds[t] = frozenset(('sequence',))
        st.content[t] = st.new(Lst((one(Sym('V:0')),), 'list', 'input', t))
    elif shape is not None:
        st.kinds[t] = frozenset(('mapping',))
        st.content[t] = st.new(Dct(tuple(kv(Const(k), Sym('V:' + k)) for k in shape), 'dict', 'input', t))


def resolver(p, shape):
    def f(I, pos, kw, st, fr, node):
        a = lib.arg(pos, kw, 0, 'element')
        t = Term('resolved', a)
        st.event('resolve', a)
        shaped(st, t, shape)
        s2 = st.fork()
        s2.event('libfail', Const('resolve'))
        return [(st, t), (s2, lib.marsh_error(I, s2, node, fr, Const(''), 'resolve'))]
    return f


def hook(I, f, pos, kw, st, fr, node):
    if isinstance(f, Term) and f.op == 'fileop':
        return file_call(I, f, pos, kw, st, fr, node)
    if isinstance(f, Term) and f.op == 'parserop':
        return parser_call(I, f, pos, kw, st, fr, node)
    recv = name = None
    if isinstance(f, ExtBound):
        recv, name = f.recv, f.name
    elif isinstance(f, Term) and f.op == 'attr':
        recv, name = f.args
    if name == 'apply' and isinstance(recv, Term) and recv.op == 'override':
        el = lib.arg(pos, kw, 0, 'element')
        st.event('apply', recv, el, Tup(pos[1:]), Tup(kw, 'kw'))
        t = Term('applied', recv, el)
        s2 = st.fork()
        s2.event('libfail', Const('apply'))
        return [(st, t), (s2, lib.marsh_error(I, s2, node, fr, Const(''), 'apply'))]
    if name == 'unmarshal':
        el = lib.arg(pos, kw, 0, 'element')
        st.event('U', recv, el, Tup(pos[1:]), Tup(kw, 'kw'), held(st, el))
        t = Term('U', recv, Const(len([e for e in st.events if e[0] == 'U'])))
        s2 = st.fork()
        s2.event('libfail', Const('unmarshal'))
        return [(st, t), (s2, lib.marsh_error(I, s2, node, fr, Const(''), 'U'))]
    if name == 'select' and isinstance(recv, (Sym, Term)):
        s2 = st.fork()
        s2.event('libfail', Const('select'))
        return [(st, Term('SEL', recv)), (s2, lib.marsh_error(I, s2, node, fr, Const(''), 'SEL'))]
    if f == FN:
        st.event('run', Tup(pos), Tup(kw, 'kw'))
        t = Term('result')
        s2, s3 = st.fork(), st.fork()
        out = [(st, t)]
        for s, c in ((s2, 'builtins.Exception'), (s3, 'builtins.KeyboardInterrupt')):
            r = I.raise_new(s, c, node, fr, exact=c != 'builtins.Exception')
            s.put(r.exc, s.obj(r.exc).set('__user__', TRUE))
            out.append((s, r))
        return out
    return lib.call_hook(I, f, pos, kw, st, fr, node)


def held(st, v):
    """What a value holds, as far as it is known: its keys, or None."""
    ref = v if isinstance(v, Ref) else st.content.get(v)
    o = st.heap.get(ref.id) if isinstance(ref, Ref) else None
    if isinstance(o, Dct):
        return Tup([one(c[1]) if c[0] == '1' else one(Term('some')) for c in o.cells])
    return NONE


# ---------------------------------------------------------------- C20, C21, C23: the entry point
OPTIONS = {'help': ('const', Sym('HELP')), 'path': (Sym('ROOT'),), 'output': ('const', Sym('OUT')), 'config_out': ('const', Sym('COUT'))}
TRUTHY = (Sym('HELP'), Sym('ROOT'), Sym('OUT'), Sym('COUT'))


def settings():
    yield {}
    for n in (1, 2, 3):
        yield {'#': n}
    for k, vs in OPTIONS.items():
        for v in vs:
            yield {k: v, '#': 1}
    for o in OPTIONS['output']:
        for w in OPTIONS['config_out']:
            yield {'output': o, 'config_out': w}
    yield {'help': 'const', 'output': 'const'}
    yield {'help': Sym('HELP'), 'config_out': 'const'}
    yield {'path': Sym('ROOT'), '#': 2, 'output': 'const'}


def show(given):
    out = [f'--{k.replace("_", "-")}' + ('' if v == 'const' else f' {v!r}') for k, v in given.items() if k != '#']
    return ' '.join(out + [x.v for x in OVERRIDES[:given.get('#', 0)]]) or 'no arguments'


def entry(p, given, with_config=False, shape=None, logging=False, args=(), kw=(), interrupts=False):
    I = engine(p, given, shape)
    I.interrupts = interrupts
    st = State()
    prepare(st)
    st.kinds[FN] = frozenset(('other',))
    st.kinds[CONFIG] = frozenset(('type',))
    for t in TRUTHY:
        st.kinds[t] = frozenset(('str',))
        st.facts[Term('truth', t)] = True
    cls = p.get_class(EP)
    schema = Term('schema', CONFIG, Tup(()), Tup((), 'kw'))
    for s in (schema, Sym('SCHEMA')):
        st.facts[Term('isinstance', s, ClassV(p.get_class(ARGS_SCHEMA)))] = False
    I.schema_may_fail = False
    me = st.new(Inst(cls, (), True, 'fresh', ''))
    init = [one(me), one(FN)]
    ikw = {'config': CONFIG} if with_config else {}
    if logging:
        ikw['setup_logging'] = TRUE
    res = [(s, v) for s, v in I.run(FuncV(method(p, cls, '__init__')), init, list(ikw.items()), st=st)]
    if len(res) != 1 or isinstance(res[0][1], Raise):
        raise AnalysisBroken(f'{EP}.__init__ has no single outcome')
    st = res[0][0]
    st.events = ()
    call = method(p, cls, '__call__')
    sc = execute(I, f'{EP}.__call__ with {show(given)}' + (', a config class' if with_config else ''), st, FuncV(call), [one(me)] + [one(a) for a in args], list(kw), info=call)
    sc.schema = schema if with_config else Sym('SCHEMA')
    return sc


def decorated(c, with_config):
    """marsh.main: decorating runs nothing and hands every setting on."""
    p = c.p
    I = engine(p)
    I.schema_may_fail = False
    main = p.get_func('marsh._functional.main')
    opts = {'setup_logging': Sym('SL'), 'prog': Sym('PR'), 'description': Sym('DE'), 'epilog': Sym('EPI'), 'help_depth': Sym('HD')}
    if with_config:
        opts['config'] = CONFIG
    where = 'marsh/_functional.py (marsh._functional.main)'
    for late in (False, True):
        st = State()
        prepare(st)
        st.kinds[FN] = frozenset(('other',))
        st.kinds[CONFIG] = frozenset(('type',))
        scene = c.use(execute(I, f'main({"" if late else "fn, "}{", ".join(opts)})', st, FuncV(main), [] if late else [one(FN)], list(opts.items()), info=main))
        for o in scene.decided():
            if not o.ok:
                continue
            outs = [(o.st, o.value)]
            if late:
                outs = [(s, v) for s, v in I.run(o.value, [one(FN)], [], st=o.st)]
            for s, v in outs:
                h = s.heap.get(v.id) if isinstance(v, Ref) else None
                if not isinstance(h, Inst) or not isinstance(h.cls, ClassInfo) or h.cls.full != EP:
                    continue
                c.ob('once', not [e for e in s.events if e[0] == 'run'], where, f'{scene.name}: decorating runs the function', trace(o))
                for k, want in {'fn': FN, 'config': opts.get('config', NONE)}.items():
                    if h.has(k):
                        c.ob('settings', h.get(k) == want, where, f'{scene.name}: {k} is {h.get(k)}', trace(o))


def events(o, *tags):
    return [e for e in o.st.events if e[0] in tags]


def code(o):
    c = o.exc.get('code')
    if c is None:
        a = o.exc.get('args')
        c = a.cells[0][1] if isinstance(a, Tup) and a.cells and a.cells[0][0] == '1' else None
    return c


def status(o):
    """The exit status: 'ok', 'bad', 'unknown' or None (no SystemExit)."""
    if o.ok or o.cls_name() != 'builtins.SystemExit':
        return None
    c = code(o)
    if c is None:
        return 'ok' if o.exc.get('args') is not None else 'unknown'
    if isinstance(c, Const):
        return 'ok' if c.v in (None, 0, False) else 'bad'
    k = o.st.kinds.get(c)
    if k and k <= frozenset(('str',)):
        return 'bad'
    if isinstance(c, Term) and c.op == 'attr' and isinstance(c.args[0], Ref) and o.st.facts.get(Term('truth', c)) is not True:
        return 'ok'     # whatever the error carries, possibly 0 or nothing
    return 'unknown'


def given_value(given, name):
    v = given.get(name)
    return None if v in (None, 'const') else v


def check_entry(c, rules):
    p = c.p
    for with_config in (False, True):
        for given in settings():
            scene = c.use(entry(p, given, with_config))
            judge(c, scene, given, with_config, rules)
    for given in ({}, {'#': 1}, {'output': 'const'}):
        for wc in (False, True):
            scene = c.use(entry(p, given, wc, logging=True))
            judge(c, scene, given, wc, rules)
    a, k = (Sym('A0'), Sym('A1')), (('k', Sym('K0')),)
    scene = c.use(entry(p, {'#': 1}, False, args=a, kw=k))
    judge(c, scene, {'#': 1}, False, rules, a, k)
    scene = c.use(entry(p, {}, True, args=a, kw=k))
    where = f'marsh/entry_point.py ({EP}.__call__)'
    for o in scene.decided():
        runs = events(o, 'run')
        c.ob('once', len(runs) <= 1, where, f'called with arguments: the function is run {len(runs)} times', trace(o))
        if o.ok and not events(o, 'U'):
            c.ob('arguments', len(runs) == 1 and runs[0][1].cells == tuple(map(one, a)) and [x[1:] for x in runs[0][2].cells] == [(Const(n), v) for n, v in k],
                 where, f'called with arguments: the function is given {runs}', trace(o))
            c.ob('result', o.value == Term('result'), where, 'called with arguments: the result is not that of the function', trace(o))
    for wc in (False, True):
        decorated(c, wc)


def judge(c, scene, given, with_config, rules, args=(), kw=()):
    where = f'marsh/entry_point.py ({EP}.__call__)'
    for o in scene.decided():
        if restore_failed(o):
            continue
        runs = events(o, 'run')
        at = o.origin() if not o.ok and o.origin() else where
        tr = trace(o)
        what = f'{show(given)}' + (' with a config class' if with_config else '')
        if 'once' in rules:
            c.ob('once', len(runs) <= 1, where, f'{what}: the function is run {len(runs)} times', tr)
        failed = events(o, 'libfail') + events(o, 'rejected')
        first = events(o, 'run')[0] if runs else None
        if 'guard' in rules:
            c.ob('guard', not (runs and failed), where, f'{what}: the function is run although {failed and failed[0][-1]} failed', tr)
            if 'help' in given:
                c.ob('help', not runs, where, f'{what}: the function is run although help was asked for', tr)
                if not events(o, 'rejected'):
                    c.ob('help', not o.ok and o.cls_name() == 'builtins.SystemExit', where, f'{what}: help does not end the process', tr)
        if 'status' in rules and events(o, 'libfail') and not runs:
            ok = not o.ok and status(o) in ('bad', 'unknown')
            c.ob('status', ok, where, f'{what}: a library error of {events(o, "libfail")[0][1].v} leads to {o!r}', tr)
            if ok:
                said = bool(events(o, 'print')) or (not o.ok and not (isinstance(code(o), Const) and not isinstance(code(o).v, str)))
                c.ob('message', said, where, f'{what}: a library error of {events(o, "libfail")[0][1].v} ends the process without a message', tr)
        refused = any(e[0] == 'failed' and e[1] == Const('mkdir') for e in o.st.events)
        if refused:
            if 'guard' in rules:
                c.ob('guard', not runs, where, f'{what}: the function is run although its output directory can not be made', tr)
            if 'status' in rules and not runs:
                c.ob('status', not o.ok and status(o) in ('bad', 'unknown'), at, f'{what}: an output directory that can not be made leads to {o!r}', tr)
                c.ob('message', bool(events(o, 'print')) or o.ok or not (isinstance(code(o), Const) and not isinstance(code(o).v, str)), where, f'{what}: an output directory that can not be made ends the process without a message', tr)
        if 'order' in rules and runs:
            order(c, scene, o, given, with_config, where, what, tr, args, kw)
        if 'result' in rules and runs:
            if o.ok:
                c.ob('result', o.value == Term('result'), where, f'{what}: the result is not that of the function', tr)
            else:
                c.ob('result', o.exc.get('__user__') is not None, where, f'{what}: an error of the function is replaced by {o!r}', tr)


def restore_failed(o):
    """The way back to the first directory is itself refused by the system: not what these rules are about."""
    tags = [e[1].v if e[0] == 'failed' else e[0] for e in o.st.events if e[0] in ('chdir', 'failed')]
    return len(tags) >= 3 and tags[-2:] == ['chdir', 'chdir'] and o.st.events and any(e[0] == 'failed' and e[1] == Const('chdir') for e in o.st.events)


def order(c, scene, o, given, with_config, where, what, tr, args, kw):
    n = given.get('#', 0)
    ov = list(OVERRIDES[:n])
    ap = events(o, 'apply')
    got = [e[1].args[0] for e in ap]
    if not c.ob('order', got == ov, where, f'{what}: the overrides are applied as {got}', tr):
        return
    cur = MISSING
    for e in ap:
        c.ob('chain', e[2] == cur, where, f'{what}: {e[1].args[0]} is applied to {e[2]} instead of the outcome of the overrides before it', tr)
        cur = Term('applied', e[1], cur)
        kws = {x[1].v: x[2] for x in e[4].cells if x[0] == '1'}
        root = given_value(given, 'path')
        if 'root' in kws or root is not None:
            c.ob('root', kws.get('root', NONE) == (root if root is not None else NONE), where, f'{what}: configuration files are looked up below {kws.get("root")}', tr)
    rs = events(o, 'resolve')
    if n or rs:
        c.ob('resolved', bool(rs) and rs[-1][1] == cur, where, f'{what}: what is resolved is not the configuration after all overrides', tr)
        cur = Term('resolved', cur) if rs else cur
    us = events(o, 'U')
    if c.ob('unmarshaled', len(us) == 1, where, f'{what}: the function is run after {len(us)} conversions of the configuration', tr):
        e = us[0]
        el = e[2]
        fine = el == cur or (not n and el == MISSING) or held_by(o, el, cur)
        c.ob('unmarshaled', fine, where, f'{what}: {el} is unmarshaled instead of the resolved configuration', tr)
        out = Term('U', scene.schema, Const(1))
        c.ob('unmarshaled', e[1] == scene.schema, where, f'{what}: unmarshaled by {e[1]}', tr)
        run = events(o, 'run')[0]
        if with_config:
            c.ob('arguments', run[1].cells == (one(out),) and not run[2].cells, where, f'{what}: the function is given {run[1]} {run[2]}', tr)
        else:
            used = repr(run[1]) + repr(run[2])
            c.ob('arguments', repr(Term('attr', out, 'args')) in used and repr(Term('attr', out, 'kwargs')) in used, where,
                 f'{what}: the function is given {run[1]} {run[2]}', tr)
            kws = {x[1].v: x[2] for x in e[4].cells if x[0] == '1'}
            if args or kw:
                da, dk = kws.get('default_args'), kws.get('default_kwargs')
                c.ob('arguments', isinstance(da, (Tup, Ref)) and all(repr(a) in show_cells(o, da) for a in args), where, f'{what}: the given positional arguments are lost', tr)
                c.ob('arguments', dk is not None and all(repr(v) in show_cells(o, dk) for _, v in kw), where, f'{what}: the given keyword arguments are lost', tr)
    seq = [e[0] for e in o.st.events if e[0] in ('apply', 'resolve', 'U', 'run')]
    rank = {'apply': 0, 'resolve': 1, 'U': 2, 'run': 3}
    c.ob('order', seq == sorted(seq, key=rank.get), where, f'{what}: the steps happen in the order {seq}', tr)


def show_cells(o, v):
    if isinstance(v, Ref):
        v = o.st.heap.get(v.id)
        return repr(v.cells) if v is not None else ''
    return repr(v)


def held_by(o, el, cur):
    """The element is a copy of the resolved configuration (C23 decides which keys it lacks)."""
    if isinstance(el, Ref):
        h = o.st.heap.get(el.id)
        return isinstance(h, Dct) and h.cells != () and all('resolved' in repr(x) or 'applied' in repr(x) or repr(cur) in repr(x) for x in h.cells)
    return repr(cur) in repr(el)


def check_c20(c):
    c.explain('EntryPoint.__call__ is interpreted for every kind of argument vector (argparse is a model that reads the declared options and either '
              'accepts or rejects), with every library call on the way able to fail; the order and the number of effects is judged on each path.')
    c.rule('once', 'the function is run at most once')
    c.rule('guard', 'the function is not run after a failed step')
    c.rule('help', 'help ends the process without running the function')
    c.rule('status', 'a library error, or an output directory that can not be made, ends the process with a non-zero status')
    c.rule('message', 'a library error is reported')
    c.rule('settings', 'the decorator hands its settings to the entry point')
    c.rule('order', 'overrides in the order given, then resolution, then conversion, then the function')
    check_entry(c, {'once', 'guard', 'status', 'order', 'result'})



# ---------------------------------------------------------------- C21
def final_cwd(o):
    """Where the process is at the end: 'start', the path it was left in, or None if the system refused the way back."""
    cur, back = Const('start'), False
    ev = list(o.st.events)
    for i, e in enumerate(ev):
        if e[0] != 'chdir':
            continue
        to = e[1].cells[0][1] if e[1].cells else e[2].cells[0][2]
        home = to == Term('cwd', Const('start'))
        if i + 1 < len(ev) and ev[i + 1][0] == 'failed':
            back = back or home
        else:
            cur = Const('start') if home else to
    if cur != Const('start') and back:
        return None
    return cur


def loader_engine(p, shape=None, interrupts=True):
    I = engine(p, {}, shape)
    I.interrupts = interrupts
    M = I.models
    base = p.get_class(CFG + 'ConfigSchema')
    cerr = p.get_class('marsh.errors.ConfigFileError')

    def find(I, pos, kw, st, fr, node):
        n = lib.arg(pos, kw, 0, 'target')
        st.event('find', n)
        t = Term('found', n)
        st.kinds[t] = frozenset(('str',))
        s2 = st.fork()
        return [(st, t), (s2, I.raise_new(s2, cerr, node, fr))]

    def schema(I, pos, kw, st, fr, node):
        t = Term('configschema', pos[0][1] if pos else kw[0][2])
        s2 = st.fork()
        return [(st, t), (s2, I.raise_new(s2, cerr, node, fr))]
    M[CFG + 'find_config'] = find
    M[base.full] = schema

    def merged(I, pos, kw, st, fr, node):
        cells = []
        for x in pos:
            if x[0] != '1':
                return None
            cells.append(x[1])
        st.event('merge', Tup([one(x) for x in cells]), lib.KW(kw, 'concatenate') or FALSE)
        t = Term('merged', *cells)
        shaped(st, t, shape)
        return [(st, t)]
    M['marsh.element.merge'] = merged
    inner = I.call_hook

    def hooked(I, f, pos, kw, st, fr, node):
        recv, name = (f.recv, f.name) if isinstance(f, ExtBound) else f.args if isinstance(f, Term) and f.op == 'attr' else (None, None)
        if name == 'load' and isinstance(recv, Term) and recv.op == 'configschema':
            st.event('load', recv.args[0])
            out = [(st, Term('loaded', recv.args[0]))]
            return out + raises(I, st.fork(), node, fr, 'builtins.OSError', 'builtins.ValueError', 'builtins.KeyboardInterrupt')
        return inner(I, f, pos, kw, st, fr, node)
    I.call_hook = hooked
    return I


def loads(p, shape=None):
    """Scenes of every way a configuration file gets loaded."""
    load = p.get_func(CFG + 'load')
    ROOT_ = Sym('ROOT')
    for names in (1, 2):
        for root in (None, ROOT_):
            for flags in ((), ('keep_meta',), ('resolve',), ('keep_meta', 'concatenate')):
                I = loader_engine(p, shape)
                st = State()
                prepare(st)
                st.kinds[ROOT_] = frozenset(('str',))
                ns = [Sym(f'n{i}') for i in range(names)]
                for x in ns:
                    st.kinds[x] = frozenset(('str',))
                kw = [] if root is None else [kwcell('root', root)]
                if root is not None:
                    st.facts[Term('truth', root)] = True
                for f in flags:
                    kw.append(kwcell(f, FALSE if f == 'resolve' else TRUE))
                kws = [(k[1].v, k[2]) for k in kw]
                sc = execute(I, f'load({", ".join(map(repr, ns))}, ' + ', '.join(f'{a}={b!r}' for a, b in kws) + ')', st, FuncV(load), [one(n) for n in ns], kws, info=load)
                sc.names, sc.root, sc.flags = ns, root, set(flags)
                yield sc


def set_config(p, with_root, keep, shape=None):
    cls = p.get_class('marsh.parse.SetConfig')
    m = method(p, cls, 'apply')
    I = loader_engine(p, shape)
    st = State()
    prepare(st)
    st.kinds[Sym('ROOT')] = frozenset(('str',))
    st.facts[Term('truth', Sym('ROOT'))] = True
    names = Tup([one(Sym('n0')), one(Sym('n1'))])
    me = st.new(Inst(cls, (('path', Sym('PATH')), ('names', names), ('combine', Sym('COMBINE'))), True, 'fresh', ''))

    def over(I, pos, kw, st, fr, node):
        st.event('override', lib.arg(pos, kw, 0, 'element'), lib.arg(pos, kw, 1, 'path'), lib.arg(pos, kw, 2, 'value'), lib.arg(pos, kw, 3, 'combine', FALSE))
        s2 = st.fork()
        return [(st, Term('overridden')), (s2, lib.marsh_error(I, s2, node, fr, Const(''), 'override'))]
    I.models['marsh.element.override'] = over
    kws = [('element', Sym('ELEMENT'))] + ([('root', Sym('ROOT'))] if with_root else []) + ([('keep_meta', TRUE)] if keep else [])
    sc = execute(I, f'SetConfig.apply root={with_root} keep_meta={keep}', st, BoundV(FuncV(m), me), [], kws, info=m)
    return sc


def judge_cwd(c, scene, where):
    for o in scene.decided():
        cur = final_cwd(o)
        if cur is None:
            continue
        at = [e for e in o.st.events if e[0] == 'chdir']
        c.ob('restored', cur == Const('start'), at[-1][3].v if at else where,
             f'{scene.name}: the process is left in {cur!r} ({"after " + repr(o) if not o.ok else "after success"})', trace(o))


def check_c21(c):
    c.explain('The entry point, the loading of configuration files and the overrides that load them are interpreted with every system call and every library '
              'call able to fail or to be interrupted; the sequence of successful os.chdir calls on each path decides where the process ends up.')
    c.rule('restored', 'on every way out the working directory is the one on entry')
    p = c.p
    for wc in (False, True):
        for given in settings():
            judge_cwd(c, c.use(entry(p, given, wc, interrupts=True)), f'marsh/entry_point.py ({EP}.__call__)')
    for sc in loads(p):
        judge_cwd(c, c.use(sc), f'marsh/config.py ({CFG}load)')
    for r in (False, True):
        for k in (False, True):
            judge_cwd(c, c.use(set_config(p, r, k)), 'marsh/parse.py (marsh.parse.SetConfig.apply)')
    c.assumptions.append('The system can change back to the directory it started in.')


# ---------------------------------------------------------------- C23
def keys_of(o, v):
    h = held(o.st, v)
    return None if h == NONE else [x[1] for x in h.cells]


def check_c23(c):
    c.explain('The resolved configuration is taken to be a value of each shape (with and without the metadata section, empty, a sequence, a scalar); what reaches the '
              'schema, and what load returns, is compared with that shape less the metadata section.')
    c.rule('dropped', 'what is converted has no metadata section and keeps every other entry')
    c.rule('available', 'the metadata section is still there when interpolations are resolved')
    c.rule('kept', 'the metadata section is kept when that is asked for')
    p = c.p
    where = f'marsh/entry_point.py ({EP}.__call__)'
    for wc in (False, True):
        for nm, shape in SHAPES.items():
            for given in ({}, {'#': 1}, {'#': 2, 'path': Sym('ROOT')}, {'#': 1, 'config_out': 'const', 'output': 'const'}):
                scene = c.use(entry(p, given, wc, shape=shape))
                for o in scene.decided():
                    for e in events(o, 'U'):
                        if shape is None:
                            continue
                        k = None if e[5] == NONE else [x[1] for x in e[5].cells]
                        want = [Const(x) for x in shape if Const(x) != META] if isinstance(shape, tuple) else None
                        if want is not None:
                            c.ob('dropped', k is not None and sorted(map(repr, k)) == sorted(map(repr, want)), where,
                                 f'{scene.name}: a configuration with the keys {list(shape)} reaches the schema with the keys {k}', trace(o))
                    for e in events(o, 'apply'):
                        kws = {x[1].v: x[2] for x in e[4].cells if x[0] == '1'}
                        c.ob('available', kws.get('keep_meta') == TRUE, where, f'{scene.name}: overrides load configurations without their metadata section', trace(o))
    where = f'marsh/config.py ({CFG}load)'
    for nm, shape in SHAPES.items():
        for scene in loads(p, shape):
            c.use(scene)
            for o in scene.decided():
                if not o.ok:
                    continue
                k = keys_of(o, o.value)
                keep = 'keep_meta' in scene.flags
                if isinstance(shape, tuple):
                    want = [Const(x) for x in shape if keep or Const(x) != META]
                    c.ob('kept' if keep else 'dropped', k is not None and sorted(map(repr, k)) == sorted(map(repr, want)), where,
                         f'{scene.name}: a configuration with the keys {list(shape)} is returned with the keys {k}', trace(o))
                rs = events(o, 'resolve')
                for e in rs:
                    k = keys_of(o, e[1])
                    if isinstance(shape, tuple):
                        c.ob('available', k is not None and len(k) == len(shape), where, f'{scene.name}: interpolations are resolved with the keys {k} of {list(shape)}', trace(o))
                if 'resolve' in scene.flags:
                    c.ob('available', not rs, where, f'{scene.name}: resolved although that was not asked for', trace(o))
                elif shape and shape != 'scalar':
                    c.ob('available', bool(rs), where, f'{scene.name}: a configuration with the keys {shape} is not resolved', trace(o))
    where = 'marsh/parse.py (marsh.parse.SetConfig.apply)'
    for keep in (False, True):
        scene = c.use(set_config(p, False, keep, SHAPES['both']))
        for o in scene.decided():
            if o.ok:
                got = events(o, 'override')
                k = keys_of(o, got[-1][3]) if got else None
                want = [META, Const('a')] if keep else [Const('a')]
                c.ob('kept', k is not None and sorted(map(repr, k)) == sorted(map(repr, want)), where,
                     f'{scene.name}: the element is overridden with the keys {k}', trace(o))


# ---------------------------------------------------------------- C22
PATH, EL = Sym('PATH'), Sym('ELEMENT')


def file_engine(p):
    I = lib.make(p, budget=60.0)
    effects(I)

    def attr(I, v, name, st, fr, node):
        return file_attr(I, v, name, st, fr, node)

    def called(I, f, pos, kw, st, fr, node):
        if isinstance(f, Term) and f.op == 'fileop':
            return file_call(I, f, pos, kw, st, fr, node)
        return lib.call_hook(I, f, pos, kw, st, fr, node)
    I.attr_hook, I.call_hook = attr, called
    return I


def config_classes(p):
    base = p.get_class(CFG + 'ConfigSchema')
    return base, [k for k in p.classes() if k is not base and p.is_subclass(k, base) is True]


def external_names(p, m):
    """Every external dotted name that a module refers to -> [(node, dotted name)]."""
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
            r = p.resolve_expr(m, n)
            if r is not None and r[0] == 'ext':
                yield n, r[1]
        if isinstance(n, ast.ImportFrom) and n.level == 0 and n.module and n.module.split('.')[0] not in (p.PKG,):
            for a in n.names:
                yield n, f'{n.module}.{a.name}'


def mode_of(v):
    return v.v if isinstance(v, Const) else repr(v)


def check_files(c):
    p = c.p
    base, classes = config_classes(p)
    if not classes:
        raise AnalysisBroken('no kind of configuration file is defined')
    for k in classes:
        for name, args in (('dump', [EL]), ('load', []), ('dumps', [EL]), ('loads', [Sym('TEXT')])):
            m = method(p, k, name)
            I = file_engine(p)
            st = State()
            prepare(st)
            st.kinds[PATH] = st.kinds[Sym('TEXT')] = frozenset(('str',))
            me = st.new(Inst(k, (('value', PATH),), True, 'fresh', ''))
            sc = c.use(execute(I, f'{k.name}.{name}', st, FuncV(m), [one(me)] + [one(a) for a in args], info=m))
            for o in sc.decided():
                judge_file(c, sc, o, f'{m.module.rel} ({m.full})', name)
    wr = p.get_func(CFG + 'write')
    for path in (Const('-'), PATH):
        for k in classes:
            I = file_engine(p)
            I.models[base.full] = lambda I, pos, kw, st, fr, node, k=k: [(st, st.new(Inst(k, (('value', pos[0][1]),), True, 'fresh', '')))]
            st = State()
            prepare(st)
            st.kinds[PATH] = frozenset(('str',))
            for op in ('eq',):
                st.facts[Term(op, *sorted((PATH, Const('-')), key=repr))] = False
            sc = c.use(execute(I, f'write(config, {path!r}) as {k.name}', st, FuncV(wr), [one(EL), one(path)], info=wr))
            for o in sc.decided():
                judge_file(c, sc, o, f'{wr.module.rel} ({wr.full})', 'dump' if path == PATH else 'stdout')


def judge_file(c, sc, o, where, name):
    opened_at, tr = None, trace(o)
    moved = bool(events(o, 'replace')) or not o.ok
    for e in o.st.events:
        if e[0] == 'open':
            if writing(e[2]):
                c.ob('read-only', name in ('dump',), e[3].v, f'{sc.name}: a file is opened for writing', tr)
                c.ob('target', moved or e[1] == PATH, e[3].v, f'{sc.name}: {e[1]} is written instead of the named file', tr)
                c.ob('target', 'a' not in mode_of(e[2]) and '+' not in mode_of(e[2]), e[3].v, f'{sc.name}: the file is opened with mode {mode_of(e[2])}', tr)
                opened_at = e
            else:
                c.ob('target', e[1] == PATH, e[3].v, f'{sc.name}: {e[1]} is read instead of the named file', tr)
        elif e[0] == 'encode':
            c.ob('encoded-first', opened_at is None, e[3].v, f'{sc.name}: the content is encoded after the file was opened for writing', tr)
            c.ob('whole', e[1] == EL, e[3].v, f'{sc.name}: {e[1]} is encoded instead of the configuration', tr)
        elif e[0] == 'dumper':
            d = e[1]
            nm = d.name if isinstance(d, ExtV) else d.info if isinstance(d, ClassV) else None
            if nm is not None or isinstance(d, Const):
                ok = isinstance(nm, str) and nm.split('.')[-1] in SAFE_DUMPERS or nm is not None and not isinstance(nm, str) and any(isinstance(b, str) and b.split('.')[-1] in SAFE_DUMPERS for b in c.p.mro(nm))
                c.ob('readable', ok, e[2].v, f'{sc.name}: the configuration is written with {nm or "the default dumper"}, whose tags the safe loaders refuse', tr)
        elif e[0] == 'loader':
            ld = e[2]
            nm = ld.name if isinstance(ld, ExtV) else ld.info if isinstance(ld, ClassV) else None
            if isinstance(nm, str):
                c.ob('safe', nm.split('.')[-1] in SAFE_LOADERS, e[3].v, f'{sc.name}: text is parsed with {nm}', tr)
            elif nm is not None:
                ok = any(isinstance(b, str) and b.split('.')[-1] in SAFE_LOADERS for b in c.p.mro(nm))
                c.ob('safe', ok, e[3].v, f'{sc.name}: text is parsed with {nm.full}', tr)
            else:
                c.ob('safe', not isinstance(ld, Const), e[3].v, f'{sc.name}: text is parsed with the default loader', tr)
    if not o.ok:
        return
    if name == 'dump':
        w = [e for e in o.st.events if e[0] == 'written' and file_of(o.st, e[1]) is not None]
        c.ob('whole', any('encoded' in repr(e[2]) for e in w), where, f'{sc.name}: succeeds without writing the encoded configuration', tr)
    if name == 'stdout':
        said = [e for e in o.st.events if e[0] == 'print' and 'encoded' in repr(e)] or [e for e in o.st.events if e[0] == 'written']
        c.ob('whole', bool(said), where, f'{sc.name}: succeeds without writing the encoded configuration', tr)
    if name in ('load', 'loads'):
        want = 'content' if name == 'load' else 'TEXT'
        c.ob('parsed', isinstance(o.value, Term) and o.value.op == 'decoded' or 'decoded' in repr(o.value), where, f'{sc.name}: returns {o.value}', tr)


def check_names(c):
    """Every reference to something that can run code while reading data."""
    p = c.p
    n = 0
    for m in p.modules.values():
        for node, name in external_names(p, m):
            where = f'{m.rel}:{node.lineno} ({m.name})'
            if name.startswith('yaml.') and name.count('.') == 1:
                n += 1
                c.ob('safe', name.split('.')[1] in SAFE_YAML, where, f'{name} is used to handle configuration text')
            elif m.name in ('marsh.config', 'marsh.element', 'marsh.parse', 'marsh.entry_point') and any(name == x or (x.endswith('.') and name.startswith(x)) for x in EXECUTING):
                n += 1
                c.ob('safe', False, where, f'{name} is used where configurations are read')
    return n


FILES = ('b.json', 'b.yaml', 'b.YML', 'b.txt', 'c.json', 'b', 'B.json', 'ab.json', 'ba.json', 'b.c.json', '.b.json')
SUPPORTED = ('.json', '.yaml', '.yml')


def listings():
    yield ()
    for a in FILES:
        yield (a,)
    for a in FILES:
        for b in FILES:
            if a != b:
                yield (a, b)
    yield ('c.json', 'b.txt', 'b.yaml')
    yield ('b.json', 'b.yaml', 'b.YML')


def find_engine(p, listing):
    I = file_engine(p)
    E = I.ext_models
    E['os.listdir'] = lambda I, pos, kw, st, fr, node: [(st.event('listdir', lib.P(pos, 0)) or st, st.new(Lst(tuple(one(Const(x)) for x in listing), 'list')))]
    for n in ('exists', 'isdir', 'isfile'):
        def f(I, pos, kw, st, fr, node, n=n):
            if pos[0][1] == Const(''):
                return [(st, FALSE)]
            return [(s, mk(b)) for s, b in I.fact(st, Term(n, pos[0][1]))]
        E['os.path.' + n] = f
    base, classes = config_classes(p)

    def schema(I, pos, kw, st, fr, node):
        v = pos[0][1] if pos else kw[0][2]
        if not isinstance(v, Const):
            return None
        st.event('schema', v)
        stem, ext = posixpath.splitext(v.v)
        if ext.lower() in SUPPORTED and stem:
            return [(st, Term('configschema', v))]
        return [(st, I.raise_new(st, p.get_class('marsh.errors.ConfigFileError') if stem and ext else 'builtins.ValueError', node, fr))]
    I.models[base.full] = schema
    I.models['marsh.utils.get_closest'] = lib.opaque('closest', ['str', 'none'])
    return I


def check_find(c):
    """find_config: the one existing supported file of that name, or a configuration error."""
    p = c.p
    f = p.get_func(CFG + 'find_config')
    where = f'{f.module.rel} ({f.full})'
    for d in ('conf/', ''):
        dpath = d.rstrip('/') or '.'
        for target in ('b', 'b.json'):
            for listing in (listings() if target == 'b' else ((),)):
                I = find_engine(p, listing)
                st = State()
                prepare(st)
                sc = c.use(execute(I, f'find_config({d + target!r}) among {list(listing)}', st, FuncV(f), [one(Const(d + target))], info=f))
                for o in sc.decided():
                    judge_find(c, p, sc, o, d, dpath, target, listing, where)


def judge_find(c, p, sc, o, d, dpath, target, listing, where):
    tr = trace(o)
    if not o.ok:
        c.ob('reported', o.cls_name() == 'marsh.errors.ConfigFileError', o.origin() or where, f'{sc.name}: fails with {o!r}', tr)
    paths = {}
    for t, b in o.st.facts.items():
        if isinstance(t, Term) and t.op in ('exists', 'isfile', 'isdir') and isinstance(t.args[0], Const):
            paths.setdefault(t.op, {})[posixpath.normpath(t.args[0].v)] = b
    if target != 'b':
        full = posixpath.normpath(d + target)
        ex = [b for op in ('exists', 'isfile') for x, b in paths.get(op, {}).items() if x == full]
        if o.ok:
            c.ob('found', bool(ex), where, f'{sc.name}: accepted without looking whether the file exists', tr)
        if ex:
            c.ob('found', o.ok == all(ex), where, f'{sc.name}: {"accepted" if o.ok else "refused"} although the file {"exists" if all(ex) else "does not exist"}', tr)
        if o.ok:
            c.ob('found', o.value == Const(d + target), where, f'{sc.name}: gives {o.value}', tr)
        return
    if False in paths.get('isdir', {}).values() and not paths.get('isfile'):
        c.ob('reported', not o.ok, where, f'{sc.name}: succeeds without a directory', tr)
        return
    files = paths.get('isfile', {})
    looked = set(files) | set(paths.get('exists', ())) | set(paths.get('isdir', ()))
    hits = []
    for x in listing:
        stem, ext = posixpath.splitext(x)
        full = posixpath.normpath(posixpath.join(dpath, x))
        if stem == 'b' and ext.lower() in SUPPORTED and files.get(full, True):
            hits.append(full)
    if o.ok and isinstance(o.value, Const) and not isinstance(o.value.v, str):
        c.ob('found', False, where, f'{sc.name}: gives {o.value} instead of a file or the configuration error', tr)
        return
    if o.ok and isinstance(o.value, Const) and events(o, 'listdir'):
        c.ob('found', posixpath.normpath(o.value.v) in looked, where, f'{sc.name}: gives {o.value} without looking whether that is a file', tr)
    if len(hits) == 1:
        got = posixpath.normpath(o.value.v) if o.ok and isinstance(o.value, Const) and isinstance(o.value.v, str) else repr(o)
        c.ob('found', got == hits[0], where, f'{sc.name}: gives {got} instead of {hits[0]}', tr)
    else:
        c.ob('reported', not o.ok, where, f'{sc.name}: {"ambiguous" if hits else "absent"} but gives {o!r}', tr)


MEMO = {'cache', 'lru_cache', 'cached_property', 'new_callable_cache', 'memoize'}


def check_fresh(c):
    """What files there are and which kinds are registered is asked anew every time."""
    p = c.p
    base, classes = config_classes(p)
    funcs = {}
    for m, n in p.functions():
        if m.name == base.module.name:
            funcs[n] = m
    kinds = {base.name} | {k.name for k in classes}

    def reads(m, n, seen):
        for x in ast.walk(n):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in kinds:
                return f'the registered kinds of files ({x.func.id}, line {x.lineno})'
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                if x.attr == 'registry':
                    return f'the registered kinds of files (line {x.lineno})'
                r = p.resolve_expr(m, x)
                if r is not None and r[0] == 'ext' and r[1] in ('os.listdir', 'os.scandir', 'os.walk', 'os.path.exists', 'os.path.isfile', 'os.path.isdir', 'glob.glob', 'os.stat', 'os.getcwd'):
                    return f'the file system ({r[1]}, line {x.lineno})'
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                if x.id == 'open':
                    return f'the content of files (open, line {x.lineno})'
                for g in funcs:
                    if g.name == x.id and g not in seen:
                        r = reads(funcs[g], g, seen | {g})
                        if r:
                            return r
        return None

    cleared = {ast.unparse(x.value).split('.')[-1] for m in p.modules.values() for x in ast.walk(m.tree) if isinstance(x, ast.Attribute) and x.attr == 'cache_clear'}
    for n, m in funcs.items():
        memo = [d for d in n.decorator_list if ast.unparse(d).split('(')[0].split('.')[-1] in MEMO]
        what = reads(m, n, {n}) if memo else None
        if what and n.name in cleared:
            c.undecided.append(f'{n.name} is memoised and cleared somewhere')
            continue
        c.ob('fresh', not what, f'{m.rel}:{n.lineno} ({m.name}.{n.name})', f'the answer of {n.name} is memoised although it depends on {what}')


def check_extensions(c):
    """Which kind of file each name selects."""
    p = c.p
    base, classes = config_classes(p)
    for name in ('a.json', 'a.JSON', 'd/a.yaml', 'a.yml', 'a.YAML', 'a.txt', 'a.jsonx', 'json.txt', 'a.b.json', 'yaml.json'):
        ext = posixpath.splitext(name)[1].lower()
        got = []
        for k in classes:
            m = method(p, k, 'match')
            I = file_engine(p)
            sc = c.use(execute(I, f'{k.name}.match({name!r})', State(), FuncV(m), [one(ClassV(k)), one(Const(name))], info=m))
            for o in sc.decided():
                if o.ok and isinstance(o.value, Const):
                    got.append((k, bool(o.value.v), m, trace(o)))
        for k, b, m, tr in got:
            others = [x for x in got if x[1] and x[0] is not k]
            c.ob('kind', not (b and others), f'{m.module.rel} ({m.full})', f'{name} is taken for both {k.name} and {others and others[0][0].name}', tr)
        if len(got) == len(classes):
            c.ob('kind', any(b for _, b, _, _ in got) == (ext in SUPPORTED), f'marsh/config.py ({base.full})',
                 f'{name} is {"accepted" if any(b for _, b, _, _ in got) else "refused"} as a configuration file')


def check_c22(c):
    c.explain('Reading and writing of every kind of configuration file is interpreted with open, read, write, encoders and decoders as effects that can fail; '
              'the order of effects on each path is judged. References to unsafe loaders and to code execution are looked up in the whole package. '
              'find_config is interpreted over bounded directory listings.')
    c.rule('safe', 'configuration text is only parsed with safe loaders')
    c.rule('readable', 'configuration text is only written with safe dumpers, so that it can be read back')
    c.rule('encoded-first', 'a file is opened for writing after its whole content has been encoded')
    c.rule('whole', 'the encoded configuration is what is written')
    c.rule('read-only', 'reading never opens a file for writing')
    c.rule('target', 'the named file is the one read or written')
    c.rule('parsed', 'what is loaded is the decoded content')
    c.rule('reported', 'absent, unsupported and ambiguous files are configuration errors')
    c.rule('found', 'the one matching supported file is found')
    c.rule('kind', 'the extension selects the kind of file')
    check_files(c)
    check_names(c)
    check_find(c)
    c.rule('fresh', 'what depends on the files present or on the registered kinds is not remembered')
    check_extensions(c)
    check_fresh(c)


CHECKS = {'C20': check_c20, 'C21': check_c21, 'C22': check_c22, 'C23': check_c23}
