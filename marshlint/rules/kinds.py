"""Rules on what values and types are: C26, and which schema is chosen for them: C12."""
import ast
import typing
import zlib
from ..scen import *
from ..interp import Raise
from ..host import HostInterp, Host, wrap, real, NO
from .. import shapes
from .texts import where

UTILS = 'marsh.utils.'
SKIP_TYPES = ('T',)


class Bench:
    """Calls of predicates on representatives."""

    def __init__(self, c, name):
        self.c, self.p = c, c.p
        self.I = HostInterp(c.p, budget=20.0)
        self.I.call_hook = self.unknown
        self.I.endless = True
        self.sc = Scene(name, self.I)
        self.root = Frame(None, None, c.p.modules[c.p.PKG])

    @staticmethod
    def unknown(I, f, pos, kw, st, fr, node):
        st.blur(f'{f!r} is not modelled')
        return None

    def call(self, f, pos, what, st=None, kw=()):
        """-> {results} of the decided paths, or None"""
        self.I.steps, self.I.t0 = 0, None
        try:
            got = self.I.call(f, [one(x) for x in pos], list(kw), st or State(), self.root, None)
        except Budget:
            self.c.undecided.append(f'{what}: analysis budget')
            return None
        except (RecursionError, AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError) as e:
            if STRICT:
                raise
            self.c.undecided.append(f'{what}: {type(e).__name__}: {e}')
            return None
        out = []
        for s, v in got:
            if s.taint:
                self.c.undecided.append(f'{what}: {s.taint[:1]}')
                return None
            out.append((s, v))
        for s, v in out:
            self.sc.outcomes.append(Outcome(s, v))
        return out

    def truths(self, f, pos, what):
        """The set of truth values (or 'an error') a predicate answers."""
        got = self.call(f, pos, what)
        if got is None:
            return None
        out = set()
        for s, v in got:
            if isinstance(v, Raise):
                out.add(f'raises {self.I.p_name(s, v) if hasattr(self.I, "p_name") else exc_name(s, v)}')
                continue
            for s2, b in self.I.truth(v, s):
                if s2.taint:
                    return None
                out.add(b)
        return out


def exc_name(s, r):
    o = s.obj(r.exc) if isinstance(r, Raise) else None
    c = getattr(o, 'cls', None)
    return c if isinstance(c, str) else getattr(c, 'full', 'an error')


def c26(c):
    p = c.p
    c.rule('partition', 'a value is exactly one of null, primitive, sequence and mapping, the one it is')
    c.rule('missing', 'the missing marker, and nothing else, is missing')
    c.rule('classes', 'a class or type alias is never a mapping, sequence, primitive or named tuple itself')
    c.rule('types', 'a type is taken for the kind its instances are')
    c.rule('declared', 'the type of an instance is its class, of an alias its origin, of a class the class itself')
    c.rule('instances', 'an instance is never taken for a type')
    c.explain('The predicates of marsh.utils are abstractly interpreted on representatives of every kind of value and type; what a representative declares (bases, attributes, origin, arguments) is constant, the protocols of the package are mirrored from their syntax.')
    c.assumptions.append('Values and types are represented by the table in marshlint/shapes.py; a predicate is assumed to treat alike what declares the same.')
    B = Bench(c, 'predicates on representatives')
    f = {n: p.get_func(UTILS + n) for n in ('is_missing', 'is_mapping', 'is_sequence', 'is_primitive', 'is_mapping_type', 'is_sequence_type', 'is_primitive_type', 'is_namedtuple', 'is_namedtuple_type',
                                            'is_typeddict_type', 'is_defaultdict_type', 'is_obj_instance', 'is_typed_namedtuple', 'is_typed_namedtuple_type', 'is_protocol', 'is_literal', 'is_annotated', 'is_typing_alias')}

    def ask(rule, n, name, v, want, text):
        what = f'{n}({name})'
        got = B.truths(FuncV(f[n]), [v], what)
        if got is not None:
            c.ob(rule, got == {want}, where(f[n]), f'{what} is {" or ".join(map(str, sorted(got, key=str)))}: {text}')
    for name, v, kind in shapes.instances():
        x = wrap(v)
        label = f'<{name}>'
        for k in ('primitive', 'sequence', 'mapping'):
            ask('partition', f'is_{k}', label, x, kind == k, f'the value is {"of kind " + kind if kind != "other" else "not plain data"}')
        ask('missing', 'is_missing', label, x, name in ('missing', 'mystr_missing', 'missing_object'), 'only the markers are missing')
        ask('classes', 'is_obj_instance', label, x, True, 'it is an instance')
        ask('partition', 'is_namedtuple', label, x, 'namedtuple' in name, 'named tuples only')
        ask('partition', 'is_typed_namedtuple', label, x, name.endswith('typed_namedtuple'), 'named tuples with annotations only')
        for n in ('is_mapping_type', 'is_sequence_type', 'is_primitive_type', 'is_namedtuple_type', 'is_typed_namedtuple_type', 'is_typeddict_type', 'is_defaultdict_type', 'is_protocol', 'is_literal', 'is_annotated', 'is_typing_alias'):
            ask('instances', n, label, x, False, 'it is an instance, not a type')
    for name, t, kind in shapes.type_table():
        if name in SKIP_TYPES:
            continue
        x = wrap(t)
        label = f'<type {name}>'
        for n in ('is_mapping', 'is_sequence', 'is_primitive', 'is_namedtuple', 'is_typed_namedtuple', 'is_missing', 'is_obj_instance'):
            ask('classes', n, label, x, False, 'it is a type, not an instance')
        duck = name in ('Color', 'IntColor', 'FloatColor', 'Perm', 'WithMeta', 'IntPerm')      # their class is a container of its members
        for k in ('primitive', 'sequence', 'mapping'):
            if not (duck and k == 'sequence'):
                ask('types', f'is_{k}_type', label, x, kind == k, f'its instances are of kind {kind}')
        ask('types', 'is_namedtuple_type', label, x, name in ('NT', 'TNT', 'NTEmpty', 'SubNT', 'SubSubNT', 'SubPlainNT'), 'named tuple classes only')
        ask('types', 'is_typed_namedtuple_type', label, x, name in ('TNT', 'SubNT', 'SubSubNT'), 'named tuple classes with annotations only')
        ask('types', 'is_typeddict_type', label, x, False, 'typed dict classes only')
        ask('types', 'is_defaultdict_type', label, x, name in ('defaultdict', 'MyDefaultDict', 'SubDefaultDict', 'DefaultDict_str_int'), 'default dict classes only')
        ask('types', 'is_protocol', label, x, name == 'IntLike', 'protocols only')
        ask('types', 'is_literal', label, x, name.startswith('Literal_'), 'literals only')
        ask('types', 'is_annotated', label, x, name.startswith('Annotated_'), 'annotated types only')
        ask('types', 'is_typing_alias', label, x, not isinstance(t, type) or name in ('list_int', 'dict_str_int'), 'type aliases only') if name != 'Generic_bare' else None
    def kind_of(name, v, want, label):
        got = B.call(FuncV(get_type), [v], f'get_type({label})')
        if got is not None:
            bad = [exc_name(s, r) if isinstance(r, Raise) else r for s, r in got if isinstance(r, Raise) or real(r) is not want]
            c.ob('declared', not bad, where(get_type), f'get_type({label}) gives {bad[:1]}, not {want!r}')
    get_type = p.get_func(UTILS + 'get_type')
    for name, v, _ in shapes.instances():
        kind_of(name, wrap(v), type(v), f'<{name}>')
    for name, t, _ in shapes.type_table():
        of = t if isinstance(t, type) and not hasattr(t, '__origin__') else typing.get_origin(t)
        if isinstance(of, type):
            kind_of(name, wrap(t), of, f'<type {name}>')
    for name in ('TD', 'TDPartial', 'TDEmpty', 'SubTD'):
        ask('types', 'is_typeddict_type', f'<type {name}>', wrap(getattr(shapes, name)), True, 'it is a typed dict class')
    c.use(B.sc)


# ---------------------------------------------------------------- C12
TYPES_PKG = S + 'types'
CHOSEN_U = {
    'Primitive': 'int float bool str MyStr MyInt MyFloat LiteralString',
    'Enum': 'IntColor StrColor FloatColor Color Perm ListColor DictColor SetColor TupleColor BytesColor DateColor MixColor IntPerm',
    'Sequence': 'list tuple range deque UserList MyList MyTuple AbcSeq abc_Sequence abc_MutableSequence List List_int list_int Tuple tuple_var Sequence Sequence_int MutableSequence_int Deque_int array GenericList '
                'GenericList_int List_Dict abc_Sequence_int',
    'NamedTuple': 'NT TNT NTEmpty SubNT',
    'Tuple': 'Tuple_int Tuple_empty',
    'GenericCallable': 'DuckSeq DuckMap Plain Args GenericPlain object DuckIter ImplInt function LAMBDA',
    'Mapping': 'dict OrderedDict MappingProxyType ChainMap UserDict MyDict AbcMap abc_Mapping abc_MutableMapping Dict Dict_str_int dict_str_int Mapping Mapping_str_int OrderedDict_str_int GenericDict GenericDict_str_int '
               'Counter Dict_str_list',
    'DefaultDict': 'defaultdict DefaultDict_str_int MyDefaultDict',
    'Bytes': 'bytes MyBytes',
    'Set': 'set Set_int MySet',
    'Dataclass': 'DC DCList DCDict DCCall DCSeq',
    'None': 'NoneType',
    'Complex': 'complex MyComplex',
    'Datetime': 'date datetime time',
    'Slice': 'slice',
    'Any': 'Any',
    'Union': 'Union_ Optional_',
    'LiteralValue': 'Literal_',
    'Literal': 'Literal_list',
    'Logger': 'Logger',
    'Protocol': 'IntLike',
    'Annotated': 'Annotated_int Annotated_enum Annotated_list Annotated_dc Annotated_union Annotated_literal Annotated_td Annotated_nt',
    'TypedDict': 'TD TDPartial TDEmpty SubTD',
    'TypeVar': 'BT CT',
}
CHOSEN_M = {
    'None': 'none',
    'Primitive': 'true false zero one minus big float fzero nan inf text empty_text digits missing almost longer mystr mystr_missing myint myfloat',
    'EnumValue': 'intenum strenum floatenum intflag enum flag bytesenum listenum dictenum tupleenum',
    'GenericSequence': 'list empty_list tuple empty_tuple one_tuple range deque userlist mylist mytuple nested abcseq array duckseq list_of_missing tuple_of_missing list_of_types generic_list list_in_dict',
    'NamedTuple': 'namedtuple typed_namedtuple empty_namedtuple sub_namedtuple',
    'GenericMapping': 'dict empty_dict ordered defaultdict proxy chain userdict counter mydict abcmap duckmap intkeys dict_of_missing typed_dict generic_dict',
    'Bytes': 'bytes empty_bytes mybytes',
    'GenericIterable': 'set frozenset iterator keys generator duckiter stream',
    'Complex': 'complex fraction',
    'Dataclass': 'dataclass dataclass_list dataclass_dict dataclass_call dataclass_seq',
    'Datetime': 'date',
    'Slice': 'slice',
    'Logger': 'logger',
}
MORE_TYPES = dict(datetime=shapes.datetime.datetime, time=shapes.datetime.time, Annotated_enum=typing.Annotated[shapes.IntColor, 1], Annotated_list=typing.Annotated[typing.List[int], 1], Annotated_dc=typing.Annotated[shapes.DC, 1],
                  Annotated_union=typing.Annotated[typing.Union[int, str], 1], Annotated_literal=typing.Annotated[typing.Literal[1], 1], Annotated_td=typing.Annotated[shapes.TD, 1], Annotated_nt=typing.Annotated[shapes.NT, 1])
MORE_VALUES = dict(listenum=shapes.ListColor.RED, dictenum=shapes.DictColor.RED, tupleenum=shapes.TupleColor.RED, sub_namedtuple=shapes.SubNT(1), dataclass_list=shapes.DCList(), dataclass_dict=shapes.DCDict(), dataclass_call=shapes.DCCall(),
                   dataclass_seq=shapes.DCSeq())


def import_order(p, pkg):
    """The modules of a package in the order in which importing it runs them."""
    out, seen = [], set()

    def visit(name):
        if name in seen or name not in p.modules or not (name + '.').startswith(pkg + '.'):
            return
        seen.add(name)
        mod = p.modules[name]
        items = []
        for s in mod.tree.body:
            if isinstance(s, ast.ImportFrom):
                base = mod.abs_from(s)
                visit(base)
                for a in s.names:
                    visit(f'{base}.{a.name}')
            elif isinstance(s, ast.Import):
                for a in s.names:
                    visit(a.name)
            else:
                items.append(s)
        out.extend((mod, s) for s in items)
    visit(pkg)
    return out


class Registrations(Bench):
    """The schema registries after the import of the package."""

    def __init__(self, c, name):
        super().__init__(c, name)
        self.I.call_hook = self.forget
        self.I.unroll, self.I.max_steps, self.I.injective = 100, 4000000, frozenset(('hash', 'str'))
        self.registered = NONE
        for f, v in (('find_class', lambda: Const('name') if self.registered is not NONE else NONE), ('find_namespaces', lambda: Tup([one(self.registered)] if self.registered is not NONE else [])),
                     ('find_subclasses', lambda: Tup([]))):
            self.I.models[f'{S}namespace.Namespaces.{f}'] = lambda I, pos, kw, st, fr, node, v=v: [(st, v())]
        self.I.ext_models['builtins.hash'] = self.known(self.I.ext_models.get('builtins.hash'), lambda v: Const(zlib.crc32(v.info.full.encode())))
        self.I.ext_models['builtins.str'] = self.known(self.I.ext_models.get('builtins.str'), lambda v: Const(v.info.full))
        self.st = State()
        self.at = {}

    @staticmethod
    def known(model, f):
        """Hashes and texts of classes are distinct constants."""
        def m(I, pos, kw, st, fr, node):
            if len(pos) == 1 and not kw and pos[0][0] == '1' and isinstance(pos[0][1], ClassV):
                return [(st, f(pos[0][1]))]
            return model(I, pos, kw, st, fr, node) if model else None
        return m

    @staticmethod
    def forget(I, f, pos, kw, st, fr, node):
        if not pos and not kw and repr(f).rpartition('.')[2] in ('cache_clear', 'clear'):
            return [(st, NONE)]
        return Bench.unknown(I, f, pos, kw, st, fr, node)

    def frame(self, st, mod):
        fid = f'reg:{mod.name}'
        fr = Frame(fid, None, mod, self.root)
        if fid not in st.frames:
            st.frames[fid] = {}
            st.parents[fid] = None
        return fr

    def step(self, what, run):
        """One statement of the import: -> value, or None (undecided)."""
        self.I.steps, self.I.t0 = 0, None
        try:
            got = run(self.st.fork())
        except Budget:
            got = []
        if len(got) != 1 or got[0][0].taint or isinstance(got[0][1], Raise):
            self.c.undecided.append(f'{what}: {len(got)} outcomes {[(v, s.taint[:1]) for s, v in got][:2]}')
            return None
        self.st = got[0][0]
        return got[0][1]

    def load(self):
        """Interpret every registration in the order of the imports."""
        schema = self.c.p.get_class(S + 'core.base.Schema')
        ok = True
        for mod, s in import_order(self.c.p, TYPES_PKG):
            if isinstance(s, ast.ClassDef):
                info = self.c.p.resolve(mod.name, s.name)
                if not (info and info[0] == 'class') or schema not in self.c.p.mro(info[1]):
                    continue
                cls = ClassV(info[1])
                for d in reversed(s.decorator_list):
                    what = f'{mod.path}:{d.lineno} registration of {s.name}'
                    self.at[s.name] = f'{mod.path}:{d.lineno} {s.name}'
                    f = self.step(what, lambda st: self.I.ev(d, st, self.frame(st, mod)))
                    v = f and self.step(what, lambda st: self.I.call(f, [one(cls)], [], st, self.frame(st, mod), d))
                    ok = ok and v is not None
                    self.c.ob('registration', v is None or v == cls, what, f'the registration of {s.name} gives {v!r} instead of the class')
            elif isinstance(s, (ast.Expr, ast.For, ast.Assign)) and any(isinstance(n, ast.Call) and 'register' in ast.unparse(n.func) for n in ast.walk(s)):
                if isinstance(s, ast.Expr):
                    ok = self.step(f'{mod.path}:{s.lineno} registration', lambda st: self.I.ev(s.value, st, self.frame(st, mod))) is not None and ok
                else:
                    def block(st):
                        return [(x, NONE if e is None else e) for x, e in self.I.block([s], st, self.frame(st, mod))]
                    ok = self.step(f'{mod.path}:{s.lineno} registration', block) is not None and ok
        return ok

    def match(self, base, v, what):
        """-> set of tuples of class names, 'an error', or None (undecided)"""
        st = self.st.fork()
        self.I.steps, self.I.t0 = 0, None
        try:
            fr = self.frame(st, self.c.p.modules[self.c.p.PKG])
            out = set()
            for s, reg in self.I.getattr(ClassV(base), 'registry', st, fr, None):
                for s, m in self.I.getattr(reg, 'match', s, fr, None):
                    for s, r in self.I.call(m, [one(v)], [], s, fr, None):
                        if isinstance(r, Raise):
                            out.add(('an error',))
                        else:
                            for s, cells in self.I.collect(r, s, fr, None):
                                out.add(tuple(x[1].info.name for x in cells))
                        self.sc.outcomes.append(Outcome(s, NONE))
                        if s.taint:
                            self.c.undecided.append(f'{what}: {s.taint[:1]}')
                            return None
            if not out:
                self.c.undecided.append(f'{what}: no outcome')
                return None
            return out
        except Budget:
            self.c.undecided.append(f'{what}: analysis budget')
        except (RecursionError, AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError) as e:
            if STRICT:
                raise
            self.c.undecided.append(f'{what}: {type(e).__name__}: {e}')
        return None


def c12(c):
    p = c.p
    c.rule('registration', 'registering a schema gives back the schema')
    c.rule('chosen', 'the schema chosen for a type or value is the most specific one')
    c.rule('component', 'a registered component is found first, whatever else it is')
    c.explain('Every registration is abstractly interpreted in the order in which importing the package runs them, which gives the two registries; then the choice is interpreted for representatives of every kind of value and type.')
    c.assumptions.append('Values and types are represented by the table in marshlint/shapes.py; namespaces are represented by whether one knows the type. No third-party schema has been registered.')
    B = Registrations(c, 'choice of a schema')
    names = {b[1].name for m in p.modules.values() for b in m.bindings.values() if b[0] == 'class'}
    if not B.load():
        c.use(B.sc)
        return
    types_ = {n: t for n, t, _ in shapes.type_table()}
    values = {n: v for n, v, _ in shapes.instances()}
    jobs = []
    for side, table, base, have, more in (('Unmarshal', CHOSEN_U, S + 'core.unmarshal.UnmarshalSchema', types_, MORE_TYPES), ('Marshal', CHOSEN_M, S + 'core.marshal.MarshalSchema', values, MORE_VALUES)):
        base = p.get_class(base)
        for kind, members in table.items():
            want = f'{kind}{side}Schema'
            for n in members.split():
                v = have[n] if n in have else more[n] if n in more else getattr(shapes, n)
                what = f'{side.lower()}ing <{"type " if side == "Unmarshal" else ""}{n}>'
                if want not in names:
                    c.undecided.append(f'{what}: there is no {want}')
                    continue
                for reg in (False, True):
                    if reg and (kind in ('Annotated', 'None') or side == 'Unmarshal' and not isinstance(v, type)):
                        continue
                    B.registered = Sym('namespace') if reg else NONE
                    got = B.match(base, wrap(v), what)
                    if got is None:
                        continue
                    exp = ((f'Namespace{side}Schema',) if reg else ()) + (want,)
                    texts = ' or '.join(' of '.join(g) for g in sorted(got))
                    at = B.at.get(want) or f'{base.module.path}:{base.node.lineno} {base.name}'
                    c.ob('component' if reg else 'chosen', got == {exp}, at, f'{what}{" (a component)" if reg else ""} is left to {texts}, not to {" of ".join(exp)}')
    c.use(B.sc)


CHECKS = {'C12': c12, 'C26': c26}
