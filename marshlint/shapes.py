"""Representative values and types, with what each of them is.

Built from the standard library only; nothing of the package is involved."""
import array
import collections
import collections.abc
import dataclasses
import datetime
import decimal
import enum
import fractions
import functools
import io
import logging
import numbers
import pathlib
import string
import types
import typing
import uuid
from typing import *

MISSING_TEXT = '???'
T = TypeVar('T')
K = TypeVar('K')
BT = TypeVar('BT', bound=int)
CT = TypeVar('CT', int, str)


class Plain:
    pass


class Args:
    def __init__(self, a: int, b: str = ''):
        pass


class Meta(type):
    def __getitem__(cls, k):
        return k

    def __len__(cls):
        return 3

    def __contains__(cls, x):
        return True

    def __iter__(cls):
        return iter(())


class MetaMap(Meta):
    def keys(cls):
        return ()

    def values(cls):
        return ()

    def items(cls):
        return ()

    def get(cls, k, d=None):
        return d


class WithMeta(metaclass=Meta):
    pass


class WithMetaMap(metaclass=MetaMap):
    pass


class DuckSeq:
    def __len__(self):
        return 0

    def __getitem__(self, i):
        raise IndexError

    def __contains__(self, x):
        return False


class DuckIter:
    def __iter__(self):
        return iter(())


class DuckGetitem:
    def __getitem__(self, i):
        raise IndexError


class DuckMap:
    def __init__(self, x=()):
        pass

    def __len__(self):
        return 0

    def __getitem__(self, k):
        raise KeyError(k)

    def __contains__(self, k):
        return False

    def __iter__(self):
        return iter(())

    def keys(self):
        return ()

    def values(self):
        return ()

    def items(self):
        return ()

    def get(self, k, d=None):
        return d


class MyStr(str):
    pass


class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyBytes(bytes):
    pass


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MyDict(dict):
    pass


class MySet(set):
    pass


class MyDefaultDict(collections.defaultdict):
    pass


class MyComplex(complex):
    pass


class AbcMap(collections.abc.Mapping):
    def __getitem__(self, k):
        raise KeyError(k)

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0


class AbcSeq(collections.abc.Sequence):
    def __getitem__(self, k):
        raise IndexError(k)

    def __len__(self):
        return 0


class GenericList(List[T]):
    pass


class GenericDict(Dict[K, T]):
    pass


class GenericPlain(Generic[T]):
    def __init__(self, x: T):
        pass


class Color(enum.Enum):
    RED = 1
    BLUE = 'b'


class IntColor(enum.IntEnum):
    RED = 1


class StrColor(str, enum.Enum):
    RED = 'r'


class FloatColor(float, enum.Enum):
    HALF = 0.5


class TupleColor(tuple, enum.Enum):
    RED = (1, 2)


class BytesColor(bytes, enum.Enum):
    RED = b'r'


class DateColor(datetime.date, enum.Enum):
    RED = (2020, 1, 1)


class MixColor(Args, enum.Enum):
    RED = (1, 'b')


class Perm(enum.Flag):
    R = 1


class IntPerm(enum.IntFlag):
    R = 1


class ListColor(list, enum.Enum):
    RED = [1]


class DictColor(dict, enum.Enum):
    RED = {1: 2}


class SetColor(set, enum.Enum):
    RED = {1}


NT = collections.namedtuple('NT', 'a b')
NTEmpty = collections.namedtuple('NTEmpty', '')


class TNT(NamedTuple):
    a: int
    b: str = ''


class SubNT(TNT):
    pass


class SubSubNT(SubNT):
    pass


class SubPlainNT(NT):
    extra = 1


class SubMyList(MyList):
    pass


class SubMyDict(MyDict):
    pass


class SubMyInt(MyInt):
    pass


class SubMyStr(MyStr):
    pass


class SubDefaultDict(MyDefaultDict):
    pass


class TD(TypedDict):
    a: int


class TDPartial(TypedDict, total=False):
    a: int


class TDEmpty(TypedDict):
    pass


class SubTD(TD):
    b: str


@dataclasses.dataclass
class DC:
    a: int = 0


@dataclasses.dataclass
class DCList(list):
    a: int = 0


@dataclasses.dataclass
class DCDict(dict):
    a: int = 0


@dataclasses.dataclass
class DCCall:
    a: int = 0

    def __call__(self):
        pass


@dataclasses.dataclass
class DCSeq(DuckSeq):
    a: int = 0


@runtime_checkable
class IntLike(Protocol):
    def __int__(self):
        ...


@runtime_checkable
class Nothing(Protocol):
    def no_type_has_this(self):
        ...


class NotRuntime(Protocol):
    def __int__(self):
        ...


class ImplInt(IntLike):
    def __int__(self):
        return 1


def function(a: int, b: str = ''):
    pass


PARTIAL = functools.partial(function, 1)
LAMBDA = lambda: None
BOUND = Plain().__init__


def instances():
    """(name, value, kind): kind is none, primitive, sequence, mapping or other."""
    out = []

    def add(kind, **kw):
        out.extend((n, v, kind) for n, v in kw.items())
    add('none', none=None)
    add('primitive', true=True, false=False, zero=0, one=1, minus=-1, big=10 ** 30, float=1.5, fzero=0.0, nan=float('nan'), inf=float('inf'), text='abc', empty_text='', digits='12', missing=MISSING_TEXT,
        almost='??', longer='????', mystr=MyStr('x'), mystr_missing=MyStr(MISSING_TEXT), myint=MyInt(3), submyint=SubMyInt(3), submystr=SubMyStr('x'), myfloat=MyFloat(2.5), intenum=IntColor.RED, strenum=StrColor.RED, floatenum=FloatColor.HALF, intflag=IntPerm.R)
    add('sequence', list=[1, 2], empty_list=[], tuple=(1, 2), empty_tuple=(), one_tuple=(1,), range=range(3), deque=collections.deque([1]), userlist=collections.UserList([1]), mylist=MyList([1]), mytuple=MyTuple((1,)),
        nested=[[1]], namedtuple=NT(1, 2), typed_namedtuple=TNT(1), empty_namedtuple=NTEmpty(), sub_typed_namedtuple=SubNT(1), sub2_typed_namedtuple=SubSubNT(1), sub_namedtuple=SubPlainNT(1, 2), submylist=SubMyList([1]), abcseq=AbcSeq(), array=array.array('i', [1]), duckseq=DuckSeq(), list_of_missing=[MISSING_TEXT], tuple_of_missing=(MISSING_TEXT,),
        list_of_types=[int, str], generic_list=GenericList([1]), list_in_dict=[{}])
    add('mapping', dict={'a': 1}, empty_dict={}, ordered=collections.OrderedDict(a=1), defaultdict=collections.defaultdict(list), proxy=types.MappingProxyType({'a': 1}), chain=collections.ChainMap({}), userdict=collections.UserDict(),
        counter=collections.Counter('ab'), mydict=MyDict(a=1), submydict=SubMyDict(a=1), subdefaultdict=SubDefaultDict(list), abcmap=AbcMap(), duckmap=DuckMap(), intkeys={0: 'a', 1: 'b'}, dict_of_missing={'a': MISSING_TEXT}, typed_dict=TD(a=1), generic_dict=GenericDict())
    add('other', bytes=b'abc', empty_bytes=b'', mybytes=MyBytes(b'x'), set={1}, frozenset=frozenset((1,)), plain=Plain(), function=function, lambda_=LAMBDA, partial=PARTIAL, complex=1j, ellipsis=..., enum=Color.RED, flag=Perm.R,
        dataclass=DC(), date=datetime.date(2020, 1, 1), decimal=decimal.Decimal(1), fraction=fractions.Fraction(1, 2), path=pathlib.PurePosixPath('a'), uuid=uuid.UUID(int=1), iterator=iter([1]), keys={}.keys(),
        generator=(x for x in ()), duckiter=DuckIter(), getitem_only=DuckGetitem(), slice=slice(1), stream=io.StringIO(), missing_object=dataclasses.MISSING, bound=BOUND, object=object(), notimplemented=NotImplemented,
        bytesenum=BytesColor.RED, logger=logging.Logger('x'))
    return out


def type_table():
    """(name, type, kind): kind is primitive, sequence, mapping, text-like or other."""
    out = []

    def add(kind, **kw):
        out.extend((n, v, kind) for n, v in kw.items())
    add('primitive', int=int, float=float, bool=bool, str=str, MyStr=MyStr, MyInt=MyInt, SubMyInt=SubMyInt, SubMyStr=SubMyStr, MyFloat=MyFloat, IntColor=IntColor, StrColor=StrColor, FloatColor=FloatColor)
    add('sequence', list=list, tuple=tuple, range=range, deque=collections.deque, UserList=collections.UserList, MyList=MyList, MyTuple=MyTuple, NT=NT, TNT=TNT, NTEmpty=NTEmpty, SubNT=SubNT, SubSubNT=SubSubNT, SubPlainNT=SubPlainNT, SubMyList=SubMyList, AbcSeq=AbcSeq, abc_Sequence=collections.abc.Sequence,
        abc_MutableSequence=collections.abc.MutableSequence, List=List, List_int=List[int], list_int=list[int], Tuple=Tuple, Tuple_int=Tuple[int, str], tuple_var=tuple[int, ...], Tuple_empty=Tuple[()], Sequence=Sequence,
        Sequence_int=Sequence[int], MutableSequence_int=MutableSequence[int], Deque_int=Deque[int], DuckSeq=DuckSeq, array=array.array, GenericList=GenericList, GenericList_int=GenericList[int], List_Dict=List[Dict[str, int]],
        abc_Sequence_int=collections.abc.Sequence[int])
    add('mapping', dict=dict, OrderedDict=collections.OrderedDict, defaultdict=collections.defaultdict, MappingProxyType=types.MappingProxyType, ChainMap=collections.ChainMap, UserDict=collections.UserDict, MyDict=MyDict, SubMyDict=SubMyDict, AbcMap=AbcMap,
        abc_Mapping=collections.abc.Mapping, abc_MutableMapping=collections.abc.MutableMapping, Dict=Dict, Dict_str_int=Dict[str, int], dict_str_int=dict[str, int], Mapping=Mapping, Mapping_str_int=Mapping[str, int],
        DefaultDict_str_int=DefaultDict[str, int], OrderedDict_str_int=typing.OrderedDict[str, int], DuckMap=DuckMap, MyDefaultDict=MyDefaultDict, SubDefaultDict=SubDefaultDict, GenericDict=GenericDict, GenericDict_str_int=GenericDict[str, int], Counter=collections.Counter,
        Dict_str_list=Dict[str, List[int]])
    add('other', bytes=bytes, MyBytes=MyBytes, set=set, Set_int=Set[int], frozenset=frozenset, Plain=Plain, Args=Args, GenericPlain=GenericPlain, GenericPlain_int=GenericPlain[int], Color=Color, Perm=Perm, DC=DC, object=object, type=type,
        NoneType=type(None), complex=complex, date=datetime.date, slice=slice, Any=Any, Union_=Union[int, str], Optional_=Optional[int], Literal_=Literal[1], Literal_list=Literal['a', 'b'], Callable_=Callable, T=T, Logger=logging.Logger,
        IntLike=IntLike, WithMeta=WithMeta, DuckIter=DuckIter, Annotated_int=Annotated[int, 'x'], Type_int=Type[int],
        ImplInt=ImplInt, Generic_bare=Generic, Generic_T=Generic[T], Protocol_bare=Protocol, Protocol_T=Protocol[T], bare_Union=Union, bare_Optional=Optional, bare_ClassVar=ClassVar, NoReturn=NoReturn, LiteralString=LiteralString)
    return out
