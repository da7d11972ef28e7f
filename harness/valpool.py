"""Values of every kind for the round-trip checks: generators of (object, description) pairs.

A description is a term [k, v, c] of spec/SkopsValue.tla (its k decides whether the value belongs to the
supported families; v and the parts of opaque values are not used there)."""
from __future__ import annotations

import array as array_
import collections
import copyreg
import dataclasses
import datetime
import decimal
import enum
import fractions
import functools
import ipaddress
import itertools
import operator
import pathlib
import random as random_
import re
import string
import threading
import types
import typing
import uuid
import weakref

import numpy as np
import scipy.sparse as sp
import scipy.special
import vtypes


def D(k, c=(), v=""):
    return {"k": k, "v": v, "c": list(c)}


# ------------------------------------------------------------------ atoms
INTS = [0, 1, -1, 2**31, -(2**63), 2**64, 10**30, 7]
FLOATS = [0.0, -0.0, 1.5, -2.25, 1e308, 5e-324, float("inf"), float("-inf"), float("nan"), 0.1, 1e22, 123456789.123456789]
STRS = ["", "a", "é", "\U0001F600", "a\nb", "\x00", "\x7f", "1", "true", "null", '"q"', "\\", "\ud800", "\u2028", "/", "k" * 300,
        "__class__", "NaN", " x ", "\r\n", "Infinity"]
BYTES = [b"", b"a", b"\x00\xff", bytes(range(256)), b"\r\n", b"x" * 5000]

SIMPLE = ("? i1 i2 i4 i8 u1 u2 u4 u8 f2 f4 f8 g F D G S0 S1 S5 U0 U1 U4 V3 V8 M8[D] M8[ns] M8 m8[s] m8 M8[25us] "
          "S12 U30").split()
STRUCTS = [[("a", "i4"), ("b", "f8")], [("a", ">i2"), ("b", "S3"), ("c", "M8[D]")], [("x", [("y", "i1"), ("z", "f4", (2,))])],
           [("a", "f8", (2, 3)), ("b", "?")], {"names": ["a", "b"], "formats": ["i1", "f8"], "offsets": [0, 8], "itemsize": 24},
           [("é", "i4")], [(("title", "name"), "i4")], [("", "i4"), ("b", "i1")]]
SHAPES = [(), (0,), (1,), (3,), (2, 3), (3, 1), (1, 3), (0, 3), (2, 0, 2), (1, 1, 1), (2, 3, 4), (5,), (2, 2, 1, 2)]


def dtypes():
    res = []
    for s in SIMPLE:
        d = np.dtype(s)
        res.append(d)
        if d.byteorder != "|":
            res.append(d.newbyteorder(">"))
    return res + [np.dtype(x) for x in STRUCTS]


DTYPES = dtypes()


def fill(r, dt, shape):
    """random elements"""
    n = int(np.prod(shape))
    g = np.random.RandomState(r.randrange(1 << 30))
    if dt.names is not None:
        a = np.zeros(shape, dt)
        for f in dt.names:
            sub = dt.fields[f][0]
            if sub.subdtype is not None:
                a[f] = fill(r, sub.subdtype[0], shape + sub.subdtype[1])
            else:
                a[f] = fill(r, sub, shape)
        return a
    k = dt.kind
    if k == "b":
        v = g.randint(0, 2, n).astype(bool)
    elif k in "iu":
        info = np.iinfo(dt)
        v = np.array([r.choice([info.min, info.max, 0, 1, 5]) for _ in range(n)], dtype=dt)
    elif k in "fc":
        v = np.array([r.choice([0.0, -0.0, 1.5, np.inf, -np.inf, np.nan, 3.25, -7.0, 0.1]) for _ in range(n)])
        if k == "c":
            v = v + 1j * np.array([r.choice([0.0, -0.0, 1.5, np.nan]) for _ in range(n)])
        v = v.astype(dt)
    elif k in "SU":
        m = dt.itemsize if k == "S" else dt.itemsize // 4
        pool = [b"", b"a", b"a\x00b", b"\xff\x00"] if k == "S" else ["", "a", "é", "\U0001F600", "a\x00b"]
        v = np.array([r.choice(pool)[:m] for _ in range(n)], dtype=dt) if n else np.empty(0, dt)
    elif k == "V":
        v = np.frombuffer(bytes(r.randrange(256) for _ in range(n * dt.itemsize)), dtype=dt).copy() if n else np.empty(0, dt)
    else:  # M m
        v = np.array([r.choice([0, 1, -5, 10**6, np.iinfo("i8").min]) for _ in range(n)], dtype="i8").view(
            np.dtype(dt.str.replace(">", "<").replace("=", "<"))).astype(dt)
    return v.reshape(shape).astype(dt)


def array(r, dt=None, shape=None, lay=None):
    dt = dt if dt is not None else r.choice(DTYPES)
    shape = shape if shape is not None else r.choice(SHAPES)
    a = fill(r, dt, shape)
    lay = lay or r.choice("C C F strided neg T bcast ro".split())
    if a.ndim == 0:
        return a
    if lay == "F":
        return np.asfortranarray(a)
    if lay == "strided":
        return np.repeat(a, 2, axis=-1)[..., ::2]
    if lay == "neg":
        return a[::-1]
    if lay == "T":
        return a.T
    if lay == "bcast" and a.shape[0] == 1:
        return np.broadcast_to(a, (3,) + a.shape[1:])
    if lay == "ro":
        a.flags.writeable = False
    return a


def scalar(r):
    """numpy scalars"""
    a = fill(r, r.choice([d for d in DTYPES if d.itemsize or d.kind in "SU"]).newbyteorder("="), (1,))
    return a[0]


def masked(r):
    dt = r.choice([d for d in DTYPES if d.kind != "V" or d.names is not None])
    shape = r.choice(SHAPES)
    a = array(r, dt, shape)
    try:
        if dt.names is not None:
            mask = np.ma.nomask
        else:
            mask = r.choice([np.ma.nomask, np.random.RandomState(r.randrange(99)).rand(*a.shape) < 0.5, True, False])
        m = np.ma.MaskedArray(a, mask=mask, hard_mask=r.random() < 0.3)
        if r.random() < 0.4 and dt.kind in "iufb":
            m.fill_value = r.choice([1, 0, 3])
        elif r.random() < 0.4 and dt.kind in "U":
            m.fill_value = "z"
        if r.random() < 0.2:
            m.fill_value  # noqa: B018  (computes the default)
        if r.random() < 0.2 and m.ndim == 2:
            m = m.T
        return m
    except (TypeError, ValueError):
        return np.ma.array([1, 2], mask=[0, 1])


BITGENS = ["MT19937", "PCG64", "PCG64DXSM", "Philox", "SFC64"]


def gen(r):
    seed = r.choice([None, 0, 1, 2**40, [1, 2, 3]])
    ss = np.random.SeedSequence(seed if seed is not None else 12345, spawn_key=r.choice([(), (1,), (2, 3)]),
                                pool_size=r.choice([4, 8]))
    g = np.random.Generator(getattr(np.random, r.choice(BITGENS))(ss))
    for _ in range(r.randrange(4)):
        r.choice([lambda: g.random(r.randrange(700)), lambda: g.integers(0, 5, dtype=np.int32),
                  lambda: g.standard_normal(3), lambda: g.spawn(1), lambda: g.integers(0, 9, dtype=np.uint8),
                  lambda: g.standard_gamma(1.0, dtype=np.float32)])()
    return g


def rs(r):
    s = (np.random.RandomState(r.choice([0, 1, 2**31, [3, 4]])) if r.random() < 0.6
         else np.random.RandomState(getattr(np.random, r.choice(BITGENS))(r.randrange(9))))
    for _ in range(r.randrange(4)):
        r.choice([lambda: s.randn(), lambda: s.rand(r.randrange(700)), lambda: s.randint(0, 5, dtype=np.int32),
                  lambda: s.standard_normal(1), lambda: s.bytes(3)])()
    return s


def sparse(r):
    fmt = r.choice(["csr", "csc", "coo", "bsr", "dia"])
    arr = r.random() < 0.5
    cls = getattr(sp, f"{fmt}_{'array' if arr else 'matrix'}")
    shape = r.choice([(3, 3), (0, 0), (1, 4), (4, 1), (2, 6), (0, 3), (5, 2)])
    dt = np.dtype(r.choice(["f8", "f4", "i4", "i8", "?", "F", "D", "u1", "i2"]))
    g = np.random.RandomState(r.randrange(1 << 30))
    x = (g.rand(*shape) < 0.5) * g.randint(1, 9, shape)
    if fmt == "bsr" and 0 in shape:
        shape = (2, 6)
        x = g.randint(0, 3, shape)
    m = cls(x.astype(dt))
    y = r.random()
    if fmt in ("csr", "csc") and m.nnz > 1 and y < 0.3:
        # not sorted, with an explicit zero and duplicates
        m.data[0] = 0
        m.indices = m.indices[::-1].copy()
        m.has_sorted_indices = False
        m.has_canonical_format = False
    elif fmt == "coo" and m.nnz > 1 and y < 0.3:
        m = cls((np.r_[m.data, m.data], (np.r_[m.row, m.row], np.r_[m.col, m.col])), shape=m.shape)
    elif fmt == "bsr" and y < 0.5:
        m = cls(m, blocksize=(1, 1) if y < 0.2 else (1, 2) if shape[1] % 2 == 0 else (1, 1))
    elif fmt == "csr" and arr and y > 0.8:
        m = sp.csr_array(x.astype(dt)) if shape[0] else m
    return m


UFUNCS = sorted({n for m in (np,) for n, f in vars(np).items() if isinstance(f, np.ufunc) and f.__name__ == n})
SUFUNCS = sorted(n for n, f in vars(scipy.special).items() if isinstance(f, np.ufunc) and f.__name__ == n)
TYPES = [int, float, str, bool, list, dict, set, tuple, bytes, np.float64, np.int8, np.ndarray, np.bool_, np.str_,
         collections.OrderedDict, vtypes.Plain, decimal.Decimal, type(None), object, type, Exception, slice]


def ufunc(r):
    return getattr(np, r.choice(UFUNCS)) if r.random() < 0.6 else getattr(scipy.special, r.choice(SUFUNCS))


def oarray(r, cell=None, shape=None):
    shape = shape or r.choice([(1,), (3,), (2, 2), (1, 2, 3), (3, 1), (4,), (1, 1)])
    a = np.empty(shape, dtype=object)
    ds = []
    for i in np.ndindex(*shape):
        o, d = cell(r) if cell else atom(r, ("none", "bool", "int", "float", "str"))
        a[i] = o
        ds.append(d)
    y = r.random()
    if y < 0.2:
        a = np.asfortranarray(a)
    elif y < 0.3:
        a = np.repeat(a, 2, axis=0)[::2]
    return a, D("oarray", ds, "n")


def bytes_(r):
    return r.choice(BYTES)


ATOMS = {
    "none": lambda r: None, "bool": lambda r: r.random() < 0.5, "int": lambda r: r.choice(INTS),
    "float": lambda r: r.choice(FLOATS), "str": lambda r: r.choice(STRS),
    "bytes": bytes_, "bytearray": lambda r: bytearray(bytes_(r)),
    "array": array, "npscalar": scalar, "masked": masked, "rs": rs, "gen": gen, "sparse": sparse,
    "dtype": lambda r: r.choice(DTYPES), "ufunc": ufunc, "type": lambda r: r.choice(TYPES),
    "npint": lambda r: getattr(np, r.choice("int8 int16 int32 int64 uint8 uint16 uint32 uint64".split()))(r.choice([0, 1, 7, 100])),
    "npfloat": lambda r: getattr(np, r.choice("float16 float32 float64".split()))(r.choice([0.0, -0.0, 1.5, 0.1, np.inf, np.nan, 1e4])),
    "nplong": lambda r: np.longdouble(r.choice(["1.5", "0.1", "nan", "-inf"])),
    "function": lambda r: r.choice([vtypes.fun, np.mean, len, datetime.datetime.now, np.random.default_rng]),
}


def atom(r, kinds=None):
    k = r.choice(kinds) if kinds else r.choice(list(ATOMS))
    o = ATOMS[k](r)
    return o, D(k)


HASHABLE = ("none", "bool", "int", "float", "str", "bytes", "npint", "npfloat", "type")
KEYS = ("str", "str", "int", "float", "npint", "npfloat", "nplong")


def getter(r):
    if r.random() < 0.5:
        names = r.choice([["a"], ["a.b"], ["a", "b.c"], ["é"]])
        return operator.attrgetter(*names), D("attrgetter", [D("str") for _ in names])
    args = [atom(r, ("int", "str", "none", "bytes"))for _ in range(r.randint(1, 3))]
    if r.random() < 0.2:
        args.append((slice(1, None), D("slice", [D("int"), D("none"), D("none")])))
    return operator.itemgetter(*[a for a, _ in args]), D("itemgetter", [d for _, d in args])


def slice_(r):
    xs = [(r.choice([None, 0, 1, -3, 2**40])) for _ in range(3)]
    return slice(*xs), D("slice", [D("none" if x is None else "int") for x in xs])


def supported(r, depth):
    """a value of the supported families"""
    if depth == 0 or r.random() < 0.15:
        y = r.random()
        if y < 0.15:
            return oarray(r)
        if y < 0.25:
            return getter(r)
        if y < 0.3:
            return slice_(r)
        k = r.choice([k for k in ATOMS if k not in ("function", "nplong")])
        return ATOMS[k](r), D(k)
    k = r.choice(["list", "tuple", "set", "dict", "dict", "odict", "ddict", "partial"])
    n = r.choice([0, 1, 2, 3, 5])
    if k in ("list", "tuple"):
        xs = [supported(r, depth - 1) for _ in range(n)]
        return (list if k == "list" else tuple)(x for x, _ in xs), D(k, [d for _, d in xs])
    if k == "set":
        xs = [atom(r, HASHABLE[:8]) for _ in range(n)]
        return {x for x, _ in xs}, D(k, [d for _, d in xs])
    if k == "partial":
        f, fd = (ufunc(r), D("ufunc")) if r.random() < 0.6 else (r.choice([int, dict, list, np.float32]), D("type"))
        xs = [supported(r, depth - 1) for _ in range(r.randint(0, 2))]
        kw = {f"k{j}": supported(r, depth - 1) for j in range(r.randint(0, 2))}
        o = functools.partial(f, *[x for x, _ in xs], **{j: x for j, (x, _) in kw.items()})
        if isinstance(f, np.ufunc) and r.random() < 0.2:
            o.note = 3
        return o, D(k, [fd, *[d for _, d in xs], *[d for _, d in kw.values()]])
    ks = [atom(r, KEYS[:6] if r.random() < 0.8 else KEYS) for _ in range(n)]
    if r.random() < 0.5:
        ks = [atom(r, (r.choice(KEYS[:6]),)) for _ in range(n)]
    items, res = [], {}
    for key, kd in ks:
        if key in res or key != key:
            continue
        v, vd = supported(r, depth - 1)
        res[key] = v
        # (numbers of numpy are one family for keys)
        items.append(D("item", [kd if kd["k"] != "nplong" else D("npfloat"), vd]))
    if k == "dict":
        return res, D(k, items)
    if k == "odict":
        o = collections.OrderedDict(res)
        if r.random() < 0.3 and res:
            o.move_to_end(next(iter(o)))
            items = items[1:] + items[:1]
        return o, D(k, items)
    f, fd = r.choice([(None, D("none")), (list, D("type")), (int, D("type")), (dict, D("type"))])
    return collections.defaultdict(f, res), D("ddict", [fd, *items])


# ------------------------------------------------------------------ values outside of the supported families
class IE(enum.IntEnum):
    A = 1
    B = 2


class E(enum.Enum):
    A = 1
    B = "x"


class F(enum.Flag):
    A = 1
    B = 2


class StrE(str, enum.Enum):
    A = "a"


class SI(int):
    pass


class SS(str):
    pass


class SF(float):
    pass


class SL(list):
    pass


class SD(dict):
    pass


class ST(tuple):
    pass


class SSet(set):
    pass


class SB(bytes):
    pass


class SOD(collections.OrderedDict):
    pass


class SDD(collections.defaultdict):
    pass


class SP(functools.partial):
    pass


class SA(np.ndarray):
    pass


class SRS(np.random.RandomState):
    pass


class SGen(np.random.Generator):
    pass


class SMA(np.ma.MaskedArray):
    pass


class SCSR(sp.csr_matrix):
    pass


class SSlots(list):
    __slots__ = ("a",)


class NewArgs:
    def __new__(cls, a):
        o = super().__new__(cls)
        o.a = a
        return o

    def __getnewargs__(self):
        return (self.a,)


class NewArgsEx:
    def __new__(cls, *, a):
        o = super().__new__(cls)
        o.a = a
        return o

    def __getnewargs_ex__(self):
        return (), {"a": self.a}


class ReduceArgs:
    def __init__(self, *a):
        self.a = a

    def __reduce__(self):
        return (ReduceArgs, tuple(self.a))


class ReduceState:
    def __init__(self, a):
        self.a = a

    def __reduce__(self):
        return (ReduceState, (self.a,), {"y": 1})


class ReduceStateEmptyCtor:
    def __init__(self):
        self.a = 5

    def __reduce__(self):
        return (ReduceStateEmptyCtor, (), {"a": self.a})


class ReduceItems(list):
    def __reduce__(self):
        return (ReduceItems, (), None, iter(list(self)))


class ReduceFn:
    def __init__(self, a):
        self.a = a

    def __reduce__(self):
        return (make_reduce_fn, (self.a,))


def make_reduce_fn(a):
    return ReduceFn(a)


class ReduceStr:
    def __reduce__(self):
        return "REDUCED"


REDUCED = ReduceStr()


class StateList:
    def __init__(self, a):
        self.a = a

    def __getstate__(self):
        return [self.a, 1]

    def __setstate__(self, s):
        self.a = s[0]


class StateFalsy:
    def __init__(self):
        self.a = 1

    def __getstate__(self):
        return {}

    def __setstate__(self, s):
        self.a = 1


class StateNone:
    def __init__(self):
        pass

    def __getstate__(self):
        return None


class SetOnly:
    def __init__(self, a):
        self.a = a

    def __setstate__(self, s):
        self.__dict__.update(s)


class SlotsDict:
    __slots__ = ("a", "__dict__")


class SlotsSub(vtypes.Slots):
    __slots__ = ("c",)


class SlotsPrivate:
    __slots__ = ("__p",)

    def __init__(self):
        self.__p = 1


class Outer:
    class Inner:
        def __init__(self):
            self.x = 1

    class M:
        pass


class M:
    def f(self):
        return 1

    def g(self):
        return 2

    h = lambda self: 3  # noqa: E731

    @classmethod
    def c(cls):
        return 4

    @staticmethod
    def s():
        return 5

    alias = f

    def __call__(self):
        return 6

    def __eq__(self, o):
        return type(o) is type(self)

    __hash__ = object.__hash__


class M2(M):
    def f(self):
        return 10


class Meta(type):
    def __call__(cls, *a):
        return super().__call__(*a)


class WithMeta(metaclass=Meta):
    def __init__(self):
        self.x = 1


class Descr:
    """an attribute that a property computes"""

    def __init__(self, a):
        self._a = a

    @property
    def a(self):
        return self._a


class Frozen:
    """attributes cannot be set"""

    def __init__(self, a):
        self.__dict__["a"] = a

    def __setattr__(self, k, v):
        raise AttributeError(k)


class Copied:
    """copyreg gives the reduction"""

    def __init__(self, a):
        self.a = a


def unpickle_copied(a):
    return Copied(a)


copyreg.pickle(Copied, lambda o: (unpickle_copied, (o.a,)))

NT = collections.namedtuple("NT", "a b")


class NT2(NT):
    pass


class NT3(typing.NamedTuple):
    a: int
    b: str = "x"


@dataclasses.dataclass
class DC:
    a: int
    b: list


@dataclasses.dataclass(frozen=True)
class DCF:
    a: int


@dataclasses.dataclass(slots=True)
class DCS:
    a: int


def deco(f):
    @functools.wraps(f)
    def w(*a):
        return f(*a)

    return w


def ff(x=1):
    return x


wrapped = deco(ff)
cached = functools.lru_cache(ff)
lam = lambda x: x  # noqa: E731


def renamed(x):
    return x


renamed2 = renamed
renamed.__name__ = renamed.__qualname__ = "ff"


class Err(ValueError):
    def __init__(self, a, b):
        super().__init__(a)
        self.b = b


def slotted():
    s = SlotsDict()
    s.a = 1
    s.q = [2]
    x = SlotsSub()
    x.c = 3
    y = vtypes.Slots()
    del y.a
    return [s, x, y, SlotsPrivate()]


def with_attrs(o, **kw):
    for k, v in kw.items():
        setattr(o, k, v)
    return o


def closure(n):
    def f(x):
        return x + n

    return f


def wild():
    """makers of values that dump may or may not persist"""
    m2 = M2()
    plain = vtypes.Plain
    oa = np.empty((2, 2), dtype=object)
    for i in np.ndindex(2, 2):
        oa[i] = [1, 2]
    ragged = np.empty(3, dtype=object)
    ragged[:] = [[1], (2, 3), np.arange(2)]
    res = {
        # dict keys
        **{f"key{j}": {k: [1], "z": 2} for j, k in enumerate([
            True, None, (1, 2), np.bool_(True), np.datetime64("2020"), IE.A, SS("a"), b"a", np.str_("a"), np.float32(0.1),
            np.longdouble("0.1"), 1 + 2j, E.A, frozenset({1}), int, np.float64("nan"), float("nan"), SI(4), decimal.Decimal(1),
            datetime.date(2020, 1, 1), np.bytes_(b"x"), StrE.A, (), ((1,), "a"), ff, np.timedelta64(1, "s"), -0.0,
            "\ud800", np.complex64(1), 10**40, 1e300, ""])},
        "collide": {1: "a", "1": "b", 1.5: "c", "1.5": "d"}, "collide2": {np.int64(1): "a", "1": 2},
        "collide3": {"null": 1, None: 2, "true": 3, True: 4}, "mixedkeys": {1: 1, "a": 2, None: 3, (1,): 4},
        "nankeys": {float("nan"): 1, np.float64("nan"): 2}, "intfloat": {1: 1, 2.0: 2, "2": 3, "2.0": 4},
        # containers
        "frozenset": frozenset({1, "a"}), "deque": collections.deque([1, 2]), "dequemax": collections.deque([1], maxlen=3),
        "Counter": collections.Counter("aab"), "chainmap": collections.ChainMap({"a": 1}),
        "userdict": collections.UserDict({"a": 1}), "userlist": collections.UserList([1]),
        "NT": NT(1, [2]), "NT2": NT2(1, 2), "NT3": NT3(1), "range": range(3), "mappingproxy": types.MappingProxyType({"a": 1}),
        "SL": with_attrs(SL([1]), x=[2]), "SL0": SL(), "SD": with_attrs(SD(a=1), y=2), "ST": with_attrs(ST((1,)), z=3),
        "SSet": with_attrs(SSet({1}), x=1), "SOD": with_attrs(SOD(a=1), x=1), "SDD": with_attrs(SDD(list, a=[1]), x=1),
        "SSlots": with_attrs(SSlots([1]), a=2), "SP": SP(ff, 1), "ddfun": collections.defaultdict(ff, {"a": 1}),
        "ddpartial": collections.defaultdict(functools.partial(int, "3"), {1: 1}),
        "ddmethod": collections.defaultdict(m2.f), "memoryview": memoryview(b"a"), "arrayarray": array_.array("i", [1]),
        "attrlist": with_attrs(SL([[1]]), x=1, __doc2__="a"), "odict-attr": with_attrs(SOD(), x=1),
        "key_types": {"key_types": 1, "content": {"keys": []}}, "keylike": {"__id__": 1, "__loader__": "JsonNode", "__class__": 2},
        "setmix": {1, "a", None, (1, 2), frozenset({2}), 1.5}, "emptynest": [[], [[]], {}, {"a": {}}, (), ((),), set(), ""],
        # scalars
        "complex": 1j, "IE": IE.A, "E": E.B, "Flag": F.A | F.B, "StrE": StrE.A, "SI": SI(3), "SS": SS("x"), "SF": SF(1.0),
        "SB": SB(b"x"), "SIattr": with_attrs(SI(3), x=1), "bigint": 10**400, "negzero": -0.0, "nan": float("nan"),
        "surrogatepair": "\ud83d\ude00", "surrogate": "a\udc80", "ellipsis": ..., "notimpl": NotImplemented,
        "dec": decimal.Decimal("1.50"), "decnan": decimal.Decimal("sNaN"), "frac": fractions.Fraction(1, 3),
        "date": datetime.date(2020, 1, 2), "dt": datetime.datetime(2020, 1, 2, 3, 4, 5, 6, fold=1),
        "dttz": datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc), "tz": datetime.timezone.utc,
        "td": datetime.timedelta(1, 2, 3), "time": datetime.time(1, 2, fold=1), "uuid": uuid.UUID(int=5),
        "path": pathlib.Path("a/b"), "pure": pathlib.PureWindowsPath("a\\b"), "ip": ipaddress.ip_address("1.2.3.4"),
        "net": ipaddress.ip_network("10.0.0.0/8"),
        # instances
        "slots": slotted(), "NewArgs": NewArgs(1), "NewArgsEx": NewArgsEx(a=1), "ReduceArgs": ReduceArgs(1, [2]),
        "ReduceArgs0": ReduceArgs(), "ReduceState": ReduceState(1), "ReduceStateEmptyCtor": ReduceStateEmptyCtor(),
        "ReduceItems": ReduceItems([1]), "ReduceFn": ReduceFn(1), "ReduceStr": REDUCED, "StateList": StateList(3),
        "StateFalsy": StateFalsy(), "StateNone": StateNone(), "SetOnly": SetOnly([1]), "inner": Outer.Inner(),
        "outerM": Outer.M(), "meta": WithMeta(), "descr": Descr([1]), "frozen": Frozen(1), "copied": Copied(2),
        "DC": DC(1, [2]), "DCF": DCF(1), "DCS": DCS(1), "object": object(), "plainempty": plain(),
        "plainodd": with_attrs(plain(a=1), **{"é": 2, "a b": 3, "__class2__": 4}), "getset": vtypes.GetSet([1]),
        "intattr": (lambda p: (p.__dict__.update({1: 2, "a": 3}), p)[1])(plain()), "err": ValueError(1, 2), "err2": Err(1, 2),
        "errattr": with_attrs(ValueError("x"), note=1), "oserr": OSError(2, "x", "f"), "namespace": types.SimpleNamespace(a=1),
        "local": type("Local", (), {"__module__": "valpool"})(), "shadow": type("M", (), {"__module__": "valpool"})(),
        "random": random_.Random(3), "template": string.Template("a"), "regex": re.compile("a"), "lock": threading.Lock(),
        "modl": np, "gen": (i for i in ()), "iter": iter([1]), "count": itertools.count(3), "map": map(str, [1]),
        "zip": zip([1], [2]), "rev": reversed([1]), "code": ff.__code__, "weak": weakref.ref(m2), "super": super(M2, m2),
        "genericalias": list[int], "typingalias": typing.List[int], "union": int | str, "typevar": typing.TypeVar("Tv"),
        "prop": {"a": property(), "b": 1}, "property": property(ff), "classm": M.__dict__["c"], "staticm": M.__dict__["s"],
        "logger": __import__("logging").getLogger("x"), "struct": __import__("struct").Struct("i"),
        "bytesio": __import__("io").BytesIO(b"a"), "stringio": __import__("io").StringIO("a"),
        # callables
        "meth": m2.f, "supermeth": super(M2, m2).f, "lammeth": m2.h, "cm": M.c, "cminst": m2.c, "sm": m2.s, "alias": m2.alias,
        "nestedtype": Outer.M, "wrapped": wrapped, "cached": cached, "lam": lam, "renamed": renamed2, "closure": closure(1),
        "append": [].append, "strjoin": ",".join, "sin": __import__("math").sin, "len": len, "npmean": np.mean,
        "rand": np.random.rand, "rsmeth": np.random.RandomState(0).rand, "dictget": {"a": 1}.get, "fromhex": bytes.fromhex,
        "nowm": datetime.datetime.now, "wrapperdescr": int.__add__, "slotwrapper": (1).__add__, "npvec": np.vectorize(ff),
        "frompyfunc": np.frompyfunc(ff, 1, 1), "partialfn": functools.partial(ff, 1), "partialnest": functools.partial(functools.partial(ff, 1), 2),
        "partialattr": with_attrs(functools.partial(ff), x=[1]), "partialm": functools.partialmethod(ff, 1),
        "ag": operator.attrgetter("a.b", "c"), "ig": operator.itemgetter([1], {"a": 2}), "mc": operator.methodcaller("f", 1, [2]),
        "mckw": operator.methodcaller("f", 1, x=2), "cmpkey": functools.cmp_to_key(ff), "callable": M(),
        "ufuncmeth": np.add.reduce, "nestfun": {"f": [ff, {"g": wrapped}]},
        # types
        "nonetype": type(None), "functype": types.FunctionType, "anontype": type("Anon", (), {}), "dtypetype": np.dtypes.Float64DType,
        "meta2": Meta, "abc": collections.abc.Mapping, "enumtype": E,
        # numpy
        "oa": oa, "ragged": ragged, "o0": np.array(None, dtype=object), "oe": np.empty((0, 3), dtype=object),
        "oarr": np.array([np.arange(3), None], dtype=object), "omat": np.array([[1, "a"]], dtype=object).view(np.matrix),
        "oobj": np.array([plain(a=1), plain()], dtype=object), "onested": np.array([{"a": [1]}, None, (1,)], dtype=object),
        "mat": np.matrix([[1, 2]]), "rec": np.rec.array([(1, 2.0)], dtype=[("a", int), ("b", float)]),
        "record": np.rec.array([(1, 2.0)], dtype=[("a", int), ("b", float)])[0], "void": np.zeros(1, [("a", "i4"), ("b", "f8")])[0],
        "structobj": np.array([(1, [2])], dtype=[("a", int), ("b", object)]), "void8": np.void(b"ab\x00"),
        "chararray": np.char.array(["a", "b "]), "SA": with_attrs(np.arange(3).view(SA), x=1), "SA0": np.array(3).view(SA),
        "SMA": np.ma.array([1, 2], mask=[0, 1]).view(SMA), "masked": np.ma.masked, "mvoid": np.ma.array([(1, 2.0)], dtype=[("a", int), ("b", float)], mask=[(0, 1)])[0],
        "mstruct": np.ma.array([(1, 2.0)], dtype=[("a", int), ("b", float)], mask=[(0, 1)], fill_value=(3, 4.0)),
        "mobj": np.ma.array([1, "a", None], mask=[0, 1, 0], dtype=object), "mrecords": np.ma.mrecords.fromarrays([[1, 2]], names="a") if hasattr(np.ma, "mrecords") else None,
        "mshared": np.ma.array([1, 2, 3], shrink=False), "dtO": np.dtype("O"), "dtsub": np.dtype(("i4", (2,))), "dtstruct": np.dtype([("a", "O")]),
        "dtalign": np.dtype([("a", "i1"), ("b", "i8")], align=False), "dtrec": np.dtype((np.record, [("a", "i4")])),
        "StringDType": np.array(["a", "bb"], dtype=np.dtypes.StringDType()), "SRS": with_attrs(SRS(3), foo=[1]),
        "SGen": with_attrs(SGen(np.random.PCG64(1)), foo=1), "bitgen": np.random.PCG64(3), "seedseq": np.random.SeedSequence(3),
        "poly": np.poly1d([1, 2]), "polynomial": np.polynomial.Polynomial([1, 2]), "npstr": np.str_("x\x00"), "npbytes": np.bytes_(b"x\x00"),
        "datetime64": [np.datetime64("2020-01"), np.datetime64("NaT"), np.timedelta64(3), np.timedelta64("NaT", "h")],
        "npstrsub": np.str_("é"), "npboolscalar": [np.bool_(0), np.True_], "flagsro": (lambda a: (a.setflags(write=False), a)[1])(np.arange(3)),
        "memmapless": np.arange(4)[1:3], "bigendian": np.arange(3, dtype=">i4")[1], "ndenum": np.ndenumerate([1]),
        "newaxis": np.arange(3)[:, None], "bool8": np.array(True), "longdouble": np.longdouble(1) / 3, "clongdouble": np.clongdouble(1) / 3,
        # scipy
        "lil": sp.lil_matrix(np.eye(2)), "lila": sp.lil_array(np.eye(2)), "dok": sp.dok_matrix(np.eye(2)), "doka": sp.dok_array(np.eye(2)),
        "SCSR": with_attrs(SCSR(np.eye(2)), x=1), "csrattr": with_attrs(sp.csr_matrix(np.eye(2)), note=1),
        "coo1d": sp.coo_array(np.array([0, 1, 2])),
        "csr64": sp.csr_matrix((np.ones(1), np.array([0], dtype=np.int64), np.array([0, 1], dtype=np.int64))),
        "csrobj": sp.csr_matrix(np.eye(2)).astype("f4"), "linop": sp.linalg.aslinearoperator(np.eye(2)),
        "rv": __import__("scipy.stats").stats.norm(0, 1), "interp": __import__("scipy.interpolate").interpolate.interp1d([0, 1], [1, 2]),
        "csrdup": sp.csr_array((np.array([1.0, 2.0]), np.array([0, 0]), np.array([0, 2])), shape=(1, 2)),
    }
    import pandas as pd

    res.update({
        "df": pd.DataFrame({"a": [1, 2], "b": ["x", None]}), "series": pd.Series([1, 2], name="s"), "index": pd.Index([1, 2]),
        "ts": pd.Timestamp("2020"), "nat": pd.NaT, "na": pd.NA, "period": pd.Period("2020"), "interval": pd.Interval(1, 2),
        "pdtd": pd.Timedelta("1s"), "cat": pd.Categorical(["a", "b"]), "catdtype": pd.CategoricalDtype(["a"]), "int64dtype": pd.Int64Dtype(),
    })
    from sklearn.metrics import DistanceMetric, make_scorer
    from sklearn.neighbors import BallTree, KDTree
    from sklearn.utils import Bunch

    res.update({
        "bunch": with_attrs(Bunch(a=1, b=[2]), ), "kdtree": KDTree(np.arange(6.0).reshape(3, 2)), "balltree": BallTree(np.arange(6.0).reshape(3, 2)),
        "metric": DistanceMetric.get_metric("minkowski", p=3), "scorer": make_scorer(np.mean, greater_is_better=False),
    })
    cyc = [1]
    cyc.append(cyc)
    cycd = {}
    cycd["a"] = cycd
    cycp = plain()
    cycp.me = cycp
    cyca = np.empty(1, dtype=object)
    cyca[0] = cyca
    deep = 1
    for _ in range(120):
        deep = [deep]
    res.update({"cycle": cyc, "cycled": cycd, "cyclep": cycp, "cyclea": cyca, "deep": deep})
    return res


def leaf(r, pool):
    k = r.choice(pool)
    return k


def nest(r, xs, depth):
    """values put into containers and attributes"""
    if depth == 0:
        return r.choice(xs)
    n = r.choice([1, 1, 2, 3])
    kids = [nest(r, xs, depth - 1) if r.random() < 0.6 else supported(r, 1)[0] for _ in range(n)]
    k = r.choice("list tuple dict odd ddict plain getset partial sl sd oarray slice reduce nt attr set mc slots".split())
    try:
        if k == "list":
            return kids
        if k == "tuple":
            return tuple(kids)
        if k == "dict":
            return {f"k{j}": x for j, x in enumerate(kids)}
        if k == "odd":
            keys = r.sample([None, True, (1,), "a", 1.5, "1", np.int64(1), b"k", E.A], len(kids))
            return dict(zip(keys, kids))
        if k == "ddict":
            return collections.defaultdict(r.choice([list, None, ff]), {j: x for j, x in enumerate(kids)})
        if k == "plain":
            return vtypes.Plain(**{f"a{j}": x for j, x in enumerate(kids)})
        if k == "getset":
            return vtypes.GetSet(kids[0])
        if k == "partial":
            return functools.partial(r.choice([ff, np.add, dict]), *kids[:1], **{f"k{j}": x for j, x in enumerate(kids[1:])})
        if k == "sl":
            return with_attrs(SL(kids), note=kids[0])
        if k == "sd":
            return with_attrs(SD(x=kids[0]), note=kids[-1])
        if k == "oarray":
            a = np.empty(len(kids) if r.random() < 0.5 else (1, len(kids)), dtype=object)
            for i, x in zip(np.ndindex(*a.shape), kids):
                a[i] = x
            return a
        if k == "slice":
            return slice(*(kids + [None, None])[:3])
        if k == "reduce":
            return ReduceArgs(*kids)
        if k == "nt":
            return NT(kids[0], kids[-1])
        if k == "attr":
            return with_attrs(SA.__array_finalize__ and np.arange(2).view(SA), note=kids[0])
        if k == "set":
            return set(kids)
        if k == "mc":
            return operator.methodcaller("f", *kids)
        if k == "slots":
            return vtypes.Slots(kids[0], kids[-1])
    except TypeError:
        return kids
    return kids


# ------------------------------------------------------------------ values of the specification
def concrete(d, r):
    """a value with the description d (of the bounded instance of the specification)"""
    k, c = d["k"], d["c"]

    def all_():
        return [concrete(x, r) for x in c]

    def items(its):
        return [(key(x["c"][0]), concrete(x["c"][1], r)) for x in its]

    def key(x):
        fixed = {"str": str, "int": int, "float": float, "npint": np.int64, "npfloat": np.float64, "nplong": np.longdouble}
        if x["k"] in fixed:
            return fixed[x["k"]](x["v"])
        return {"none": None, "bool": True, "bytes": b"1", "type": int, "tuple": ()}[x["k"]]

    if k in ("none", "bool", "int", "float", "str", "npint", "npfloat", "nplong"):
        return key(d) if r.random() < 0.3 else ATOMS[k](r)
    if k in ATOMS:
        return ATOMS[k](r)
    if k == "list":
        return all_()
    if k == "tuple":
        return tuple(all_())
    if k == "set":
        return {key(x) if x["k"] in ("none", "bool", "int", "float", "str", "npint", "npfloat", "tuple") else concrete(x, r) for x in c}
    if k in ("dict", "odict"):
        return (dict if k == "dict" else collections.OrderedDict)(items(c))
    if k == "ddict":
        f = {"none": None, "type": list, "function": ff}[c[0]["k"]]
        return collections.defaultdict(f, items(c[1:]))
    if k == "slice":
        return slice(*all_())
    if k == "oarray":
        xs = all_()
        if d["v"] == "0":
            a = np.empty((), dtype=object)
            a[()] = xs[0]
            return a
        shape = r.choice([(len(xs),), (1, len(xs)), (len(xs), 1)]) if xs else (0,)
        a = np.empty(shape, dtype=object)
        for i, x in zip(np.ndindex(*shape), xs):
            a[i] = x
        return a
    if k == "partial":
        f = {"ufunc": np.add, "type": int, "function": ff}[c[0]["k"]]
        xs = [concrete(x, r) for x in c[1:]]
        return functools.partial(f, *xs) if r.random() < 0.6 else functools.partial(f, **{f"k{j}": x for j, x in enumerate(xs)})
    if k == "itemgetter":
        return operator.itemgetter(*all_())
    if k == "attrgetter":
        return operator.attrgetter("a")
    x = [concrete(y, r) for y in c] if k not in ("dictsub",) else None
    if k == "plain":
        return vtypes.Plain(a=x[0])
    if k == "slots":
        return vtypes.Slots(x[0], 2)
    if k == "getset":
        return vtypes.GetSet(x[0])
    if k == "reduce":
        return ReduceArgs(*x)
    if k == "rstate":
        return ReduceState(x[0])
    if k == "ritems":
        return ReduceItems(x)
    if k == "rother":
        return ReduceFn(x[0])
    if k == "dictsub":
        return with_attrs(SD(items(c[:-1])), **dict(concrete(c[-1], r)))
    if k == "listsub":
        return with_attrs(SL(x[:-1]), **x[-1])
    raise ValueError(k)
