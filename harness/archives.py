"""Hand-built skops archives: construction, description for the specification, canary modules."""
from __future__ import annotations

import copy
import io
import json
import random
import sys
import types
import zipfile
from pathlib import Path

import numpy as np
import scipy.sparse as sp
import scipy.special
from common import scratch

# --------------------------------------------------------------- archives


def archive(schema, members=None, proto=2, version="0.11"):
    """bytes of an archive; `schema` is the state of the root"""
    s = {**schema, "protocol": proto, "_skops_version": version}
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for k, v in {**MEMBERS, **(members or {})}.items():
            z.writestr(k, v)
        z.writestr("schema.json", json.dumps(s))
    return b.getvalue()


def parts(data):
    """(schema without protocol/version, members, proto) of an archive"""
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        s = json.loads(z.read("schema.json"))
        m = {n: z.read(n) for n in z.namelist() if n != "schema.json"}
    proto = s.pop("protocol")
    s.pop("_skops_version")
    return s, m, proto


def _npy(a):
    b = io.BytesIO()
    np.save(b, a, allow_pickle=False)
    return b.getvalue()


def _npz(m):
    b = io.BytesIO()
    sp.save_npz(b, m)
    return b.getvalue()


MEMBERS = {
    "b.bin": b"abc", "a.npy": _npy(np.arange(3.0)), "i.npy": _npy(np.array([2], dtype=np.intp)),
    "e.npy": _npy(np.empty(0)), "s.npy": _npy(np.float64(2.5)),
    "m.npz": _npz(sp.csr_matrix(np.eye(2))),
}  # fmt: skip


def split(name):
    m, _, c = name.rpartition(".")
    return m, c


def st(loader, name, **kw):
    m, c = split(name)
    return {"__class__": c, "__module__": m, "__loader__": loader, **kw}


def J(v):
    return st("JsonNode", "builtins.str", content=json.dumps(v), is_json=True)


def TYPE(n):
    return st("TypeNode", n)


def LIST(*c):
    return st("ListNode", "builtins.list", content=list(c))


def TUPLE(*c):
    return st("TupleNode", "builtins.tuple", content=list(c))


def DICT(**kw):
    return st("DictNode", "builtins.dict", key_types=LIST(*[TYPE("builtins.str") for _ in kw]),
              content=dict(kw))


# kind -> slots in the order in which the nodes are built
SLOTS = {
    "DictNode": ["key_types", "content", "attrs"], "DefaultDictNode": ["main", "default_factory", "attrs"],
    "ListNode": ["content", "attrs"], "SetNode": ["content", "attrs"], "TupleNode": ["content", "attrs"],
    "FunctionNode": [], "PartialNode": ["func", "args", "kwds", "namespace"], "TypeNode": [],
    "SliceNode": ["start", "stop", "step"], "ConstructorFromReduceNode": ["content"],
    "ObjectNode": ["content"], "MethodNode": ["obj"], "JsonNode": [], "BytesNode": [],
    "BytearrayNode": [], "OperatorFuncNode": ["attrs"], "NdArrayNode": ["content", "shape", "attrs"],
    "MaskedArrayNode": ["data", "mask", "fill_value", "hard_mask"], "DTypeNode": ["content"],
    "RandomStateNode": ["content", "attrs"], "RandomGeneratorNode": ["bit_generator", "seed_seq", "attrs"],
    "SparseMatrixNode": [], "TreeNode": ["attrs", "args"], "LossNode": ["attrs", "args"],
}  # fmt: skip


def rs_state():
    return parts(__import__("skops.io").io.dumps(np.random.RandomState(1).get_state(legacy=False)))


def make(kind, name, child=None, slot=None, proto=2, id=None):  # noqa: A002
    """A state of `kind` named `name` with `child` in `slot`, everything else benign."""
    def c(s, default):
        return child if (child is not None and slot == s) else default

    has = child is not None
    if kind == "DictNode":
        if slot == "key_types":
            s = st(kind, name, key_types=child, content={"k": J(1)})
        elif slot == "keys":
            s = st(kind, name, keys=child, content={"0": J(1)})
        else:
            s = st(kind, name, key_types=LIST(TYPE("builtins.str")), content={"k": c("content", J(1))})
    elif kind == "DefaultDictNode":
        s = st(kind, name, content={"main": c("main", DICT(a=J(1))),
                                    "default_factory": c("default_factory", J(None))})
    elif kind in ("ListNode", "SetNode", "TupleNode"):
        s = st(kind, name, content=[J(7), c("content", J(1))])
    elif kind == "FunctionNode":
        m, cl = split(name)
        if proto == 0:
            s = st(kind, "builtins.function", content={"module_path": m, "function": cl})
        else:
            s = st(kind, name)
    elif kind == "PartialNode":
        s = st(kind, name, content={
            "func": c("func", TYPE("builtins.int")), "args": c("args", TUPLE(J(1))),
            "kwds": c("kwds", DICT()), "namespace": c("namespace", DICT())})
    elif kind == "SliceNode":
        s = st(kind, name, content={"start": c("start", 1), "stop": c("stop", None), "step": c("step", 2)})
    elif kind == "ConstructorFromReduceNode":
        s = st(kind, name, content=c("content", TUPLE(J("1"))))
    elif kind == "ObjectNode":
        s = st(kind, name, content=c("content", DICT(a=J(1))))
    elif kind == "MethodNode":
        s = st(kind, name, content={
            "func": "m", "obj": c("obj", st("ObjectNode", "sklearn.preprocessing._data.StandardScaler",
                                            content=DICT(a=J(1))))})
    elif kind == "JsonNode":
        s = st(kind, name, content="[1]", is_json=True)
    elif kind in ("BytesNode", "BytearrayNode"):
        s = st(kind, name, file="b.bin")
    elif kind == "OperatorFuncNode":
        s = st(kind, name, attrs=c("attrs", TUPLE(J("a"))))
    elif kind == "NdArrayNode":
        if has and slot in ("content", "shape"):
            s = st(kind, name, type="json", content=[c("content", J(1))], shape=c("shape", TUPLE(J(1))))
        else:
            s = st(kind, name, type="numpy", file="a.npy")
    elif kind == "MaskedArrayNode":
        a = st("NdArrayNode", "numpy.ndarray", type="numpy", file="a.npy")
        con = {"data": c("data", a), "mask": c("mask", a)}
        if slot in ("fill_value", "hard_mask") and has:
            con[slot] = child
        s = st(kind, name, content=con)
    elif kind == "DTypeNode":
        s = st(kind, name, content=c("content", st("NdArrayNode", "numpy.ndarray", type="numpy", file="e.npy")))
    elif kind == "RandomStateNode":
        s = st(kind, name, content=c("content", RS_STATE()))
    elif kind == "RandomGeneratorNode":
        bg = PCG_STATE()
        if proto == 0:
            s = st(kind, name, content={"bit_generator": np.random.PCG64(3).state})
        elif proto == 1:
            s = st(kind, name, content={"bit_generator": c("bit_generator", bg)})
        else:
            s = st(kind, name, content={"bit_generator": c("bit_generator", bg),
                                        "seed_seq": c("seed_seq", DICT(entropy=J(3)))})
    elif kind == "SparseMatrixNode":
        s = st(kind, name, type="scipy", file="m.npz")
    elif kind in ("TreeNode", "LossNode"):
        n = st("NdArrayNode", "numpy.ndarray", type="numpy", file="i.npy")
        args = TUPLE(J(1), n, J(1)) if kind == "TreeNode" else TUPLE()
        s = st(kind, name, content=c("attrs", DICT()), __reduce__={"args": c("args", args)})
    else:
        s = st(kind, name)
    if slot == "attrs" and has and kind not in ("TreeNode", "LossNode", "OperatorFuncNode"):
        s["attrs"] = child
    if id:
        s["__id__"] = id
    return s


def RS_STATE():
    return DICT(bit_generator=J("MT19937"),
                state=DICT(key=st("NdArrayNode", "numpy.ndarray", type="numpy", file="mt.npy"), pos=J(5)),
                has_gauss=J(0), gauss=J(0.0))


def PCG_STATE():
    s = np.random.PCG64(3).state
    return DICT(bit_generator=J("PCG64"),
                state=DICT(state=J(s["state"]["state"]), inc=J(s["state"]["inc"])),
                has_uint32=J(0), uinteger=J(0))


MEMBERS["mt.npy"] = _npy(np.random.RandomState(1).get_state()[1])


def kids(s, proto=2):
    """(slot, key, child state, setter) of the child nodes of a state, in building order"""
    k = s.get("__loader__")
    out = []

    def add(slot, cont, key, label=None):
        out.append((slot, str(label if label is not None else key), cont[key], cont, key))

    def each(slot, cont):
        if isinstance(cont, dict):
            for key in cont:
                add(slot, cont, key)
        elif isinstance(cont, list):
            for j in range(len(cont)):
                add(slot, cont, j, slot)

    if k == "DictNode":
        for n in ("keys", "key_types"):
            if n in s:
                add(n, s, n)
                break
        each("content", s["content"])
    elif k in ("DefaultDictNode", "PartialNode", "MaskedArrayNode"):
        for n in SLOTS[k]:
            if n in s["content"]:
                add(n, s["content"], n)
    elif k == "SliceNode":
        for n in SLOTS[k]:
            if isinstance(s["content"][n], dict):
                add(n, s["content"], n)
    elif k in ("ListNode", "SetNode", "TupleNode"):
        each("content", s["content"])
    elif k in ("ObjectNode", "ConstructorFromReduceNode", "DTypeNode", "RandomStateNode"):
        if s.get("content") is not None:
            add("content", s, "content")
    elif k == "MethodNode":
        add("obj", s["content"], "obj")
    elif k == "OperatorFuncNode":
        add("attrs", s, "attrs")
    elif k == "NdArrayNode" and s.get("type") == "json":
        each("content", s["content"])
        add("shape", s, "shape")
    elif k == "RandomGeneratorNode" and proto > 0:
        add("bit_generator", s["content"], "bit_generator")
        if proto > 1:
            add("seed_seq", s["content"], "seed_seq")
    elif k in ("TreeNode", "LossNode"):
        add("attrs", s, "content", "attrs")
        add("args", s["__reduce__"], "args")
    if "attrs" in s and (k in ("DictNode", "DefaultDictNode", "ListNode", "SetNode", "TupleNode", "NdArrayNode",
                               "RandomStateNode") or (k == "RandomGeneratorNode" and proto > 1)):
        add("attrs", s, "attrs")
    return out


def states(s, proto=2):
    yield s
    for _, _, c, _, _ in kids(s, proto):
        yield from states(c, proto)


def some_states(s, proto=2):
    """the states of a schema that may be broken"""
    res = []

    def rec(x):
        if not isinstance(x, dict) or "__loader__" not in x:
            return
        res.append(x)
        try:
            ks = kids(x, proto)
        except (KeyError, TypeError, AttributeError):
            return
        for _, _, c, _, _ in ks:
            rec(c)

    rec(s)
    return res


def describe(s, proto=2, fam=None):
    """the nodes of a schema in building order, for the specification"""
    fam = fam or family
    out = []

    def rec(x, par, slot, key):
        name = f"{x['__module__']}.{x['__class__']}"
        if x["__loader__"] == "FunctionNode" and proto == 0:
            name = f"{x['content']['module_path']}.{x['content']['function']}"
        out.append({"kind": x["__loader__"], "name": name, "fam": fam(name), "id": x.get("__id__") or 0,
                    "par": par, "slot": slot, "key": key})
        me = len(out)
        for sl, k, c, _, _ in kids(x, proto):
            rec(c, me, sl, k)

    rec(s, 0, "root", "root")
    return out


# --------------------------------------------------------------- families of names
_NP_SCALARS = {t for t in np.sctypeDict.values()}


def family_of(o):
    """the documented family an object belongs to, or "none" """
    from sklearn.base import BaseEstimator
    from sklearn.tree._tree import Tree

    if not (isinstance(o, type) or callable(o)):
        return "none"

    def one_of(*xs):
        return any(o is x for x in xs)

    if one_of(int, float, str, bool):
        return "primitive"
    if one_of(list, set, map, tuple):
        return "container"
    if one_of(dict, __import__("collections").OrderedDict):
        return "dict"
    if o is __import__("collections").defaultdict:
        return "defaultdict"
    if one_of(bytes, bytearray, slice):
        return o.__name__
    if isinstance(o, np.ufunc):
        pub = any(getattr(np, n, None) is o for n in (o.__name__,)) or o in _UFUNCS
        return "ufunc" if pub else "none"
    if isinstance(o, type):
        if o in _NP_SCALARS or o in (np.generic, np.number, np.integer, np.inexact, np.floating,
                                     np.complexfloating, np.flexible, np.character,
                                     np.signedinteger, np.unsignedinteger):
            return "npscalar"
        if o in (np.ndarray, np.ma.MaskedArray, np.dtype, np.random.RandomState, np.random.Generator):
            return o.__name__
        if issubclass(o, (np.dtype, np.random.BitGenerator)) and o.__module__.startswith("numpy"):
            return "numpy-internal"
        if o.__module__.startswith("scipy.sparse") and issubclass(o, (sp.spmatrix, sp.sparray)):
            return "sparse"
        if issubclass(o, BaseEstimator) and o.__module__.startswith("sklearn."):
            return "estimator"
        if o is Tree:
            return "tree"
        if o in _losses():
            return "loss"
    return "none"


_UFUNCS = {f for m in (np, scipy.special) for f in vars(m).values() if isinstance(f, np.ufunc)}


def _losses():
    import sklearn._loss._loss as ll
    import sklearn.linear_model._sgd_fast as sg

    res = set()
    for m in (ll, sg):
        for n, v in vars(m).items():
            if isinstance(v, type) and (v.__module__ in ("_loss", m.__name__)):
                res.add(v)
    return res


def resolve(name):
    """the object a name leads to, without importing anything; None when there is none"""
    m, c = split(name)
    mod = sys.modules.get(m)
    return None if mod is None else types.ModuleType.__getattribute__(mod, "__dict__").get(c)


_fam = {}


def family(name):
    if name not in _fam:
        o = resolve(name)
        try:
            _fam[name] = "none" if o is None else family_of(o)
        except TypeError:  # unhashable
            _fam[name] = "none"
    return _fam[name]


# --------------------------------------------------------------- canaries
CANARY = '''
import sys as _sys, types as _types
_L = _sys.modules["vledger"]
_L.note("import", __name__)
import collections as _c, functools as _ft, operator as _op
import numpy as _np, scipy.sparse as _sp
from sklearn.base import BaseEstimator as _BE
from sklearn.linear_model import LogisticRegression as _LR


class _Rec:
    def __new__(cls, *a, **k):
        _L.note("new", cls.__module__ + "." + cls.__name__)
        return super().__new__(cls, *a, **k)


class C:
    def __new__(cls, *a, **k):
        _L.note("new", cls.__module__ + "." + cls.__name__)
        return object.__new__(cls)

    def __init__(self, *a, **k):
        _L.note("call", self.__class__.__module__ + "." + self.__class__.__name__)

    def __call__(self, *a, **k):
        _L.note("call", __name__ + (".inst" if self is inst else ".C.__call__"))

    def m(self, *a):
        _L.note("call", __name__ + ".C.m")

    @property
    def p(self):
        _L.note("property", self.__class__.__module__ + "." + self.__class__.__name__ + ".p")
        return f

    @staticmethod
    def s(*a):
        _L.note("call", __name__ + ".C.s")


class St(C):
    def __setstate__(self, s):
        _L.note("call", __name__ + ".St.__setstate__")
        self.__dict__.update(s if isinstance(s, dict) else {"s": s})


class L(_Rec, list): pass
class D(_Rec, dict): pass
class S(_Rec, set): pass
class FS(_Rec, frozenset): pass
class T(_Rec, tuple): pass
class DD(_Rec, _c.defaultdict): pass
class OD(_Rec, _c.OrderedDict): pass
class B(_Rec, bytes): pass
class BA(_Rec, bytearray): pass
class I(_Rec, int): pass
class Str(_Rec, str): pass
class F(_Rec, float): pass
class E(_Rec, _BE):
    def m(self): _L.note("call", __name__ + ".E.m")
class LogisticRegression(_Rec, _LR): pass
class P(_Rec, _ft.partial): pass
class Slice: 
    def __new__(cls, *a):
        _L.note("new", cls.__module__ + "." + cls.__name__)
        return object.__new__(cls)
class itemgetter(Slice): pass
class A(_np.ndarray):
    def __array_finalize__(self, o): _L.note("new", __name__ + ".A")
class G(_Rec, _np.float64): pass
class M(_np.ma.MaskedArray):
    def __new__(cls, *a, **k):
        _L.note("new", __name__ + ".M")
        return super().__new__(cls, *a, **k)
class RS(_Rec, _np.random.RandomState): pass
class Gen(_Rec, _np.random.Generator): pass
class PCG64(_Rec, _np.random.PCG64): pass
class X(_sp.csr_matrix):
    def __init__(self, *a, **k):
        _L.note("new", __name__ + ".X")
        super().__init__(*a, **k)
class Tree(_Rec, _sys.modules["sklearn.tree._tree"].Tree): pass


def f(*a, **k):
    _L.note("call", __name__ + ".f")
    return 1


def system(*a, **k):
    _L.note("call", __name__ + ".system")
    return 1


def method(*a, **k):
    _L.note("call", __name__ + ".method")


def g(*a, **k):
    _L.note("call", __name__ + ".g")
    return 2


inst = object.__new__(C)
int = I; str = Str; dict = D; list = L; type = Slice


class _Module(_types.ModuleType):
    def __getattribute__(self, name):
        if not name.startswith("__"):
            _L.note("resolve", _types.ModuleType.__getattribute__(self, "__name__") + "." + name)
        return _types.ModuleType.__getattribute__(self, name)


_sys.modules[__name__].__class__ = _Module
'''

CANARIES = ["vcan_a", "vcan_b", "vcanpkg", "vcanpkg.sub", "vcanpkg.sub.deep"]
# what a node of a kind would naturally use
NATURAL = {
    "DictNode": "D", "DefaultDictNode": "DD", "ListNode": "L", "SetNode": "S", "TupleNode": "T",
    "FunctionNode": "f", "PartialNode": "P", "TypeNode": "C", "SliceNode": "Slice",
    "ConstructorFromReduceNode": "C", "ObjectNode": "E", "MethodNode": "method", "JsonNode": "Str",
    "BytesNode": "B", "BytearrayNode": "BA", "OperatorFuncNode": "itemgetter", "NdArrayNode": "A",
    "MaskedArrayNode": "M", "DTypeNode": "C", "RandomStateNode": "RS", "RandomGeneratorNode": "Gen",
    "SparseMatrixNode": "X", "TreeNode": "Tree", "LossNode": "f",
}  # fmt: skip
# the name a node of a kind has in archives written by dump
OWN = {
    "DictNode": "builtins.dict", "DefaultDictNode": "collections.defaultdict",
    "ListNode": "builtins.list", "SetNode": "builtins.set", "TupleNode": "builtins.tuple",
    "FunctionNode": "scipy.special._ufuncs.expit", "PartialNode": "functools.partial",
    "TypeNode": "builtins.int", "SliceNode": "builtins.slice",
    "ConstructorFromReduceNode": "decimal.Decimal",
    "ObjectNode": "sklearn.preprocessing._data.StandardScaler",
    "MethodNode": "sklearn.preprocessing._data.method", "JsonNode": "builtins.str",
    "BytesNode": "builtins.bytes", "BytearrayNode": "builtins.bytearray",
    "OperatorFuncNode": "operator.itemgetter", "NdArrayNode": "numpy.ndarray",
    "MaskedArrayNode": "numpy.ma.MaskedArray", "DTypeNode": "numpy.dtype",
    "RandomStateNode": "numpy.random.mtrand.RandomState",
    "RandomGeneratorNode": "numpy.random._generator.Generator",
    "SparseMatrixNode": "scipy.sparse._csr.csr_matrix", "TreeNode": "sklearn.tree._tree.Tree",
    "LossNode": "sklearn.linear_model._sgd_fast.Hinge",
}  # fmt: skip


class Ledger(types.ModuleType):
    def __init__(self):
        super().__init__("vledger")
        self.rec = []

    def note(self, what, name):
        self.rec.append([what, name])


LEDGER = Ledger()


def write_canaries():
    d = scratch("canary-")
    (d / "vcanpkg" / "sub").mkdir(parents=True)
    for c in CANARIES:
        p = d.joinpath(*c.split("."))
        p = p / "__init__.py" if p.is_dir() else p.with_suffix(".py")
        p.write_text(CANARY)
    sys.modules["vledger"] = LEDGER
    sys.path.insert(0, str(d))
    return d


def drop_canaries():
    for n in list(sys.modules):
        if n.split(".")[0] in ("vcan_a", "vcan_b", "vcanpkg"):
            del sys.modules[n]
    LEDGER.rec.clear()


_IMPORTED = {}


def import_canaries(which=CANARIES):
    import importlib

    if tuple(which) not in _IMPORTED:
        drop_canaries()
        for n in which:
            importlib.import_module(n)
        _IMPORTED[tuple(which)] = {n: m for n, m in sys.modules.items()
                                   if n.split(".")[0] in ("vcan_a", "vcan_b", "vcanpkg")}
    sys.modules.update(_IMPORTED[tuple(which)])
    LEDGER.rec.clear()
