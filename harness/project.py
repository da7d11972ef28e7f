"""Canonical projection of Python objects to uniform terms {"k": kind, "v": text, "c": [terms]}.

Two objects have equal terms iff they have the same types, structure and values (as far as this
projection looks: see the branches).  Used as the observation function of the value checks.
"""
from __future__ import annotations

import builtins
import collections
import datetime
import decimal
import fractions
import functools
import hashlib
import json
import operator
import pathlib
import re
import types

import numpy as np
import numpy.polynomial
import scipy.sparse as sp


def T(k, v="", c=()):
    return {"k": k, "v": v, "c": list(c)}


def tname(t):
    return f"{t.__module__}.{t.__qualname__}"


def fhex(x):
    if x != x:
        import struct

        return "nan:" + struct.pack(">d", x).hex()
    return float(x).hex()


def dtype_text(dt):
    """dtypes that compare equal have equal texts (metadata and aliases of a type do not matter)"""
    if dt.names is not None:
        return "struct{" + ";".join(
            f"{n}@{dt.fields[n][1]}:{dtype_text(dt.fields[n][0])}:{dt.fields[n][2] if len(dt.fields[n]) > 2 else ''}"
            for n in dt.names
        ) + f"}}size={dt.itemsize}"
    if dt.subdtype is not None:
        return f"sub({dtype_text(dt.subdtype[0])},{dt.subdtype[1]})"
    return dt.str if dt.kind != "T" else repr(dt)


def raw_bytes(a):
    """the bytes of an array, without padding, which has no meaning"""
    if a.dtype.names is not None:
        return b"".join(raw_bytes(np.asarray(a[n])) for n in a.dtype.names)
    b = np.ascontiguousarray(a).tobytes() if not a.dtype.hasobject else repr(a.tolist()).encode()
    if a.dtype.kind in "fc" and a.dtype.str[1:] in ("f16", "c32"):  # extended precision
        b = np.frombuffer(b, "u1").reshape(-1, 16).copy()
        b[:, slice(10, 16) if a.dtype.byteorder in "=<|" else slice(0, 6)] = 0
        b = b.tobytes()
    return b


def array_bytes(a):
    b = raw_bytes(a)
    return b.hex() if len(b) <= 24 else "sha:" + hashlib.sha256(b).hexdigest()


def fill_value(o):
    fv = o._fill_value
    if fv is None:
        fv = np.ma.core._check_fill_value(None, o.dtype)
    return np.asarray(fv)[()]


class Projector:
    def __init__(self, layout=True, share=False, draws=False):
        self.stack = {}
        self.draws = draws
        self.layout = layout
        self.share = share
        self.seen = {}
        self.keep = []

    def __call__(self, o):
        if isinstance(o, (type(None), bool, int, float, str, bytes, complex)) and type(o) in (
            type(None), bool, int, float, str, bytes, complex
        ):
            return self.scalar(o)
        i = id(o)
        if i in self.stack:
            return T("cycle", str(len(self.stack) - self.stack[i]))
        if self.share and isinstance(o, (list, dict, set, np.ndarray, bytearray)):
            if i in self.seen:
                return T("shared", str(self.seen[i]))
            self.seen[i] = len(self.seen)
            self.keep.append(o)
        self.stack[i] = len(self.stack)
        try:
            return self.obj(o)
        finally:
            del self.stack[i]

    def scalar(self, o):
        t = type(o).__name__
        if isinstance(o, float):
            return T(t, fhex(o))
        if isinstance(o, complex):
            return T(t, fhex(o.real) + "," + fhex(o.imag))
        if isinstance(o, bytes):
            return T(t, o.hex() if len(o) < 200 else "sha:" + hashlib.sha256(o).hexdigest())
        if isinstance(o, str):
            return T(t, json.dumps(o))
        return T(t, repr(o))

    def attrs(self, o, skip=()):
        d = getattr(o, "__dict__", None)
        out = []
        if isinstance(d, dict):
            for k, v in d.items():
                if k not in skip:
                    out.append(T("attr", json.dumps(str(k)), [self(v)]))
        for c in type(o).__mro__:
            sl = c.__dict__.get("__slots__", ())
            for s in (sl,) if isinstance(sl, str) else sl:
                if s in ("__dict__", "__weakref__"):
                    continue
                name = f"_{c.__name__.lstrip('_')}{s}" if s.startswith("__") and not s.endswith("__") else s
                if hasattr(o, name):
                    out.append(T("slot", s, [self(getattr(o, name))]))
        return sorted(out, key=lambda t: t["v"])

    def obj(self, o):
        t = type(o)
        tn = tname(t)
        # ---- builtin scalars (subclasses)
        for b in (bool, int, float, complex, str, bytes):
            if isinstance(o, b) and not isinstance(o, np.generic):
                return T("sub:" + tn, self.scalar(b(o) if b is not str else str.__str__(o))["v"], self.attrs(o))
        if isinstance(o, bytearray):
            return T(tn, bytes(o).hex(), self.attrs(o))
        # ---- types and callables
        if isinstance(o, type):
            return T("type", tn if False else f"{o.__module__}.{o.__qualname__}#{self.ident(o)}")
        if isinstance(o, types.FunctionType):
            return T("function", f"{o.__module__}.{o.__qualname__}#{self.ident(o)}")
        if isinstance(o, types.MethodType):
            return T("method", f"{o.__func__.__module__}.{o.__func__.__qualname__}", [self(o.__self__)])
        if isinstance(o, (types.BuiltinFunctionType, types.BuiltinMethodType)):
            s = o.__self__
            return T("builtin", f"{o.__module__}.{o.__qualname__}",
                     [] if s is None or isinstance(s, types.ModuleType) else [self(s)])
        if type(o) is type(np.mean):
            return T("function", f"{o.__module__}.{o.__qualname__}#{self.ident(o)}")
        if isinstance(o, np.ufunc):
            return T("ufunc", f"{o.__name__}#{self.ident(o)}")
        if isinstance(o, types.ModuleType):
            return T("module", o.__name__)
        if isinstance(o, functools.partial):
            return T(tn, "", [self(o.func), self(list(o.args)), self(dict(o.keywords)),
                              *self.attrs(o)])
        if isinstance(o, (operator.attrgetter, operator.itemgetter, operator.methodcaller)):
            r = o.__reduce__()
            return T(tn, "", [self(x) for x in r[1:]] if t is not operator.methodcaller else
                     [self(list(r[1])), T("r", tname(type(r[0])))])
        # ---- numpy
        if o is np.ma.masked:
            return T("np.ma.masked")
        if isinstance(o, np.ma.MaskedArray):
            return T(tn, f"hard={o.hardmask}", [
                self.array(np.asarray(o.data)), self.array(np.ascontiguousarray(np.ma.getmaskarray(o))),
                T("nomask", str(o.mask is np.ma.nomask)),
                # (numpy stores the fill value when it is looked at: not by its property)
                self(np.asarray(fill_value(o))),
            ])
        if isinstance(o, np.ndarray):
            a = self.array(o)
            return T(tn, "", [a, *(self.attrs(o) if t is not np.ndarray else [])])
        if isinstance(o, np.void) and o.dtype.hasobject:
            return T("npscalar:" + tn, dtype_text(o.dtype), [self(x) for x in o.tolist()])
        if isinstance(o, np.generic):
            return T("npscalar:" + tn, dtype_text(o.dtype) + "=" + array_bytes(np.asarray(o)))
        if isinstance(o, np.dtype):
            return T("dtype", dtype_text(o))
        if isinstance(o, np.random.Generator):
            return T(tn, "", [self.bitgen(o.bit_generator), *self.stream(o)])
        if isinstance(o, np.random.RandomState):
            st = o.get_state(legacy=False)
            return T(tn, "", [self(st), *self.stream(o), *(self.attrs(o) if t is not np.random.RandomState else [])])
        if isinstance(o, np.random.BitGenerator):
            return self.bitgen(o)
        if isinstance(o, np.random.SeedSequence):
            return T(tn, "", [self(o.state)])
        # ---- scipy sparse
        if sp.issparse(o):
            parts = [T("shape", str(tuple(int(x) for x in o.shape))), T("dtype", dtype_text(o.dtype))]
            for n in ("data", "indices", "indptr", "row", "col", "offsets", "rows", "coords"):
                if n == "coords" and hasattr(o, "row"):
                    continue
                v = o.__dict__.get(n, None) if n != "row" and n != "col" else getattr(o, n, None)
                if isinstance(v, np.ndarray):
                    # (how wide the indices are is scipy's choice: it narrows them on construction)
                    parts.append(T("arr", n, [self.array(v if n == "data" or v.dtype.kind not in "iu" else v.astype(np.int64))]))
            if o.format == "dok":
                parts.append(self(dict(o.items())))
            return T(tn, o.format, parts)
        # ---- containers
        if isinstance(o, (list, tuple)):
            return T(tn, "", [self(x) for x in (list.__iter__(o) if isinstance(o, list) else tuple.__iter__(o))]
                     + (self.attrs(o) if t not in (list, tuple) else []))
        if isinstance(o, (set, frozenset)):
            cs = [self(x) for x in o]
            return T(tn, "", sorted(cs, key=lambda c: json.dumps(c)) + (self.attrs(o) if t not in (set, frozenset) else []))
        if isinstance(o, dict):
            # (the order of an OrderedDict is not that of the dict beneath)
            base = collections.OrderedDict if isinstance(o, collections.OrderedDict) else dict
            cs = [T("item", "", [self(k), self(v)]) for k, v in base.items(o)]
            if isinstance(o, collections.defaultdict):
                cs.insert(0, T("default_factory", "", [self(o.default_factory)]))
            if t not in (dict, collections.OrderedDict, collections.defaultdict):
                cs += self.attrs(o)
            return T(tn, "", cs)
        if isinstance(o, collections.deque):
            return T(tn, str(o.maxlen), [self(x) for x in o])
        if isinstance(o, slice):
            return T(tn, "", [self(o.start), self(o.stop), self(o.step)])
        if isinstance(o, (range, decimal.Decimal, fractions.Fraction, datetime.date, datetime.timedelta,
                          datetime.time, datetime.tzinfo, type(Ellipsis), type(NotImplemented))):
            return T(tn, repr(o))
        if isinstance(o, property):
            return T(tn, "", [self(o.fget), self(o.fset), self(o.fdel)])
        if isinstance(o, memoryview):
            return T(tn, bytes(o).hex())
        if t.__module__.startswith("pandas"):
            import pickle

            try:
                return T(tn, "pickle", [T("sha", hashlib.sha256(pickle.dumps(o)).hexdigest())])
            except Exception:  # noqa: BLE001
                return T(tn, re.sub("0x[0-9a-f]+", "", repr(o)))
        if isinstance(o, pathlib.PurePath):  # the rest are caches
            return T(tn, "", [T("parts", repr(o.parts)), *(self.attrs(o) if hasattr(o, "__dict__") else [])])
        if isinstance(o, np.polynomial._polybase.ABCPolyBase):
            return T(tn, "", [self(dict(sorted(o.__getstate__().items())))])
        # ---- generic objects
        kids = self.attrs(o, skip=())
        if hasattr(o, "__getstate__") and not kids or t.__reduce__ is not object.__reduce__:
            try:
                red = o.__reduce_ex__(2)
            except Exception as e:  # noqa: BLE001
                red = ("unreducible", type(e).__name__)
            if isinstance(red, tuple):
                kids = kids + [T("reduce", "", [self.redpart(x) for x in red])]
            else:
                kids = kids + [T("reduce", str(red))]
        return T(tn, "", kids)

    def redpart(self, x):
        if isinstance(x, tuple):
            return T("tuple", "", [self.redpart(y) for y in x])
        return self(x)

    def ident(self, o):
        """is the object reachable under its own name (a different object of the same name is a
        different value)"""
        import sys

        if isinstance(o, np.ufunc):
            import scipy.special

            for mod in (np, scipy.special):
                if getattr(mod, o.__name__, None) is o:
                    return mod.__name__
        m = sys.modules.get(getattr(o, "__module__", None) or "")
        x = m
        for p in getattr(o, "__qualname__", getattr(o, "__name__", "")).split("."):
            x = getattr(x, p, None)
        return "named" if x is o else f"anonymous@{id(o)}"

    def bitgen(self, b):
        return T("bitgen:" + tname(type(b)), "", [self(b.state)])

    def stream(self, o):
        """what the generator yields next (drawn from a copy)"""
        if not self.draws:
            return []
        import copy

        o = copy.deepcopy(o)
        new = isinstance(o, np.random.Generator)
        ints = o.integers if new else o.randint
        out = [o.standard_normal(3), ints(0, 1 << 20, 3, dtype=np.int32), o.random(2) if new else o.random_sample(2),
               ints(0, 100, 1, dtype=np.uint8), o.permutation(5), o.gamma(2.0, size=2)]
        if new:
            try:
                out.append(o.spawn(2)[1].random(2))
                out.append(o.spawn(1)[0].integers(0, 1 << 30, 2))
            except TypeError:  # no seed sequence
                pass
        return [T("stream", "", [self.array(np.asarray(x)) for x in out])]

    def array(self, a):
        a = np.asarray(a)
        lay = ""
        if self.layout and a.ndim > 1 and not a.dtype.hasobject:
            # only C and F contiguous layouts are values; a strided view is stored as C
            lay = "F" if a.flags.f_contiguous and not a.flags.c_contiguous else "C"
        head = T("arr", f"{dtype_text(a.dtype)} shape={a.shape} {lay}")
        if a.dtype == object:
            head["c"] = [self(x) for x in a.ravel(order="C")]
        elif a.dtype.hasobject:
            head["c"] = [self(x) for x in a.ravel(order="C").tolist()]
        else:
            head["v"] += " " + array_bytes(a)
        return head


def term(o, layout=True, share=False, draws=False):
    return Projector(layout, share, draws)(o)


def digest(o, layout=True):
    return hashlib.sha256(json.dumps(term(o, layout)).encode()).hexdigest()


def diff(a, b, path="$"):
    """first difference between two terms, for messages"""
    if a["k"] != b["k"]:
        return f"{path}: kind {a['k']} / {b['k']}"
    if a["v"] != b["v"]:
        return f"{path}({a['k']}): {a['v'][:120]} / {b['v'][:120]}"
    if len(a["c"]) != len(b["c"]):
        return f"{path}({a['k']}): {len(a['c'])} / {len(b['c'])} parts"
    for i, (x, y) in enumerate(zip(a["c"], b["c"])):
        d = diff(x, y, f"{path}.{i}")
        if d:
            return d
    return ""
