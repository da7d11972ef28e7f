"""Graphs of objects: walking two of them along the same paths, and building them."""
from __future__ import annotations

import collections
import datetime
import decimal
import enum
import functools
import operator
import types

import numpy as np
import scipy.sparse as sp
import valpool as V
import vtypes
from project import term

IMMUTABLE = (type(None), bool, int, float, complex, str, bytes, tuple, frozenset, type, types.FunctionType,
             types.BuiltinFunctionType, types.MethodType, np.generic, np.dtype, np.ufunc, slice, range, enum.Enum,
             decimal.Decimal, datetime.date, datetime.time, datetime.timedelta, operator.itemgetter,
             operator.attrgetter, operator.methodcaller, type(np.mean))


def mutable(o):
    return not isinstance(o, IMMUTABLE)


def attrs(o):
    out = {}
    d = getattr(o, "__dict__", None)
    if isinstance(d, dict):
        out.update((f".{k}", v) for k, v in d.items())
    for c in type(o).__mro__:
        sl = c.__dict__.get("__slots__", ())
        for s in (sl,) if isinstance(sl, str) else sl:
            if s not in ("__dict__", "__weakref__"):
                n = f"_{c.__name__.lstrip('_')}{s}" if s.startswith("__") and not s.endswith("__") else s
                if hasattr(o, n):
                    out[f"/{s}"] = getattr(o, n)
    return out


def children(o):
    """label -> object, for what is part of the object and not stored as a whole with it"""
    t = type(o)
    if isinstance(o, (str, bytes, int, float, complex, np.generic, type, np.dtype)) or o is None:
        return attrs(o) if t not in (str, bytes, int, float, complex) and not isinstance(o, (type, np.generic, np.dtype)) \
            and o is not None and not isinstance(o, enum.Enum) else {}
    if isinstance(o, types.MethodType):
        return {"self": o.__self__}
    if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, types.BuiltinMethodType, np.ufunc, types.ModuleType)):
        return {}
    if isinstance(o, np.ma.MaskedArray):
        return {}
    if sp.issparse(o):
        return {}
    if isinstance(o, np.ndarray):
        res = {f"[{j}]": x for j, x in enumerate(np.asarray(o).ravel(order="C"))} if o.dtype == object else {}
        return {**res, **(attrs(o) if t is not np.ndarray else {})}
    if isinstance(o, (np.random.Generator, np.random.RandomState)):
        return attrs(o)
    if isinstance(o, functools.partial):
        return {"func": o.func, **{f"a{j}": x for j, x in enumerate(o.args)}, **{f"k{k}": x for k, x in o.keywords.items()},
                **attrs(o)}
    if isinstance(o, (operator.itemgetter, operator.attrgetter)):
        return {f"a{j}": x for j, x in enumerate(o.__reduce__()[1])}
    if isinstance(o, slice):
        return {"start": o.start, "stop": o.stop, "step": o.step}
    extra = attrs(o) if t not in (list, tuple, dict, set, frozenset, collections.OrderedDict, collections.defaultdict) else {}
    if isinstance(o, (list, tuple)):
        base = list if isinstance(o, list) else tuple
        return {**{f"[{j}]": x for j, x in enumerate(base.__iter__(o))}, **extra}
    if isinstance(o, (set, frozenset)):
        ts = sorted(((str(term(x)), x) for x in o), key=lambda p: p[0])
        if len({a for a, _ in ts}) < len(ts):
            return extra  # elements that cannot be told apart
        return {**{f"[{j}]": x for j, (_, x) in enumerate(ts)}, **extra}
    if isinstance(o, dict):
        base = collections.OrderedDict if isinstance(o, collections.OrderedDict) else dict
        res = {}
        for j, (k, v) in enumerate(base.items(o)):
            res[f"key{j}"], res[f"val{j}"] = k, v
        if isinstance(o, collections.defaultdict):
            res["factory"] = o.default_factory
        return {**res, **extra}
    return attrs(o)


def pairs(x, y, limit=200000):
    """the references to mutable objects found along the same paths: [(path, object, object)]"""
    out, seen, stack = [], set(), [("$", x, y)]
    keep = []
    while stack:
        p, a, b = stack.pop()
        if mutable(a):
            out.append((p, a, b))
        if (id(a), id(b)) in seen:
            continue
        seen.add((id(a), id(b)))
        keep.append((a, b))
        ca, cb = children(a), children(b)
        for k in ca:
            if k in cb:
                stack.append((p + k, ca[k], cb[k]))
        if len(out) > limit:
            raise RuntimeError("graph too big")
    return out


def event(x, y):
    """the event for the trace specification"""
    na, nb, a, b = {}, {}, [], []
    ps = pairs(x, y)
    for _, u, v in ps:
        a.append(na.setdefault(id(u), len(na)))
        b.append(nb.setdefault(id(v), len(nb)))
    return {"op": "heap", "a": a, "b": b}, ps


def explain(ps):
    na, nb = {}, {}
    for p, u, v in ps:
        q = na.setdefault(id(u), (p, id(v)))
        if q[1] != id(v):
            return f"{q[0]} and {p} are one {type(u).__name__} before, two after"
        q = nb.setdefault(id(v), (p, id(u)))
        if q[1] != id(u):
            return f"{q[0]} and {p} are two {type(u).__name__} before, one after"
    return ""


# ------------------------------------------------------------------ building
LEAVES = "array oarray0 sparse masked rs gen bytearray subarray matrix sub2 tree".split()


def leaf(r, n):
    """(object, number of members of its own)"""
    k = r.choice(LEAVES)
    if k == "array":
        return V.array(r)
    if k == "oarray0":
        a = np.empty(2, dtype=object)
        a[:] = [n, None]
        return a
    if k == "sparse":
        return V.sparse(r)
    if k == "masked":
        return r.choice([lambda: V.masked(r), lambda: np.ma.array([n, 2], mask=[0, 1]), lambda: np.ma.array([n, 2])])()
    if k == "rs":
        return V.rs(r)
    if k == "gen":
        return V.gen(r)
    if k == "bytearray":
        return bytearray([n, 3])
    if k == "subarray":
        return np.arange(n + 1).view(V.SA)
    if k == "matrix":
        return np.matrix([[n, 2]])
    if k == "sub2":
        return V.SRS(n)
    return np.full((2, 2), n)


def hashable(xs):
    try:
        hash(tuple(xs))
        return True
    except TypeError:
        return False


def cont(r, n, kids):
    ks = "list dict odict ddict plain oarray sl sd sod partial bunch est arrattr rsattr dc nested sdd".split()
    if len(kids) <= 2:
        ks += ["slots"]
    if hashable(kids):
        ks += ["set", "keys", "setattr"] * 2
    k = r.choice(ks)
    named = {f"a{j}": x for j, x in enumerate(kids)}
    if k == "list":
        return [n, *kids]
    if k == "dict":
        return {"n": n, **named}
    if k == "odict":
        return collections.OrderedDict(n=n, **named)
    if k == "ddict":
        return collections.defaultdict(r.choice([list, None, V.ff]), {"n": n, **{j: x for j, x in enumerate(kids)}})
    if k == "plain":
        return vtypes.Plain(n=n, **named)
    if k == "oarray":
        a = np.empty(len(kids) + 1, dtype=object)
        for j, x in enumerate([n, *kids]):
            a[j] = x
        return a if r.random() < 0.5 else a.reshape(1, -1)
    if k == "sl":
        return V.with_attrs(V.SL([n, *kids[1:]]), note=kids[:1])
    if k == "sd":
        return V.with_attrs(V.SD({"n": n}), **named)
    if k == "sod":
        return V.with_attrs(V.SOD(n=n, **named), note=kids[0] if kids else n)
    if k == "sdd":
        return V.with_attrs(V.SDD(list, {"n": n, **named}), note=n)
    if k == "partial":
        return functools.partial(V.ff, n, *kids[1:], **({"kw": kids[0]} if kids else {}))
    if k == "bunch":
        from sklearn.utils import Bunch

        return Bunch(n=n, **named)
    if k == "est":
        from sklearn.preprocessing import FunctionTransformer

        return V.with_attrs(FunctionTransformer(kw_args={"n": n}), **named)
    if k == "arrattr":
        return V.with_attrs(np.arange(n).view(V.SA), **named)
    if k == "rsattr":
        return V.with_attrs(V.SRS(n), **named)
    if k == "dc":
        return V.DC(n, list(kids))
    if k == "nested":
        return [[n], {"a": list(kids)}]
    if k == "slots":
        return vtypes.Slots(*(list(kids) + [n, n])[:2])
    if k == "set":
        return {n, *kids}
    if k == "setattr":
        return V.with_attrs(V.SSet({n, *kids}), n=n)
    if k == "keys":
        return {n: 1, **{x: j for j, x in enumerate(kids)}}
    raise ValueError(k)


def imm(r, n, kids):
    ks = "tuple nt igetter mcaller tuple tuple".split()
    if len(kids) <= 2:
        ks += ["slice"]
    if len(kids) == 1:
        ks += ["method"]
    if hashable(kids):
        ks += ["frozenset"]
    k = r.choice(ks)
    if k == "tuple":
        return (n, *kids)
    if k == "nt":
        return V.NT(n, tuple(kids))
    if k == "igetter":
        return operator.itemgetter(n, *kids)
    if k == "mcaller":
        return operator.methodcaller("m", n, *kids)
    if k == "slice":
        return slice(n, *(list(kids) + [None, None])[:2])
    if k == "method":
        return vtypes.Plain(n=n, a=kids[0]).method
    return frozenset({n, *kids})


def build(g, r):
    """objects for a graph of the specification; the root and the leaves"""
    objs, leaves = [], []
    tag = r.choice([0, 3])  # all alike, or not
    for j, k in enumerate(g["kind"]):
        kids = [objs[c - 1] for c in g["kids"][j]]
        n = 2 + tag * j
        if k == "leaf":
            o = leaf(r, n)
            leaves.append(o)
        elif k == "cont":
            o = cont(r, n, kids)
        elif k == "imm":
            o = imm(r, n, kids)
        else:
            o = vtypes.Fresh(n, *kids)
        objs.append(o)
    return objs[-1], leaves
