"""C20: results do not depend on other calls, against spec/SkopsCalls*.tla."""
from __future__ import annotations

import collections
import contextlib
import dataclasses
import functools
import gc
import hashlib
import io
import json
import operator
import os
import pickle
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import warnings
import zipfile
from pathlib import Path

import archives as A
import common
import numpy as np
import samples
import scipy.sparse as sp
import scipy.special
import valpool
import vtypes
from check_card import gen_table, proj
from check_dump import canon
from common import REPO, SEED, THOROUGH, VERIF, Check, MachineryError, esc, pmap, scratch, tlc, validate
from project import digest
from sklearn.base import BaseEstimator, clone
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.pipeline import make_pipeline
from sklearn.preprocessing import FunctionTransformer, StandardScaler
from sklearn.utils import Bunch

import skops.card._parser as parser
import skops.io as sio
from skops.card import Card

OPS = ["dump", "load", "types", "show", "card"]
LEAKS = "memo memofail memoend buffer alias current cards".split()
SKOPS = str(REPO / "skops")

SAME = '''
from sklearn.base import BaseEstimator as _BE, TransformerMixin as _TM
TAG = {tag!r}
def f(x=1): return (TAG, x)
class C:
    def __init__(self, **kw): self.__dict__.update(kw)
    def m(self): return TAG
class G:
    def __init__(self, v): self.v = v
    def __getstate__(self): return {{"tag": TAG, "v": self.v}}
    def __setstate__(self, s): self.v = [TAG, s["v"], s["tag"]]
class R:
    def __init__(self, v): self.v = v
    def __reduce__(self): return R, (self.v,)
class L(list): pass
class E(_TM, _BE):
    def __init__(self, p=TAG): self.p = p
    def fit(self, X, y=None): self.n_ = TAG; return self
    def transform(self, X): return X
'''


def write_same():
    d = scratch("same-")
    for n in ("vsame1", "vsame2", "vsame3"):
        (d / f"{n}.py").write_text(SAME.format(tag=n))
    sys.path.insert(0, str(d))
    import vsame1  # noqa: F401
    import vsame2  # noqa: F401
    import vsame3  # noqa: F401
    return d


def sha(x):
    return hashlib.sha256(x if isinstance(x, bytes) else json.dumps(x, default=repr).encode()).hexdigest()


VOLATILE = [(re.compile(r"sk-(container|estimator)-id-\d+"), r"sk-\1-id"), (re.compile(r"0x[0-9a-fA-F]{4,}"), "ADDR"),
            (re.compile(r"\b\d{12,}\b"), "ID"), (re.compile(r"t\d-(same|model|perm)"), r"\1")]


def still(s):
    for p, r in VOLATILE:
        s = p.sub(r, s)
    return s


def failure(e):
    return f"raised {type(e).__name__}: {still(str(e))}"


def shape(o, depth=4):
    """what can be said of objects in any state"""
    t = f"{type(o).__module__}.{type(o).__qualname__}"
    if type(o) in (int, float, str, bool, bytes, type(None)):
        return [t, repr(o)]
    if isinstance(o, type) or (callable(o) and hasattr(o, "__name__")):
        return [t, getattr(o, "__module__", "?"), getattr(o, "__name__", "?")]
    if depth == 0:
        return [t]
    if isinstance(o, dict):
        return [t, [[shape(k, depth - 1), shape(v, depth - 1)] for k, v in dict.items(o)]]
    if isinstance(o, (list, tuple)):
        return [t, [shape(x, depth - 1) for x in o]]
    return [t, shape(getattr(o, "__dict__", None), depth - 1)]


def value(o):
    try:
        return digest(o)
    except Exception:  # noqa: BLE001
        return sha(shape(o))


# --------------------------------------------------------------- objects that are easily mixed up
class Calls:
    """the calls: op, group, j-th of its group, prep() -> argument, go(argument) -> result, dig(result)"""

    def __init__(self):
        self.all, self.groups = [], {}
        self.names = {}

    def add(self, op, group, name, prep, go, dig, path=False, printed=False):
        c = {"op": op, "group": group, "name": f"{op} {group} {name}", "prep": prep, "go": go, "dig": dig,
             "path": path, "printed": printed, "k": len(self.all)}
        self.all.append(c)
        self.groups.setdefault(group, {}).setdefault(op, []).append(c["k"])
        assert c["name"] not in self.names, c["name"]
        self.names[c["name"]] = c["k"]


def data(seed, n=20):
    r = np.random.RandomState(seed)
    X = r.rand(n, 3)
    return X, (X[:, 0] > 0.5).astype(int)


def fitted(seed, C=1.0):
    return LogisticRegression(C=C).fit(*data(seed))


def locked(where):
    """objects that cannot be dumped, which is noticed on the way"""
    bad = threading.Lock()
    return {
        "list": lambda: [[1, 2], {"a": np.arange(3)}, bad], "first": lambda: bad,
        "attr": lambda: vtypes.Plain(a=[1, 2], z=bad), "est": lambda: LogisticRegression(C=bad),
        "key": lambda: {(1, 2): 3}, "gen": lambda: [np.ones(3), (x for x in [1])],
        "local": lambda: [1, lambda: 2], "refuses": lambda: [np.arange(4), vtypes.Refuses()],
        "pipe": lambda: make_pipeline(StandardScaler(), FunctionTransformer(lambda x: x)),
    }[where]()


def base_groups():
    """group -> list of builders"""
    import vsame1
    import vsame2
    import vsame3

    mods = [vsame1, vsame2, vsame3]
    g = collections.OrderedDict()
    g["ufunc-name"] = [lambda: np.log1p, lambda: scipy.special.log1p, lambda: np.sqrt, lambda: scipy.special.expit,
                       lambda: np.expm1, lambda: scipy.special.expm1, lambda: FunctionTransformer(np.log1p),
                       lambda: FunctionTransformer(scipy.special.log1p)]
    g["func-name"] = [functools.partial(getattr, m, "f") for m in mods] + [lambda: np.sum, lambda: sum, lambda: np.abs,
                                                                          lambda: abs]
    g["type-name"] = [functools.partial(getattr, m, "C") for m in mods] + [lambda: float, lambda: np.float64, lambda: int]
    g["class-name"] = [lambda m=m: m.C(a=1, b=[2]) for m in mods] + [lambda: vtypes.Plain(a=1, b=[2])]
    g["getstate-name"] = [lambda m=m: m.G([1]) for m in mods]
    g["reduce-name"] = [lambda m=m: m.R([1, m.TAG]) for m in mods]
    g["list-name"] = [lambda m=m: m.L([1, 2]) for m in mods] + [lambda: [1, 2]]
    g["est-name"] = [lambda m=m: m.E() for m in mods] + [lambda m=m: m.E(p=[1]).fit(None) for m in mods]
    g["method-name"] = [lambda m=m: m.C(a=1).m for m in mods] + [lambda: fitted(1).predict, lambda: fitted(2).predict]
    g["one"] = [lambda: 1, lambda: True, lambda: 1.0, lambda: np.int64(1), lambda: np.float64(1), lambda: "1",
                lambda: np.True_, lambda: np.int8(1), lambda: np.array(1), lambda: b"1"]
    g["zero"] = [lambda: 0.0, lambda: -0.0, lambda: 0, lambda: False, lambda: None, lambda: "", lambda: [], lambda: (),
                 lambda: {}, lambda: set(), lambda: frozenset(), lambda: b"", lambda: bytearray()]
    g["key"] = [lambda: {1: "a"}, lambda: {True: "a"}, lambda: {1.0: "a"}, lambda: {"1": "a"},
                lambda: {np.int64(1): "a"}, lambda: {None: "a"}, lambda: {"a": 1}, lambda: Bunch(a=1),
                lambda: collections.OrderedDict(a=1), lambda: collections.defaultdict(int, a=1)]
    g["str"] = [lambda: ["a", np.str_("a")], lambda: [np.str_("a"), "a"], lambda: b"a", lambda: bytearray(b"a"),
                lambda: ("a",), lambda: {"a"}, lambda: frozenset("a")]
    g["list-id"] = [lambda k=k: [[k], [k + 1]] for k in range(6)]
    g["array-id"] = [lambda k=k: np.full(3, k) for k in range(5)] + [lambda: np.arange(3.0), lambda: np.ones((1, 3))]
    g["array-deep"] = [lambda k=k: {"w": [np.full(3, k), np.full(3, k)]} for k in range(4)]
    g["dict-id"] = [lambda k=k: {"a": {"b": [k]}} for k in range(4)]
    g["plain-id"] = [lambda k=k: vtypes.Plain(x=vtypes.Plain(y=k)) for k in range(4)]
    g["sparse"] = [lambda k=k: sp.csr_matrix(np.eye(2) * k) for k in (1, 2, 3)] + [lambda: sp.coo_matrix(np.eye(2))]
    g["masked"] = [lambda k=k: np.ma.array([1, 2, k], mask=[0, 1, 0]) for k in (1, 2)]
    g["rng"] = [lambda k=k: np.random.RandomState(k) for k in (1, 2)] + [lambda k=k: np.random.default_rng(k) for k in (1, 2)]
    g["partial"] = [lambda: functools.partial(vtypes.fun, x=1), lambda: functools.partial(vtypes.fun, x=True),
                    lambda: functools.partial(vsame1.f, x=1), lambda: functools.partial(vsame2.f, x=1),
                    lambda: operator.itemgetter(0), lambda: operator.itemgetter(1), lambda: operator.attrgetter("a"),
                    lambda: operator.methodcaller("a", 1)]
    g["slice"] = [lambda: slice(0, 1), lambda: slice(0, True), lambda: slice(None), lambda: [slice(0, 1)] * 2]
    g["dtype"] = [lambda: np.dtype("f8"), lambda: np.dtype(">f8"), lambda: np.dtype("i8"), lambda: np.dtype([("a", "f8")])]
    g["bytes"] = [lambda k=k: bytes([k]) * 40 for k in (1, 2)] + [lambda: bytearray(b"\x01" * 40)]
    g["est"] = [lambda: fitted(1), lambda: fitted(2), lambda: fitted(1, C=2.0), lambda: LogisticRegression(),
                lambda: LogisticRegression(C=1), lambda: Ridge().fit(*data(1)), lambda: clone(fitted(1))]
    g["pipe"] = [lambda: make_pipeline(StandardScaler(), LogisticRegression()).fit(*data(1)),
                 lambda: make_pipeline(StandardScaler(), LogisticRegression()).fit(*data(2)),
                 lambda: make_pipeline(vsame1.E(), LogisticRegression()), lambda: make_pipeline(vsame2.E(), LogisticRegression())]
    g["fails"] = [lambda w=w: locked(w) for w in "list first attr est key gen local refuses pipe".split()]
    g["fails"] += [lambda: [[1, 2], {"a": np.arange(3)}], lambda: vtypes.Plain(a=[1, 2], z=1)]
    s = samples.samples
    g["samples"] = [functools.partial(lambda n: s()[n], n) for n in sorted(s())]
    w = valpool.wild()
    ns = sorted(w)
    random.Random(f"{SEED}/calls").shuffle(ns)
    ns = [n for n in ns if not re.search("cycl|deep|gen", n)][: 200 if THOROUGH else 60]
    g["wild"] = [functools.partial(lambda n: valpool.wild()[n], n) for n in ns]
    return g


def safe_dump(o):
    try:
        return sio.dumps(o)
    except Exception:  # noqa: BLE001
        return None


def cook():
    """archives of everything, made in a process of its own: group -> list of (bytes, names)"""
    res = {}
    for name, builders in base_groups().items():
        res[name] = []
        for b in builders:
            try:
                d = sio.dumps(b())
                res[name].append((d, sio.get_untrusted_types(data=d)))
            except Exception:  # noqa: BLE001
                res[name].append(None)
    return res


class Keep:
    """an object for all calls of a process, in the state given"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.lst, self.dct = [1, [2]], {"a": [1]}
        self.est = LogisticRegression()
        self.arr = np.zeros(3)
        self.obj = vtypes.Plain(a=1)
        self.raw = bytearray()
        self.trusted = []

    def state(self, kind, v):
        if kind == "list":
            self.lst[:] = [1, [2]] + [v] * v
            return self.lst
        if kind == "dict":
            self.dct.clear()
            self.dct.update({"a": [1], f"b{v}": v})
            return self.dct
        if kind == "est":
            return self.est.set_params(C=1.0 + v)
        if kind == "array":
            self.arr[:] = v
            return self.arr
        self.obj.__dict__.clear()
        self.obj.__dict__.update({"a": v, "b": [self.lst]} if v else {"a": 0})
        self.lst[:] = [v]
        return self.obj


KEEP = Keep()


def rows(d, **kw):
    out = []

    def sink(nodes, *a, **k):
        out.extend(dataclasses.astuple(n) for n in nodes)

    sio.visualize(d, sink=sink, **kw)
    return out


def printed(d, **kw):
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        sio.visualize(d, **kw)
    return f.getvalue()


def names(u):
    return f"{type(u).__name__} {u!r:.300} {sha(u)}"


def show_dig(x):
    return sha(still(json.dumps(x)))


def write(path, d):
    Path(path).write_bytes(d)
    return path


def broken(d, how):
    """damaged archives"""
    if how == "cut":
        return d[: len(d) // 2]
    if how == "flip":
        b = bytearray(d)
        b[len(b) // 3] ^= 0xFF
        return bytes(b)
    s, m, p = A.parts(d)
    if how == "kind":
        s["__loader__"] = "NoSuchNode"
    elif how == "nofile":
        m = {}
    elif how == "proto":
        p = 99
    elif how == "late":
        s = A.LIST(A.J(1), A.st("NdArrayNode", "numpy.ndarray", type="numpy", file="missing.npy", __id__=3), A.J(2))
    return A.archive(s, m, p)


def make_calls(food):
    cs = Calls()
    for g, builders in base_groups().items():
        for j, b in enumerate(builders):
            cs.add("dump", g, j, b, sio.dumps, canon)
            if j % 5 == 0:
                cs.add("dump", g, f"{j} zip", b, lambda o: sio.dumps(o, compression=zipfile.ZIP_DEFLATED), canon)
            if j % 3 == 0:
                cs.add("dump", g, f"{j} path", b, lambda o: sio.dump(o, where("same.skops")),
                       lambda r: canon(Path(where("same.skops")).read_bytes()), path=True)
            if food[g][j] is None:
                continue
            d, u = food[g][j]
            cs.add("load", g, j, lambda d=d, u=u: (d, list(u)), lambda a: sio.loads(a[0], trusted=a[1]), value)
            cs.add("types", g, j, lambda d=d: d, lambda d: sio.get_untrusted_types(data=d), names)
            cs.add("show", g, j, lambda d=d: d, rows, show_dig)
            if j % 3 == 0:
                cs.add("load", g, f"{j} path", lambda d=d, u=u: (write(where("same.skops"), d), list(u)),
                       lambda a: sio.load(a[0], trusted=a[1]), value, path=True)
                cs.add("types", g, f"{j} path", lambda d=d: write(where("same.skops"), d),
                       lambda p: sio.get_untrusted_types(file=p), names, path=True)
                cs.add("show", g, f"{j} path", lambda d=d: write(where("same.skops"), d), rows, show_dig, path=True)
            if j % 4 == 1:
                cs.add("show", g, f"{j} printed", lambda d=d: d, printed, show_dig, printed=True)
                cs.add("show", g, f"{j} part", lambda d=d: d, lambda d: rows(d, show="untrusted"), show_dig)
                cs.add("show", g, f"{j} trusted", lambda d=d, u=u: (d, u[:1]), lambda a: rows(a[0], trusted=a[1]), show_dig)
            if u:
                cs.add("load", g, f"{j} refused", lambda d=d: d, sio.loads, value)
                cs.add("load", g, f"{j} part", lambda d=d, u=u: (d, u[1:]), lambda a: sio.loads(a[0], trusted=a[1]), value)
    # one object, changed between the calls
    for kind in ("list", "dict", "est", "array", "obj"):
        for v in range(3):
            cs.add("dump", f"changed-{kind}", v, lambda kind=kind, v=v: KEEP.state(kind, v), sio.dumps, canon)
        for v in range(3):  # and archives in one buffer
            d, u = food["est"][v]
            if kind == "est":
                cs.add("types", f"changed-{kind}", v, lambda d=d: buffer(d), lambda b: sio.get_untrusted_types(data=b), names)
                cs.add("load", f"changed-{kind}", v, lambda d=d: buffer(d), sio.loads, value)
                cs.add("show", f"changed-{kind}", v, lambda d=d: write(where("same.skops"), d), rows, show_dig, path=True)
    # one list of trusted names for all calls
    for j, (g, i) in enumerate([("class-name", 0), ("class-name", 1), ("getstate-name", 2), ("est-name", 0)]):
        d, u = food[g][i]
        for full in (False, True):
            cs.add("load", "trusted-list", f"{j} {full}", lambda d=d, u=u, full=full: (d, trusted(u if full else [])),
                   lambda a: sio.loads(a[0], trusted=a[1]), value)
        cs.add("show", "trusted-list", j, lambda d=d, u=u: (d, trusted(u)), lambda a: rows(a[0], trusted=a[1]), show_dig)
        cs.add("types", "trusted-list", j, lambda d=d: d, lambda d: sio.get_untrusted_types(data=d), names)
    # damaged archives, of one name each
    whole, _ = food["est"][0]
    arr, _ = food["array-deep"][1]
    for j, (how, d) in enumerate([(h, d) for d in (whole, arr) for h in
                                  ("cut", "flip", "kind", "nofile", "proto", "late", "none")]):
        d = broken(d, how) if how != "none" else d
        cs.add("load", "broken", f"{j} {how}", lambda d=d: d, sio.loads, value)
        cs.add("types", "broken", f"{j} {how}", lambda d=d: d, lambda d: sio.get_untrusted_types(data=d), names)
        cs.add("show", "broken", f"{j} {how}", lambda d=d: d, rows, show_dig)
    # hand-made archives: the same names of the same kinds at every protocol, trusted or not
    for proto in (0, 1, 2, 3):
        for kind in sorted(A.SLOTS):
            for m in ("vsame1", "vsame2", "own"):
                n = A.OWN[kind] if m == "own" else f"{m}.{A.NATURAL[kind]}"
                if m == "vsame2" and proto != 2:
                    continue
                try:
                    d = A.archive(A.make(kind, n, proto=proto, id=7), {}, proto)
                except Exception:  # noqa: BLE001
                    continue
                grp = f"made-{kind}"
                cs.add("types", grp, f"{proto} {m}", lambda d=d: d, lambda d: sio.get_untrusted_types(data=d), names)
                cs.add("load", grp, f"{proto} {m}", lambda d=d: d, sio.loads, value)
                if proto in (0, 2):
                    cs.add("show", grp, f"{proto} {m}", lambda d=d: d, rows, show_dig)
    return cs


LOCAL = threading.local()


def where(name):
    """file names are the same in all calls of a thread"""
    t = getattr(LOCAL, "tag", "")
    return f"{t}{name}"


def buffer(d):
    KEEP.raw[:] = d
    return KEEP.raw


def trusted(u):
    KEEP.trusted[:] = u
    return KEEP.trusted


def call(c, keep=None, spoil=False):
    """digest of the result of a call"""
    a = c["prep"]()
    try:
        r = c["go"](a)
    except RecursionError:
        return "raised RecursionError"
    except Exception as e:  # noqa: BLE001
        return failure(e)
    try:
        d = c["dig"](r)
    except Exception as e:  # noqa: BLE001
        return f"undigestible {failure(e)}"
    if spoil:
        ruin(r)
    if keep is not None:
        keep.append((a, r))
    return d


def ruin(r, depth=3):
    """what a caller may do with what was returned to it"""
    try:
        if isinstance(r, list):
            for x in list(r):
                if depth:
                    ruin(x, depth - 1)
            r.append("ruined")
            r.reverse()
        elif isinstance(r, dict):
            for x in list(r.values()):
                if depth:
                    ruin(x, depth - 1)
            r["ruined"] = "ruined"
        elif isinstance(r, set):
            r.add("ruined")
        elif isinstance(r, bytearray):
            r.extend(b"ruined")
        elif isinstance(r, np.ndarray):
            if r.dtype.kind in "if" and r.flags.writeable:
                r += 1
        elif hasattr(r, "__dict__") and not isinstance(r, type) and not callable(r):
            for x in list(vars(r).values()):
                if depth:
                    ruin(x, depth - 1)
            r.__dict__["ruined"] = [1]
    except Exception:  # noqa: BLE001
        pass


# --------------------------------------------------------------- cards
TEMPLATE = {"A": "from the template", "A/B": "also", "Model description": "", "Metrics": "m"}
TABLE = {"a": [1, 2], "b": ["x", "y"]}
METRICS = {"acc": 0.5, "f1": 0.25}
NAMES = ["A", "A/B", "B", "Metrics", "Model description", "Model description/X", "C/D/E"]


STEPS = ("add add addfold metrics metrics table tab2 plot hyper diagram code delete select visible title"
         " toc render save repr perm fold sub model")


class Script:
    """a card's own life; steps are functions of the card"""

    def __init__(self, k, food, kind=None):
        self.k = k
        self.r = r = random.Random(f"{SEED}/script/{k}")
        like = random.Random(f"{SEED}/script/{kind}") if kind else r
        self.template = like.choice([None, "skops", "hub", "shared", "shared", "own"])
        self.model = r.choice(["none", "est", "est2", "pipe", "path", "untrusted"])
        self.food = food
        self.steps = [self.step(r, kind) for _ in range(1 if kind else 8)]

    def new(self):
        d, u = self.food["est"][self.k % 3]
        model = {"none": lambda: None, "est": lambda: LogisticRegression(C=self.k + 1),
                 "est2": lambda: Ridge(alpha=self.k + 1),
                 "pipe": lambda: make_pipeline(StandardScaler(), LogisticRegression(C=self.k + 1)),
                 "path": lambda: write(where(f"model{self.k}.skops"), d),
                 "untrusted": lambda: write(where(f"model{self.k}.skops"), self.food["est-name"][self.k % 3][0])}[self.model]()
        trust = self.food["est-name"][self.k % 3][1] if self.model == "untrusted" else None
        t = {"shared": TEMPLATE, "own": {"A": f"own {self.k}", "Z": ""}}.get(self.template, self.template)
        try:
            return Card(model, template=t, trusted=trust, model_diagram=self.k % 3 == 0 and self.model in ("est", "pipe"))
        except Exception:  # noqa: BLE001  (templates that need a model)
            return Card(model, template=None, trusted=trust)

    def step(self, r, kind=None):
        n, v = r.choice(NAMES), f"v{self.k}-{r.randint(0, 99)}"
        x = kind or r.choice(STEPS.split())
        if x == "add":
            return lambda c: c.add(**{n: v}) and None
        if x == "addfold":
            return lambda c: c.add(folded=True, **{n: v, "Q": v}) and None
        if x == "metrics":
            how = r.random()
            if how < 0.4:
                return lambda c: c.add_metrics(section="Metrics", **METRICS) and None
            return lambda c: c.add_metrics(section=r"Metrics" if how < 0.7 else "A/M", acc=len(v), **{v: self.k}) and None
        if x == "table":
            return lambda c: c.add_table(**{n: TABLE}) and None
        if x == "tab2":
            t, _, _ = gen_table(r)
            return lambda c: c.add_table(folded=True, **{f"T{self.k % 2}": t}) and None
        if x == "plot":
            return lambda c: c.add_plot(description=v, alt_text=v, **{n: "same.png"}) and None
        if x == "hyper":
            return lambda c: c.add_hyperparams("Hyper") and None
        if x == "diagram":
            return lambda c: c.add_model_plot("Diagram") and None
        if x == "code":
            return lambda c: c.add_get_started_code("Code", file_name="same.skops", model_format="skops") and None
        if x == "delete":
            return lambda c: c.delete(n)
        if x == "select":
            def f(c):
                c.select(n).content = v
            return f
        if x in ("visible", "fold", "title"):
            def f(c):
                s = c.select(n)
                if x == "title":
                    s.title = v
                else:
                    setattr(s, "visible" if x == "visible" else "folded", x == "fold")
            return f
        if x == "sub":
            def f(c):
                from skops.card._model_card import Section
                s = c.select(n)
                s.subsections["own"] = Section(title="own", content=v)
            return f
        if x == "toc":
            return lambda c: c.get_toc()
        if x == "render":
            return lambda c: c.render()
        if x == "repr":
            return lambda c: repr(c)
        if x == "model":
            return lambda c: value(c.get_model())
        if x == "save":
            def f(c):
                c.save(where("same.md"))
                return Path(where("same.md")).read_text()
            return f

        def perm(c):
            f = where(f"perm{self.k % 2}.png")
            imp = np.random.RandomState(self.k).rand(3, 4)
            b = Bunch(importances=imp, importances_mean=imp.mean(axis=1))
            c.add_permutation_importances(b, np.array(["a", "b", f"c{self.k}"]), plot_file=f, overwrite=True)
            return sha(Path(f).read_bytes())
        return perm

    def life(self):
        """digests after each step, of this card alone; the first is the new card"""
        c, res = self.new(), []
        res.append(card_digest(c, None))
        for s in self.steps:
            res.append(card_digest(c, self.do(s, c)))
        return res

    def do(self, s, c):
        try:
            return s(c)
        except Exception as e:  # noqa: BLE001
            return failure(e)


def card_state(c):
    try:
        p = proj(c, full=True)
    except Exception as e:  # noqa: BLE001
        p = failure(e)
    out = []
    for f in (c.render, c.get_toc, lambda: repr(c)):
        try:
            out.append(f())
        except Exception as e:  # noqa: BLE001
            out.append(failure(e))
    return sha(still(json.dumps([_plain(p), out])))


def _plain(p):
    """code points back to text"""
    if isinstance(p, list):
        if p and all(isinstance(x, int) and not isinstance(x, bool) for x in p):
            return "".join(map(chr, p))
        return [_plain(x) for x in p]
    if isinstance(p, dict):
        return {k: _plain(v) for k, v in p.items()}
    return p


def card_digest(c, val):
    return [card_state(c), sha(still(json.dumps(val, default=repr)))]


# --------------------------------------------------------------- processes
def isolated(fn, *args):
    """fn(*args) in a process that never called the library"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            d = tempfile.mkdtemp(dir=_W["dir"])
            os.chdir(d)
            warnings.simplefilter("ignore")
            KEEP.reset()
            res = fn(*args)
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
            code = 0
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
        finally:
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        b = f.read()
    _, st = os.waitpid(pid, 0)
    if st != 0:
        raise MachineryError(f"process for {fn} {args!r:.100} ended with {st}")
    return pickle.loads(b)


_W = {}


def one(k):
    return isolated(lambda: call(_W["calls"].all[k]))


def again(k):
    """whether a call has one result: twice in processes of their own, with different free memory"""
    def f():
        junk = [[object() for _ in range(j)] for j in range(0, 2000, 7)]
        del junk[::2]
        return call(_W["calls"].all[k])
    return isolated(f)


def life(k):
    return isolated(lambda: _W["scripts"][k].life())


# --------------------------------------------------------------- histories
def play(steps, keep, ncards):
    """steps: ("call", k, spoil) or ("card", script); events for the specification"""
    evs, kept = [], []
    cards, order, at = {}, [], {}
    pure, lives = _W["pure"], _W["lives"]
    for s in steps:
        if s[0] == "call":
            c = _W["calls"].all[s[1]]
            got = call(c, kept if keep else None, s[2])
            ev = {"op": "call", "c": 0, "pure": esc(pure[s[1]]), "got": esc(got), "what": c["name"] + (" +spoil" if s[2] else "")}
        else:
            k = s[1]
            sc = _W["scripts"][k]
            if k not in cards:
                cards[k] = sc.new()
                order.append(k)
                at[k] = 0
                val, op = None, "new"
            else:
                if at[k] >= len(sc.steps):
                    continue
                val, op = sc.do(sc.steps[at[k]], cards[k]), "card"
                at[k] += 1
            want = lives[k][at[k]]
            dg = card_digest(cards[k], val)
            ev = {"op": op, "c": order.index(k) + 1, "pure": want[0], "got": "", "what": f"{op} card {k} step {at[k]}"}
        ev["cards"] = [card_state(cards[k]) for k in order]
        evs.append(ev)
        if s[0] == "card":
            evs.append({"op": "call", "c": 0, "pure": want[1], "got": dg[1], "what": f"value of card {k} step {at[k]}",
                        "cards": ev["cards"]})
    return evs


def work_history(job):
    return isolated(play, job["steps"], job["keep"], 3)


def concrete(row, rng, cs, groups):
    """a history of the specification on real calls of one group"""
    steps, used = [], {}
    for h in row["h"]:
        if h["op"] == "card":
            steps.append(("card", used.setdefault(("card", h["obj"]), rng.randrange(_W["nlong"]))))
            # two cards are two scripts
            continue
        key = (h["op"], h["obj"])
        if key not in used:
            g = used.setdefault("group", rng.choice(groups))
            pool = cs.groups[g].get(h["op"]) or cs.groups[rng.choice(groups)].get(h["op"]) or cs.groups["est"][h["op"]]
            used[key] = rng.choice(pool)
        steps.append(("call", used[key], h["spoil"]))
    return steps


# --------------------------------------------------------------- schedules
class Gate:
    """runs threads in the order of a schedule; a thread's events are divided among its turns"""

    def __init__(self, sched, bounds, patience=4.0):
        self.sched, self.bounds, self.pos = sched, bounds, 0
        self.n = [0] * len(bounds)
        self.done = [False] * len(bounds)
        self.cv = threading.Condition()
        self.free = False
        self.patience = patience

    def _skip(self):
        while self.pos < len(self.sched) and self.done[self.sched[self.pos]]:
            self.pos += 1

    def wait(self, t):
        with self.cv:
            self._skip()
            end = time.monotonic() + self.patience
            while not self.free and self.pos < len(self.sched) and self.sched[self.pos] != t:
                left = end - time.monotonic()
                if left <= 0:
                    self.free = True  # the other one waits for something this one holds
                    self.cv.notify_all()
                    break
                self.cv.wait(left)
                self._skip()

    def tick(self, t):
        self.n[t] += 1
        if not self.free and self.n[t] in self.bounds[t]:
            with self.cv:
                self.pos += 1
                self.cv.notify_all()
            self.wait(t)

    def end(self, t):
        with self.cv:
            self.done[t] = True
            if self.pos < len(self.sched) and self.sched[self.pos] == t:
                self.pos += 1
            self._skip()
            self.cv.notify_all()

    def tracer(self, t):
        def local(frame, event, arg):
            if event == "line":
                self.tick(t)
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(SKOPS) else None

        return glob


def task_fn(task):
    if task[0] == "call":
        c = _W["calls"].all[task[1]]
        return lambda: call(c), esc(_W["pure"][task[1]]), c["name"]
    k, n = task[1], task[2]
    sc = _W["scripts"][k]

    def go():
        c, val = sc.new(), None
        for s in sc.steps[:n]:
            val = sc.do(s, c)
        return sha(card_digest(c, val))

    return go, sha(_W["lives"][k][n]), f"card {k}, {n} steps"


def count_events(task):
    """events of a task on its own"""
    def f():
        n = [0]

        def local(frame, event, arg):
            if event == "line":
                n[0] += 1
            return local

        go, _, _ = task_fn(task)
        sys.settrace(lambda fr, e, a: local if fr.f_code.co_filename.startswith(SKOPS) else None)
        try:
            go()
        finally:
            sys.settrace(None)
        return n[0]

    return isolated(f)


def threads(tasks, sched, bounds):
    """run the tasks in threads by the schedule; the results"""
    g = Gate(sched, bounds)
    out = [None] * len(tasks)

    def run(t):
        LOCAL.tag = f"t{t}-"
        go, _, _ = task_fn(tasks[t])
        g.wait(t)
        sys.settrace(g.tracer(t))
        try:
            out[t] = go()
        except BaseException as e:  # noqa: BLE001
            out[t] = failure(e)
        finally:
            sys.settrace(None)
            g.end(t)

    ths = [threading.Thread(target=run, args=(t,)) for t in range(len(tasks))]
    for x in ths:
        x.start()
    for x in ths:
        x.join(120)
    return out, g.free


def work_threads(job):
    def f():
        evs = []
        for tasks, sched, bounds in job["runs"]:
            out, free = threads(tasks, sched, bounds)
            for t, task in enumerate(tasks):
                _, want, name = task_fn(task)
                evs.append({"op": "call", "c": 0, "cards": [], "pure": want, "got": esc(str(out[t])),
                            "what": f"{name} | with {[task_fn(x)[2] for x in tasks if x is not task]} schedule "
                                    f"{sched} at {[sorted(b)[:4] for b in bounds]}"})
            # what is left behind
            for t, task in enumerate(tasks):
                go, want, name = task_fn(task)
                evs.append({"op": "call", "c": 0, "cards": [], "pure": want, "got": esc(str(go())), "what": f"{name} afterwards"})
            _ = free
        return evs

    return isolated(f)


def work_stress(job):
    """threads that run freely, switched as often as possible"""
    def f():
        res = [[] for _ in job["tasks"]]

        def run(t):
            LOCAL.tag = f"t{t}-"
            for task in job["tasks"][t]:
                go, want, name = task_fn(task)
                try:
                    got = go()
                except BaseException as e:  # noqa: BLE001
                    got = failure(e)
                res[t].append({"op": "call", "c": 0, "cards": [], "pure": want, "got": esc(str(got)), "what": f"{name} | among {len(job['tasks'])} threads"})

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        ths = [threading.Thread(target=run, args=(t,)) for t in range(len(res))]
        for x in ths:
            x.start()
        for x in ths:
            x.join(300)
        sys.setswitchinterval(old)
        return [e for r in res for e in r]

    return isolated(f)


# --------------------------------------------------------------- the check
def cfg(threads_, ops, objs, failing, maxc, parts, spoils, leak):
    return ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Independent\nINVARIANT CardsApart\nINVARIANT Emit\n"
            f"CONSTANT Threads = {threads_}\nCONSTANT Ops = {ops}\nCONSTANT Objs = {objs}\nCONSTANT Failing = {failing}\n"
            f"CONSTANT MaxCalls = {maxc}\nCONSTANT NParts = {parts}\nCONSTANT Spoils = {spoils}\nCONSTANT Leak = \"{leak}\"\n")


def spec_run(ck):
    ops = "{" + ", ".join(f'"{o}"' for o in OPS) + "}"
    seq = ("{1}", ops, "{1, 2, 3}", "{3}", 3, 2, 1)
    con = ("{1, 2}", ops, "{1, 2}", "{2}", 1, 3, 0)
    out = []
    for what, inst in (("histories", seq), ("schedules", con)):
        r = tlc("SkopsCalls", cfg(*inst, "none"))
        ck.add("states", r.distinct)
        ck.add("transitions", r.states)
        ck.log(f"SkopsCalls {what}: {r.distinct} states, {len(r.rows)} behaviours, {r.wall:.1f}s")
        out.append(sorted(r.rows, key=lambda x: json.dumps(x, sort_keys=True)))
    for leak in LEAKS:
        inst = con if leak in ("memoend", "buffer", "current") else seq
        try:
            tlc("SkopsCalls", cfg(*inst, leak))
        except MachineryError as e:
            if "Finish" in str(e) or "Independent" in str(e):
                continue
            raise
        raise MachineryError(f"the instance does not show the fault {leak}")
    ck.cov["faults_refuted_by_the_specification"] = LEAKS
    return out


def report(ck, jobs, evs, kind):
    traces = [[{k: e[k] for k in ("op", "c", "pure", "got", "cards")} for e in ev] for ev in evs]
    bad, n, states = validate("SkopsCallsTrace", traces)
    ck.add("states", states)
    ck.add("events", n)
    ck.add("traces_validated_against_impl", len(traces))
    for b in bad:
        e = evs[b["t"]][b["i"]]
        hist = [x["what"] for x in evs[b["t"]][: b["i"] + 1]][-40:]
        for cl in b["bad"]:
            ck.violation(f"{cl}-{kind}", {"event": e, "history": hist},
                         f"{e['what']}: {e['got'][:150]} instead of {e['pure'][:150]} after {hist[-6:-1]}")
    return len(bad)


def fresh_process(ks):
    """the same calls as first calls of interpreters that were just started"""
    code = ("import sys; sys.path.insert(0, %r); import common; common.use_repo(); import check_calls; "
            "check_calls.serve_fresh(%r)" % (str(VERIF / "harness"), list(ks)))
    p = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True,
                       env=dict(os.environ, VERIF_FOOD=str(_W["food"]), PYTHONPATH=os.environ.get("PYTHONPATH", "")))
    if p.returncode != 0:
        raise MachineryError(p.stderr[-2000:])
    return json.loads(p.stdout.splitlines()[-1])


def setup(food):
    from sklearn.utils import _estimator_html_repr as html

    # scikit-learn numbers the diagrams of a process: not a matter of skops
    html._IDCounter.get_id = lambda self: f"{self.prefix}-1"
    _W["dir"] = scratch("calls-")
    _W["calls"] = make_calls(food)
    _W["scripts"] = [Script(k, food) for k in range(60 if THOROUGH else 24)]
    _W["nlong"] = len(_W["scripts"])
    # and two cards for every kind of step
    _W["kinds"] = sorted(set(STEPS.split()))
    for x in _W["kinds"]:
        _W["scripts"] += [Script(len(_W["scripts"]), food, x), Script(len(_W["scripts"]) + 1, food, x)]


def serve_fresh(ks):
    warnings.simplefilter("ignore")
    sys.path.insert(0, json.loads(Path(os.environ["VERIF_FOOD"] + ".json").read_text())["same"])
    import vsame1  # noqa: F401
    import vsame2  # noqa: F401
    import vsame3  # noqa: F401
    with open(os.environ["VERIF_FOOD"], "rb") as f:
        setup(pickle.load(f))
    os.chdir(_W["dir"])
    res = [call(_W["calls"].all[k]) for k in ks[:1]]
    os.chdir("/")
    shutil.rmtree(_W["dir"], ignore_errors=True)
    print(json.dumps(res))


def run_C20():
    ck = Check("C20", "model_checking",
               "histories and schedules of the bounded instance on calls of groups of arguments that are easily mixed "
               "up, long random histories, every call first in a process before all others of its group, threads "
               "switched at chosen lines and freely; each result compared with the one of the call in a process of its own")
    warnings.simplefilter("ignore")
    import matplotlib.pyplot  # noqa: F401  (imports take locks)

    hist, conc = spec_run(ck)
    same = write_same()
    _W["dir"] = scratch("calls-")
    food = isolated(cook)
    setup(food)
    gc.collect()
    gc.freeze()  # what is there already need not be copied by every process
    cs = _W["calls"]
    _W["food"] = scratch("food-") / "food.pkl"
    _W["food"].write_bytes(pickle.dumps(food))
    Path(str(_W["food"]) + ".json").write_text(json.dumps({"same": str(same)}))
    n = len(cs.all)
    pure = pmap(one, range(n))
    more = pmap(again, range(n))
    loose = {k for k in range(n) if pure[k] != more[k] or pure[k].startswith("undigestible")}
    if len(loose) > n // 10:
        raise MachineryError(f"{len(loose)} calls without a result of their own: {[cs.all[k]['name'] for k in sorted(loose)[:9]]}")
    _W["pure"] = pure
    _W["lives"] = pmap(life, range(len(_W["scripts"])))
    lives2 = pmap(life, range(len(_W["scripts"])))
    if lives2 != _W["lives"]:
        raise MachineryError("cards without a life of their own")
    ck.add("calls", n)
    ck.cov["calls_without_a_fixed_result"] = [cs.all[k]["name"] for k in sorted(loose)]
    ck.log(f"{n} calls in {len(cs.groups)} groups, {len(loose)} without a fixed result, "
           f"{sum(p.startswith('raised') for p in pure)} raise; {len(_W['scripts'])} cards")
    for g in cs.groups.values():
        for op in list(g):
            g[op] = [k for k in g[op] if k not in loose]
            if not g[op]:
                del g[op]
    groups = sorted(g for g in cs.groups if cs.groups[g])
    rng = random.Random(f"{SEED}/calls")

    # interpreters just started
    fresh = rng.sample([k for k in range(n) if k not in loose], 24 if THOROUGH else 8)
    got = pmap(lambda k: fresh_process([k])[0], fresh)
    evs = [[{"op": "call", "c": 0, "cards": [], "pure": esc(pure[k]), "got": esc(x), "what": cs.all[k]["name"] + " first"}]
           for k, x in zip(fresh, got)]
    report(ck, fresh, evs, "fresh-interpreter")
    ck.log("interpreters just started")

    # histories of the specification
    rows = hist if THOROUGH else rng.sample(hist, min(len(hist), 1200))
    jobs = []
    for r in rows:
        st = concrete(r, rng, cs, groups)
        jobs.append({"steps": apart(st, r, rng), "keep": rng.random() < 0.4})
    # every call before all others of its group
    for g in groups:
        ks = [k for op in cs.groups[g] for k in cs.groups[g][op]]
        firsts = ks if len(ks) <= 30 or THOROUGH else rng.sample(ks, 30)
        for k in firsts:
            rest = [x for x in ks if x != k]
            rng.shuffle(rest)
            rest = rest[:40]
            jobs.append({"steps": [("call", k, rng.random() < 0.3), *[("call", x, rng.random() < 0.2) for x in rest], ("call", k, False)],
                         "keep": rng.random() < 0.3})
    # long ones over everything
    allk = [k for k in range(n) if k not in loose]
    for _ in range(1500 if THOROUGH else 150):
        st = []
        mine = rng.sample(range(_W["nlong"]), 3)
        for _ in range(rng.randint(20, 60)):
            if rng.random() < 0.25:
                st.append(("card", rng.choice(mine)))
            elif rng.random() < 0.2 and st:
                st.append(rng.choice([s for s in st]))
            else:
                st.append(("call", rng.choice(allk), rng.random() < 0.3))
        jobs.append({"steps": st, "keep": rng.random() < 0.3})
    # cards made the same way
    for _ in range(1500 if THOROUGH else 250):
        t = rng.choice([None, "skops", "hub", "shared", "own"])
        like = [k for k, x in enumerate(_W["scripts"][: _W["nlong"]]) if x.template == t]
        if len(like) < 2:
            continue
        mine = rng.sample(like, min(len(like), rng.randint(2, 3)))
        st = [("card", k) for k in mine for _ in range(9)]
        rng.shuffle(st)
        jobs.append({"steps": st, "keep": False})
    evs = pmap(work_history, jobs)
    report(ck, jobs, evs, "history")
    ck.add("histories", len(jobs))
    ck.log(f"{len(jobs)} histories")

    # schedules
    pool = {op: [k for k in allk if cs.all[k]["op"] == op and not cs.all[k]["printed"] and cs.all[k]["group"] not in
                 ("changed-list", "changed-dict", "changed-est", "changed-array", "changed-obj", "trusted-list")]
            for op in OPS[:-1]}
    bygroup = {}
    for op in pool:
        for k in pool[op]:
            bygroup.setdefault(cs.all[k]["group"], {}).setdefault(op, []).append(k)
    gs = sorted(bygroup)

    def task(op, g, rng):
        if op == "card":
            return ("card", rng.randrange(_W["nlong"]), rng.randint(1, 8))
        return ("call", rng.choice(bygroup[g].get(op) or pool[op]))

    pairs = []
    want = 6000 if THOROUGH else 400
    for r in rng.sample(conc, min(len(conc), want)):
        g = rng.choice(gs)
        a = {}
        for h in r["h"]:
            a[h["t"]] = task(h["op"], g, rng)
        if len({h["obj"] for h in r["h"]}) == 1 and r["h"][0]["op"] == r["h"][1]["op"] != "card":
            a[2] = a[1]
        pairs.append((a[1], a[2], [t - 1 for t in r["s"]]))
    need = sorted({t for p in pairs for t in p[:2]})
    events = dict(zip(need, pmap(count_events, need)))
    jobs = []
    for a, b, sched in pairs:
        runs = []
        bounds = []
        for t, x in enumerate((a, b)):
            m = sched.count(t)
            bounds.append(set(rng.sample(range(1, max(events[x], m) + 1), m - 1)) if events[x] >= m else set())
        runs.append(([a, b], sched, bounds))
        # one is stopped at some point for the other
        for _ in range(4):
            runs.append(([a, b], [0, 1, 0], [{rng.randint(1, max(1, events[a]))}, set()]))
            runs.append(([b, a], [0, 1, 0], [{rng.randint(1, max(1, events[b]))}, set()]))
        jobs.append({"runs": runs})
    # one operation on a card, stopped at every line for the same kind of operation on another card
    for j in range(len(_W["kinds"])):
        a, b = (("card", _W["nlong"] + 2 * j + x, 1) for x in (0, 1))
        for x, y in ((a, b), (b, a)):
            n1 = count_events(x)
            at = range(1, n1 + 1) if THOROUGH or n1 <= 60 else rng.sample(range(1, n1 + 1), 60)
            runs = [([x, y], [0, 1, 0], [{k}, set()]) for k in at]
            jobs += [{"runs": runs[i: i + 15]} for i in range(0, len(runs), 15)]
    evs = pmap(work_threads, jobs)
    report(ck, jobs, evs, "schedule")
    ck.add("schedules", sum(len(j["runs"]) for j in jobs))
    ck.log(f"{sum(len(j['runs']) for j in jobs)} schedules")

    jobs = []
    tall = [k for op in pool for k in pool[op]]
    for _ in range(200 if THOROUGH else 16):
        jobs.append({"tasks": [[("card", rng.randrange(_W["nlong"]), rng.randint(1, 8)) if rng.random() < 0.15
                                else ("call", rng.choice(tall)) for _ in range(30)] for _ in range(5)]})
    evs = pmap(work_stress, jobs)
    report(ck, jobs, evs, "threads")
    ck.add("free_running_threads", 5 * len(jobs))
    ck.cov["samples"] = [[e["what"] for e in evs[0][:3]]]
    ck.assumptions = ["a call whose result is not the same in two processes of its own is left out (listed)",
                      "threads are switched at lines of the library's code, and freely with a short switch interval"]
    return ck.finish()


def apart(steps, row, rng):
    """abstract cards with different names are different cards"""
    m, res, k = {}, [], 0
    for h, s in zip(row["h"], steps):
        if s[0] == "card":
            if h["obj"] not in m:
                m[h["obj"]] = rng.choice([x for x in range(_W["nlong"]) if x not in m.values()])
            # several steps of the card for each operation of the history
            res += [("card", m[h["obj"]])] * rng.randint(1, 4)
        else:
            res.append(s)
    return res
