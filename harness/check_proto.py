"""C08: archives of older protocols, against spec/SkopsProtocol.tla and spec/SkopsLoad*.tla."""
from __future__ import annotations

import copy
import json
import random
import warnings
import zipfile

import archives as A
import check_load as L
import common
import numpy as np
import samples
import scipy.special
import vtypes
from common import SEED, THOROUGH, Check, esc, tlc
from project import diff, digest, term

import skops.io as sio
from skops.io._audit import NODE_TYPE_MAPPING, Node
from skops.io._protocol import PROTOCOL

KINDS = sorted(A.SLOTS) + ["QuantileForestNode", "CachedNode"]


def registered(kind):
    return sorted(p for k, p in NODE_TYPE_MAPPING if k == kind)


class Probe:
    """registers recording loaders for a kind of its own"""

    def __init__(self, kind, protos):
        self.kind, self.protos, self.built = kind, protos, []

    def __enter__(self):
        for p in self.protos:
            NODE_TYPE_MAPPING[(self.kind, p)] = self.loader(p)
        return self

    def __exit__(self, *a):
        for p in self.protos:
            del NODE_TYPE_MAPPING[(self.kind, p)]

    def loader(self, p):
        built = self.built

        class Probed(Node):
            def __init__(self, state, load_context, trusted=None):
                super().__init__(state, load_context, trusted)
                self.trusted = [f"{state['__module__']}.{state['__class__']}"]
                self.children = {}
                built.append(p)

            def _construct(self):
                return p

        return Probed


class Recorder:
    """records which registered class builds the nodes of a kind"""

    def __enter__(self):
        self.saved = dict(NODE_TYPE_MAPPING)
        self.built = []
        for (k, p), cls in self.saved.items():
            NODE_TYPE_MAPPING[(k, p)] = self.wrap(k, p, cls)
        return self

    def __exit__(self, *a):
        NODE_TYPE_MAPPING.clear()
        NODE_TYPE_MAPPING.update(self.saved)

    def wrap(self, k, p, cls):
        def build(state, load_context, trusted=None):
            self.built.append((k, p))
            return cls(state, load_context, trusted=trusted)

        return build


# places where a node can be within an archive
def place(where, s):
    if where == "root":
        return s
    if where == "list":
        return A.LIST(A.J(1), s)
    if where == "value":
        return A.DICT(a=A.J(1), b=s)
    if where == "attribute":
        return A.st("ObjectNode", "sklearn.preprocessing._data.StandardScaler", content=A.DICT(x=s))
    if where == "cell":
        return A.make("NdArrayNode", "numpy.ndarray", s, "content")
    if where == "deep":
        return A.LIST(A.DICT(a=A.TUPLE(A.st("ObjectNode", "sklearn.preprocessing._data.StandardScaler",
                                            content=A.DICT(x=A.LIST(s))))))
    if where == "after":
        return A.LIST(A.make("FunctionNode", "numpy.sqrt", proto=2), A.J(2), s)
    raise ValueError(where)


PLACES = ["root", "list", "value", "attribute", "cell", "deep"]


def dispatch_events(rows):
    """probes with every set of registered protocols; the registered kinds; unknown kinds"""
    ev = []
    for r in rows:
        for where in PLACES:
            with Probe("VerifNode", r["reg"]) as pr:
                s = place(where, A.st("VerifNode", "builtins.int"))
                try:
                    sio.loads(A.archive(s, {}, r["proto"]))
                except Exception:  # noqa: BLE001
                    pass
                got = pr.built[0] if len(set(pr.built)) == 1 else -1
                ev.append({"op": "disp", "kind": "VerifNode", "where": where, "proto": r["proto"], "reg": r["reg"],
                           "got": got, "out": "", "named": True})
    for kind in KINDS:
        for p in range(PROTOCOL + 1):
            for where in PLACES:
                if kind in ("QuantileForestNode", "CachedNode"):
                    continue
                with Recorder() as rec:
                    s = A.make(kind, A.OWN[kind], proto=p)
                    s["__id__"] = 4242
                    try:
                        sio.loads(A.archive(place(where, s), {}, p), trusted=[A.OWN[kind]])
                    except Exception:  # noqa: BLE001
                        pass
                    own = [q for k, q in rec.built if k == kind]
                # (nodes of the same kind around it are built by the same loader)
                got = own[0] if len(set(own)) == 1 else -1
                ev.append({"op": "disp", "kind": kind, "where": where, "proto": p, "reg": registered(kind),
                           "got": got, "out": "", "named": True})
    rng = random.Random(f"{SEED}/C08/unknown")
    names = ["", "Node", "listnode", "ListNode ", "NodeList", "é", "__class__", "dict", "FunctionNode0", "None"]
    names += ["".join(rng.choice("abcNode_.0") for _ in range(rng.randint(1, 12))) + "Node" for _ in range(20)]
    for n in names:
        for p in range(PROTOCOL + 1):
            for where in PLACES:
                s = place(where, A.st(n, "builtins.int"))
                data = A.archive(s, {}, p)
                for f in (lambda: sio.loads(data), lambda: sio.get_untrusted_types(data=data)):
                    try:
                        f()
                        out, named = "ok", False
                    except TypeError as e:
                        out, named = "TypeError", n in str(e)
                    except Exception as e:  # noqa: BLE001
                        out, named = type(e).__name__, False
                    ev.append({"op": "disp", "kind": "unknown", "what": esc(n), "where": where, "proto": p, "reg": [],
                               "got": -1, "out": out, "named": named})
    return ev


# --------------------------------------------------------------- archives in older layouts
def downgrade(s, proto):
    """the same state in the layout of an older protocol"""
    s = copy.deepcopy(s)

    def rec(x):
        if isinstance(x, list):
            for y in x:
                rec(y)
        elif isinstance(x, dict):
            for y in list(x.values()):
                rec(y)
            if x.get("__loader__") == "FunctionNode" and proto == 0:
                m, c = x["__module__"], x["__class__"]
                x["__module__"], x["__class__"] = rec.outer.get((m, c), ("builtins", "function"))
                x["content"] = {"module_path": m, "function": c}
            elif x.get("__loader__") == "RandomGeneratorNode" and proto == 1:
                x["content"].pop("seed_seq", None)
            elif x.get("__loader__") == "RandomGeneratorNode" and proto == 0:
                rec.generators += 1
                bg = x["content"]["bit_generator"]
                x["content"] = {"bit_generator": plain(bg)}

    rec.generators = 0
    rec.outer = {("numpy", "sqrt"): ("numpy", "ufunc"), ("scipy.special._ufuncs", "expit"): ("scipy.special._ufuncs", "ufunc"),
                 ("builtins", "len"): ("builtins", "builtin_function_or_method")}
    rec(s)
    return s, rec.generators


def plain(s):
    """the raw value that protocol 0 wrote for the state of a bit generator"""
    if s["__loader__"] == "DictNode":
        return {k: plain(v) for k, v in s["content"].items()}
    if s["__loader__"] == "JsonNode":
        return json.loads(s["content"])
    if s["__loader__"] == "NdArrayNode":
        return s
    return s


def values(rng, n):
    """nested values with functions and random generators in all positions"""
    X = np.arange(6.0).reshape(3, 2)

    def gen():
        bg = rng.choice([np.random.PCG64, np.random.MT19937, np.random.Philox, np.random.SFC64, np.random.PCG64DXSM])
        g = np.random.Generator(bg(rng.randint(0, 99)))
        g.random(rng.randint(0, 3))
        if rng.random() < 0.3:
            g.integers(0, 5, dtype=np.uint32)
        return g

    def leaf():
        return rng.choice([
            lambda: rng.choice([np.sqrt, scipy.special.expit, vtypes.fun, len, np.add, np.mean]), gen,
            lambda: np.random.RandomState(rng.randint(0, 9)), lambda: rng.randint(-5, 5), lambda: "s",
            lambda: np.arange(rng.randint(0, 4)), lambda: np.float32(1.5), lambda: int, lambda: b"x",
            lambda: slice(1, rng.randint(0, 4)), lambda: np.ma.array([1, 2], mask=[0, 1]),
            lambda: __import__("scipy.sparse").sparse.csr_matrix(X),
        ])()

    def value(d):
        if d == 0 or rng.random() < 0.25:
            return leaf()
        k = rng.randint(0, 9)
        kids = [value(d - 1) for _ in range(rng.randint(1, 3))]
        if k == 0:
            return kids
        if k == 1:
            return tuple(kids)
        if k == 2:
            return {f"k{j}": v for j, v in enumerate(kids)}
        if k == 3:
            return vtypes.Plain(a=kids[0], b=kids[-1])
        if k == 4:
            return samples.FunctionTransformer(kids[0] if callable(kids[0]) else np.sqrt, kw_args={"x": kids[-1]})
        if k == 5:
            a = np.empty(len(kids), dtype=object)
            for j, v in enumerate(kids):
                a[j] = v
            return a
        if k == 6:
            return samples.functools.partial(vtypes.fun, *kids)
        if k == 7:
            return samples.collections.OrderedDict((j, v) for j, v in enumerate(kids))
        if k == 8:
            return [kids[0], kids[0], {"again": kids[0]}]
        return vtypes.GetSet(kids)

    return [value(rng.randint(0, 4)) for _ in range(n)]


def old_events(ck, vals):
    ev = []
    w = 0
    for origin, v in vals:
        try:
            data = sio.dumps(v)
        except Exception:  # noqa: BLE001  (whether it can be dumped is a question of C05)
            continue
        s, m, _ = A.parts(data)
        # everything that dump emits can be loaded
        loaders = set()

        def walk(x):
            if isinstance(x, dict):
                if "__loader__" in x:
                    loaders.add(x["__loader__"])
                for y in x.values():
                    walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)

        walk(s)
        for k in sorted(map(str, loaders)):
            ev.append({"op": "emit", "kind": k, "reg": registered(k)})
        try:
            now = sio.loads(data, trusted=sio.get_untrusted_types(data=data))
            want = term(now)
            if want != term(v):
                continue  # a question of C04 and C05
        except Exception:  # noqa: BLE001
            continue
        for p in range(PROTOCOL + 1):
            old, gens = downgrade(s, p)
            b = A.archive(old, m, p)
            key = "generator-protocol-0" if (p == 0 and gens) else ""
            try:
                r = sio.loads(b, trusted=sio.get_untrusted_types(data=b))
                t = term(r)
                ev.append({"op": "old", "kind": origin, "what": f"protocol {p}", "out": "ok", "same": t == want,
                           "detail": esc(diff(want, t))[:300], "finding": key})
            except Exception as e:  # noqa: BLE001
                # the known finding is exactly the missing trusted=True branch
                known = key if isinstance(e, AttributeError) else ""
                ev.append({"op": "old", "kind": origin, "what": f"protocol {p}", "out": type(e).__name__,
                           "same": False, "detail": esc(str(e))[:300], "finding": known})
    return ev


def corpus_events():
    ev = []
    for f in sorted((common.VERIF / "corpus").glob("*.zip")):
        with zipfile.ZipFile(f) as z:
            want = json.loads(z.read("digests.json"))
            for k in sorted(want):
                b = z.read(k + ".skops")
                s, m, p0 = A.parts(b)
                for p in range(p0 + 1):
                    old, gens = downgrade(s, p)
                    if gens and p == 0:
                        continue
                    b = A.archive(old, m, p)
                    try:
                        r = sio.loads(b, trusted=sio.get_untrusted_types(data=b))
                        ev.append({"op": "old", "kind": f"{f.stem}/{k}", "what": f"protocol {p}", "out": "ok",
                                   "same": digest(r) == want[k], "detail": "", "finding": ""})
                    except Exception as e:  # noqa: BLE001
                        ev.append({"op": "old", "kind": f"{f.stem}/{k}", "what": f"protocol {p}",
                                   "out": type(e).__name__, "same": False, "detail": esc(str(e))[:300],
                                   "finding": ""})
    return ev


def run_C08():
    ck = Check("C08", "model_checking",
               "evolution of the format over all changes of layouts; dispatch for every kind, protocol and "
               "position; archives of values in the layout of every protocol; archives of the base version")
    warnings.simplefilter("ignore")
    n = 5 if THOROUGH else 4
    base = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT CurrentReadable\nINVARIANT OldReadable\n"
            "INVARIANT NoOtherReads\nCONSTANT Ks = {\"a\", \"b\"}\n")
    r = tlc("SkopsProtocol", base + f"CONSTANT MaxProtocol = {n}\nCONSTANT MaxArchives = {4 if THOROUGH else 3}\n")
    ck.add("states", r.distinct)
    ck.add("transitions", r.states)
    ck.log(f"SkopsProtocol: {r.distinct} states {r.wall:.1f}s")
    r = tlc("SkopsProtocol", base + f"INVARIANT Emit\nCONSTANT MaxProtocol = {PROTOCOL}\nCONSTANT MaxArchives = 1\n")
    rows = [dict(t) for t in {tuple(sorted((k, tuple(sorted(v)) if isinstance(v, list) else v)
                                           for k, v in x.items())) for x in r.rows}]
    rows = sorted(({**x, "reg": list(x["reg"])} for x in rows), key=json.dumps)
    rng = random.Random(f"{SEED}/C08")
    vals = [(f"sample {k}", v) for k, v in samples.samples().items()]
    vals += [(f"estimator {k}", v) for k, v in samples.estimators().items()]
    vals += [("random value", v) for v in values(rng, 20000 if THOROUGH else 3000)]
    chunks = [vals[j::16] for j in range(16)]
    jobs = [("disp", rows), ("corpus", None)] + [("old", c) for c in chunks]

    def work(j):
        warnings.simplefilter("ignore")
        return (dispatch_events(j[1]) if j[0] == "disp" else corpus_events() if j[0] == "corpus"
                else old_events(ck, j[1]))

    evs = common.pmap(work, jobs)
    cases = [{"origin": j[0], "proto": 0, "schema": None} for j in jobs]
    for e in evs:
        ck.add("archives_loaded", len(e))
    ck.cov["dispatches"] = len(evs[0])
    ck.cov["old_archives"] = sum(1 for x in evs for e in x if e["op"] == "old")
    L.finish_traces(ck, cases, evs, "groups")
    ck.cov["samples"] = [evs[0][0], evs[2][0]]
    ck.assumptions = ["the layouts of older protocols are those described by the loaders kept for them and by "
                      "tests/test_persist_old.py"]
    return ck.finish()
