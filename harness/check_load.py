"""C01 C02 C03 C08 C11 C13: inspecting and loading archives, against spec/SkopsLoad*.tla."""
from __future__ import annotations

import copy
import io
import json
import os
import pathlib
import random
import re
import sys
import warnings

import archives as A
import numpy as np
import samples
from common import REPO, SEED, THOROUGH, Check, MachineryError, esc, pmap, scratch, tlc, validate
from project import digest
from watch import Watch, returned, uses

import skops.io as sio
from skops.io._protocol import PROTOCOL
from skops.io.exceptions import UntrustedTypesFoundException

INVARIANTS = "Inert Vouched Exact Documented Covered Emit".split()


def q(xs):
    return "{" + ", ".join(f'"{x}"' for x in xs) + "}"


def spec_run(ck):
    """TLC on the life of archives; returns the archives of the bounded instance"""
    rows, states = [], 0
    inst = [(["own", "canary"], ["own", "canary", "other"], [2], ["single", "pair", "cycle", "twin"])]
    inst += [(["own", "canary", "other"], ["canary"], [0, 1], ["single", "pair"])]
    if THOROUGH:
        inst += [(["own", "canary", "other"], ["own", "canary", "other"], [0, 1, 2, 3],
                  ["single", "pair", "cycle", "twin", "chain"])]
    for rn, kn, pr, sh in inst:
        r = tlc("SkopsLoadMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
                + "".join(f"INVARIANT {x}\n" for x in INVARIANTS)
                + f"CONSTANT RootNames = {q(rn)}\nCONSTANT KidNames = {q(kn)}\n"
                + "CONSTANT Protos = {" + ",".join(map(str, pr)) + "}\n"
                + f"CONSTANT Shapes = {q(sh)}\n")
        states += r.distinct
        ck.add("states", r.distinct)
        ck.add("transitions", r.states)
        rows += r.rows
        ck.log(f"SkopsLoadMC {pr} {sh}: {r.distinct} states, {len(r.rows)} archives, {r.wall:.1f}s")
    seen = {}
    for x in rows:
        seen[json.dumps(x, sort_keys=True)] = x
    return [seen[k] for k in sorted(seen)]


OTHER = {  # a member of another family than the node's own
    "loss": "sklearn.linear_model._sgd_fast.Log", "estimator": "sklearn.linear_model._logistic.LogisticRegression",
    "primitive": "builtins.int",
}  # fmt: skip


def concrete(row, canary="vcan_a"):
    """the archive of a row of the specification"""
    proto = row["proto"]
    ns = row["nodes"]

    def name(n, j):
        if n["n"] == "own":
            return A.OWN[n["kind"]]
        if n["n"] == "other":
            return OTHER[n["fam"]]
        return f"{canary}.{A.NATURAL[n['kind']]}" if j % 2 == 0 else f"vcanpkg.sub.{A.NATURAL[n['kind']]}"

    def build(i):
        n = ns[i]
        ch = [j for j in range(len(ns)) if ns[j]["par"] == i + 1]
        nm = name(n, i)
        if row["shape"] == "twin" and i == 0:
            s = A.st("ListNode", nm, content=[build(j) for j in ch])
        elif ch:
            s = A.make(n["kind"], nm, build(ch[0]), ns[ch[0]]["slot"], proto=proto)
        else:
            s = A.make(n["kind"], nm, proto=proto)
        if n["id"]:
            s["__id__"] = n["id"]
        return s

    return build(0), proto


# --------------------------------------------------------------- random archives
DANGEROUS = """builtins.eval builtins.exec builtins.open builtins.compile builtins.getattr builtins.__import__
os.system posix.system os.popen os.getcwd os.remove subprocess.Popen subprocess.call shutil.rmtree importlib.import_module
pickle.loads marshal.loads operator.methodcaller operator.call functools.reduce functools.partial types.FunctionType
types.CodeType code.compile_command runpy.run_path ctypes.CDLL socket.socket io.open pathlib.Path tempfile.mkdtemp
sys.exit builtins.input wave.open colorsys.rgb_to_hsv sched.scheduler numpy.load numpy.save numpy.fromfile
numpy.random.default_rng numpy.random.seed numpy.vectorize numpy.lib.npyio.load scipy.io.loadmat joblib.load
sklearn.utils.all_estimators sklearn.base.clone sklearn.externals._arff.load sklearn.utils._bunch.Bunch
skops.io.load skops.io._persist.dump skops.io._audit.Node skops.card.Card builtins.object builtins.type
builtins.map builtins.frozenset builtins.memoryview builtins.property collections.Counter decimal.Decimal
builtins.complex builtins.NoneType""".split()
FAMILY_NAMES = """builtins.int builtins.str builtins.float builtins.bool builtins.list builtins.dict builtins.set
builtins.tuple builtins.bytes builtins.slice numpy.ndarray numpy.float64 numpy.int8 numpy.sqrt numpy.dtype
scipy.special._ufuncs.expit collections.OrderedDict collections.defaultdict sklearn.pipeline.Pipeline
sklearn.tree._classes.DecisionTreeClassifier numpy.random.mtrand.RandomState numpy.ma.MaskedArray
sklearn.linear_model._sgd_fast.Hinge""".split()
CAN = "C St L D S FS T DD OD B BA I Str F E LogisticRegression P Slice A G M RS Gen PCG64 X Tree f g system inst int list itemgetter p method missing".split()
WEIRD = ["builtins.int ", "builtins.Int", ".int", "builtins.", "int.builtins", "builtins..int", "numpy.ndarray.view",
         "builtins.list\n", "vcan_a.C.m", "vcan_a.C.s", "numpy.core.ndarray", "sklearn.LogisticRegression"]


class Gen:
    def __init__(self, rng, evil=0.5):
        self.r, self.n, self.evil = rng, 0, evil
        self.ids = []

    def name(self, kind):
        r = self.r
        x = r.random()
        if x > self.evil:
            return A.OWN[kind]
        y = r.random()
        can = r.choice(A.CANARIES)
        if y < 0.35:
            return f"{can}.{A.NATURAL[kind]}"
        if y < 0.6:
            return f"{can}.{r.choice(CAN)}"
        if y < 0.8:
            return r.choice(DANGEROUS)
        if y < 0.95:
            return r.choice(FAMILY_NAMES)
        return r.choice(WEIRD)

    def id(self):
        r = self.r
        if self.ids and r.random() < 0.15:
            return r.choice(self.ids)
        if r.random() < 0.7:
            i = 1000 + len(self.ids)
            self.ids.append(i)
            return i
        return 0

    def node(self, depth, proto):
        r = self.r
        if r.random() < 0.25 and depth > 0:
            d = {}
            ident = self.id()
            for _ in range(r.randint(1, 3)):
                self.n += 1
                d[f"k{self.n}"] = self.node(depth - 1, proto)
            s = A.DICT(**d)
            s["__module__"], s["__class__"] = A.split(self.name("DictNode"))
            if ident:
                s["__id__"] = ident
            return s
        kind = r.choice(sorted(A.SLOTS))
        slots = A.SLOTS[kind] + (["keys"] if kind == "DictNode" else [])
        ident = self.id()
        if slots and depth > 0 and r.random() < 0.85:
            return A.make(kind, self.name(kind), self.node(depth - 1, proto), r.choice(slots), proto, ident)
        return self.strings(A.make(kind, self.name(kind), proto=proto, id=ident))

    def strings(self, s):
        """replace strings in other slots that lead to names"""
        r = self.r
        if r.random() > self.evil:
            return s
        k = s["__loader__"]
        if k == "MethodNode":
            s["content"]["func"] = r.choice(["p", "s", "m", "__init__", "__class__", "__reduce__", "fit",
                                             "transform", "__setattr__", "get_params", "_repr_html_", "__dict__"])
            s["content"]["obj"] = A.st("ObjectNode", f"{r.choice(A.CANARIES)}.{r.choice('C E LogisticRegression St'.split())}",
                                       content=A.DICT(a=A.J(1), m=A.J(2))) if r.random() < 0.6 else s["content"]["obj"]
        elif k in ("RandomStateNode", "RandomGeneratorNode"):
            t = json.dumps(s).replace("MT19937", r.choice(["PCG64", "default_rng", "seed", "Generator", "get_state",
                                                           "RandomState", "mtrand", "test", "MT19937"]))
            t = t.replace('\\"PCG64\\"', '\\"' + r.choice(["default_rng", "seed", "SeedSequence", "BitGenerator", "PCG64"]) + '\\"')
            s = json.loads(t)
        elif k == "JsonNode":
            s["content"] = r.choice(['"os"', "1", "[]", '{"__reduce__": 1}', "nope", '"vcan_a.C"', "NaN"])
        elif k == "OperatorFuncNode":
            s["attrs"] = A.TUPLE(A.J(r.choice(["a", "__class__", "system"])))
        return s


def mutate(rng, schema, proto, gen):
    """random edits of the schema of a real archive"""
    s = copy.deepcopy(schema)
    for _ in range(rng.randint(1, 4)):
        nodes = A.some_states(s, proto)
        if not nodes:
            break
        x = rng.choice(nodes)
        y = rng.random()
        try:
            if y < 0.4:
                x["__module__"], x["__class__"] = A.split(gen.name(x["__loader__"]))
            elif y < 0.5:
                x["__loader__"] = rng.choice(sorted(A.SLOTS))
            elif y < 0.6:
                x["__id__"] = rng.choice(nodes).get("__id__") or 5
            else:
                ks = A.kids(x, proto)
                if ks:
                    _, _, _, cont, key = rng.choice(ks)
                    cont[key] = gen.node(rng.randint(0, 2), proto) if y < 0.9 else copy.deepcopy(
                        rng.choice(nodes))
        except (KeyError, TypeError, AttributeError):
            pass
    return s


def size(schema, proto):
    return sum(1 for _ in A.states(schema, proto))


def mkcase(origin, schema, members, proto, written=False):
    try:
        nodes = A.describe(schema, proto)
    except (KeyError, TypeError, AttributeError):
        nodes = None  # not every edit leaves a schema that can be described
    names = sorted({n["name"] for n in nodes}) if nodes else sorted(
        set(re.findall(r'"((?:vcan|builtins|numpy|sklearn)[^"]*)"', json.dumps(schema))))
    return {"origin": origin, "schema": schema, "proto": proto, "nodes": nodes, "names": names,
            "data": A.archive(schema, members, proto), "written": written, "exact": nodes is not None}


def written_cases():
    res = []
    for k, v in samples.samples().items():
        s, m, p = A.parts(sio.dumps(v))
        res.append(mkcase(f"dump:{k}", s, m, p, written=True))
    return res


def random_cases(n, tag, evil=0.5, depth=4):
    rng = random.Random(f"{SEED}/{tag}")
    w = [c for c in written_cases() if len(c["nodes"] or []) < 120]
    res = []
    while len(res) < n:
        proto = rng.choice([2, 2, 2, 1, 0, 3]) if rng.random() < 0.5 else 2
        g = Gen(rng, rng.choice([evil, evil, 0.15, 0.9]))
        if len(res) % 3 == 0:
            c = rng.choice(w)
            s, m, p = A.parts(c["data"])
            c2 = mkcase(f"mutated {c['origin']}", mutate(rng, s, p, g), m, p)
        else:
            c2 = mkcase("random", g.node(rng.randint(0, depth), proto), {}, proto)
        if c2["nodes"] is None or len(c2["nodes"]) <= 150:
            res.append(c2)
    return res


def spec_cases(rows, n=None, tag=""):
    rng = random.Random(f"{SEED}/spec/{tag}")
    if n is not None and len(rows) > n:
        singles = [r for r in rows if r["shape"] == "single"]
        rows = singles + rng.sample([r for r in rows if r["shape"] != "single"], max(0, n - len(singles)))
    res = []
    for k, r in enumerate(rows):
        s, p = concrete(r, "vcan_a" if k % 2 else "vcan_b")
        c = mkcase(f"spec:{r['shape']}", s, {}, p)
        res.append(c)
    return res


# --------------------------------------------------------------- running the real code
def head(c):
    return {"op": "archive", "proto": c["proto"], "written": c["written"],
            "nodes": [{**n, "name": esc(n["name"]), "key": esc(n["key"])} for n in c["nodes"] or []]}


def report(c, via="data", path=None):
    try:
        u = (sio.get_untrusted_types(data=c["data"]) if via == "data"
             else sio.get_untrusted_types(file=path))
    except Exception as e:  # noqa: BLE001
        return None, {"op": "report", "via": via, "ok": False, "U": [], "exc": type(e).__name__}
    ok = isinstance(u, list) and all(isinstance(x, str) for x in u)
    rank = {x: k for k, x in enumerate(sorted(set(u)))}
    return (u if ok else None), {"op": "report", "via": via, "ok": ok,
                                 "U": [{"n": esc(x), "r": rank[x]} for x in u] if ok else []}


def subsets(rng, u, n):
    """trusted lists over the reported names"""
    res = [[], list(u)]
    for _ in range(n):
        t = [x for x in u if rng.random() < 0.5]
        if rng.random() < 0.3 and u:
            t = [x for x in u if x != rng.choice(u)]
        if rng.random() < 0.3:
            t += rng.sample(DANGEROUS + FAMILY_NAMES + WEIRD, 2)
        if rng.random() < 0.3:
            # names that are close to the reported ones but are others
            t += [x + "x" for x in u[:1]] + [x.rpartition(".")[2] for x in u[:2]] + [x.upper() for x in u[:1]]
        if rng.random() < 0.3:
            t += t[:2]
        rng.shuffle(t)
        res.append(t)
    return res


class NullOut(io.StringIO):
    def write(self, s):
        return len(s)


def quiet(fn):
    def run(*a):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*a)

    return run


_SCRATCH = {}


def setup_watch(canary_dir):
    if "w" not in _SCRATCH:
        w = Watch(str(REPO / "skops" / "io"))
        w.ok_paths = [str(canary_dir)]
        _SCRATCH["w"] = w
        _SCRATCH["file"] = pathlib.Path(scratch("worker-")) / "archive.skops"
        w.ok_paths.append(str(_SCRATCH["file"]))
    return _SCRATCH["w"]


def warm_up():
    """import whatever the library itself imports lazily, and the modules the archives name"""
    import importlib

    for n in DANGEROUS + FAMILY_NAMES:
        importlib.import_module(A.split(n)[0])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        so, sys.stdout = sys.stdout, NullOut()
        try:
            for v in samples.samples().values():
                b = sio.dumps(v)
                sio.loads(b, trusted=sio.get_untrusted_types(data=b))
                sio.visualize(b)
        finally:
            sys.stdout = so


NO_NODES = {"op": "archive", "proto": 2, "written": False, "nodes": []}


def report_bad(ck, bad, traces, cases, key=None, info=None):
    for row in bad:
        ev = traces[row["t"]][row["i"]]
        c = cases[row["t"]]
        small = {k: v for k, v in ev.items() if k not in ("rows", "nodes")}
        for cl in row["bad"]:
            ck.violation(cl, {"event": ev, "origin": c.get("origin"), "proto": c.get("proto"),
                              "schema": c.get("schema"), "case": c.get("case")},
                         f"{c.get('origin')} {json.dumps(small)[:500]} schema={json.dumps(c.get('schema'))[:300]}",
                         key=ev.get("finding") or None)


def drop(c):
    return {k: v for k, v in c.items() if k not in ("data", "nodes")}


# =============================================================== C01
def work_C01(c):
    w = setup_watch(_SCRATCH["dir"])
    rng = random.Random(f"{SEED}/{c['k']}/C01")
    ev = []
    u, _ = report(c)
    lists = subsets(rng, u if u is not None else c["names"], 2 if not THOROUGH else 6)
    if u is None:
        lists.append(c["names"])
    near = [f"{n.rpartition('.')[0]}.method" for n in c["names"]][:3]
    lists.append(list(u or []) + near)
    for j, t in enumerate(lists):
        A.drop_canaries()
        if (c["k"] + j) % 2:
            A.import_canaries()
        names = sorted({*c["names"], *t})
        out, res, exc, led, fx = w.run(quiet(lambda: sio.loads(c["data"], trusted=t)), names)
        try:
            us = uses(out, res, led, names)
        except Exception as e:  # noqa: BLE001
            raise MachineryError(f"cannot look at the result: {e!r}") from e
        ev.append({"op": "use", "T": [esc(x) for x in t], "out": out, "uses": us, "fx": fx,
                   "powerful": powerful(t), "exc": type(exc).__name__ if exc is not None else ""})
    A.drop_canaries()
    return ev


HARMLESS = {"functools.partial", "operator.itemgetter", "operator.attrgetter", "builtins.frozenset",
            "decimal.Decimal", "collections.Counter", "builtins.complex", "sklearn.preprocessing._data.method"}


def powerful(t):
    """names in a trusted list that may legitimately have effects of their own"""
    return [esc(n) for n in t if not n.startswith("vcan") and A.family(n) == "none" and n not in HARMLESS
            and not n.startswith("vtypes.")]


def crafted():
    """chains of nodes that aim at code execution, with trusted lists that look innocuous"""
    res = []
    Cm = "vcan_a.C"
    obj = A.st("ObjectNode", Cm, content=A.DICT(a=A.J(1)), __id__=11)

    def add(what, schema, *lists, proto=2, members=None):
        for t in lists:
            res.append((f"crafted:{what}", schema, members or {}, proto, t))

    for f in ("p", "s", "m", "__class__", "__init__", "__reduce__", "__dict__", "__module__"):
        for mod in ("vcan_a", "builtins", "os", "vcan_b"):
            add(f"method {mod} {f}", A.st("MethodNode", f"{mod}.method", content={"func": f, "obj": obj}),
                [Cm, f"{mod}.method"])
    # a function handed back through the attribute of a loaded partial or type
    for n in ("builtins.int", Cm):
        for f in ("mro", "__subclasses__", "s", "from_bytes"):
            add(f"method of type {n}", A.st("MethodNode", "vcan_a.method",
                                            content={"func": f, "obj": A.TYPE(n)}),
                [Cm, "vcan_a.method"], ["vcan_a.method"])
    for op in ("attrgetter", "itemgetter", "methodcaller", "call", "setitem", "length_hint", "concat"):
        for mod in ("operator", "vcan_a", "builtins"):
            args = A.TUPLE(A.st("FunctionNode", "vcan_b.f"), A.J(1)) if op == "call" else A.TUPLE(A.J("a"))
            add(f"operator {mod}.{op}", A.st("OperatorFuncNode", f"{mod}.{op}", attrs=args),
                [f"{mod}.{op}"], [f"{mod}.{op}", "vcan_b.f"], [f"operator.{op}"])
    # constructors given by containers and keys
    for name in ("vcan_a.f", "vcan_a.C", "builtins.eval", "vcan_b.system"):
        for kt in ("FunctionNode", "TypeNode"):
            add(f"key type {kt} {name}", A.st("DictNode", "builtins.dict",
                                              key_types=A.LIST(A.st(kt, name)), content={"1+1": A.J(1)}),
                [], [name], ["builtins.dict"])
        add(f"default factory {name}", A.st("DefaultDictNode", "collections.defaultdict", content={
            "main": A.DICT(), "default_factory": A.st("FunctionNode", name)}), [], [name])
        for k in ("DictNode", "DefaultDictNode", "ListNode", "SetNode", "TupleNode", "ObjectNode",
                  "ConstructorFromReduceNode", "NdArrayNode", "MaskedArrayNode", "RandomStateNode",
                  "RandomGeneratorNode", "SparseMatrixNode", "TreeNode", "LossNode", "SliceNode", "BytesNode",
                  "BytearrayNode", "JsonNode", "DTypeNode", "PartialNode", "TypeNode", "FunctionNode"):
            add(f"{k} {name}", A.make(k, name), [], [A.OWN[k]], [name.rpartition(".")[2]], [name + "x"],
                [name.rpartition(".")[0]])
            add(f"{k} {name} v0", A.make(k, name, proto=0), [], [A.OWN[k]], ["builtins.function"], proto=0)
    # an impostor below a repeated id: the first, harmless node takes its place, or the other way round
    good = A.st("TypeNode", "builtins.int", __id__=5)
    for k in sorted(A.SLOTS):
        evil = A.make(k, f"vcan_a.{A.NATURAL[k]}", id=5)
        add(f"impostor {k}", A.LIST(good, evil), [])
        add(f"impostor first {k}", A.LIST(evil, good), [])
        add(f"cached {k}", A.LIST(evil, A.st("CachedNode", "builtins.int", __id__=5)), [])
        # hidden in a place that other nodes do not look at
        for host in ("DictNode", "ListNode", "ObjectNode", "SliceNode", "TypeNode", "JsonNode", "NdArrayNode",
                     "MaskedArrayNode", "FunctionNode", "BytesNode", "TreeNode", "RandomGeneratorNode"):
            h = A.make(host, A.OWN[host], id=6)
            for extra in ("key_types", "keys", "attrs", "content2", "__reduce__", "args", "constructor", "children"):
                if extra not in h:
                    add(f"{k} hidden in {host}.{extra}", {**h, extra: evil}, [])
    # bit generators
    for bg in ("default_rng", "seed", "get_state", "mtrand", "Generator", "RandomState", "SeedSequence", "__name__",
               "bit_generator", "test"):
        st = A.PCG_STATE()
        st["content"]["bit_generator"] = A.J(bg)
        add(f"bit generator {bg}", A.st("RandomGeneratorNode", A.OWN["RandomGeneratorNode"], content={
            "bit_generator": st, "seed_seq": A.DICT(entropy=A.J(3))}), [])
        add(f"bit generator {bg} v1", A.st("RandomGeneratorNode", A.OWN["RandomGeneratorNode"], content={
            "bit_generator": st}), [], proto=1)
        rs = A.RS_STATE()
        rs["content"]["bit_generator"] = A.J(bg)
        add(f"random state {bg}", A.st("RandomStateNode", A.OWN["RandomStateNode"], content=rs), [])
    # binary members that would need pickle
    import pickle

    class Evil:
        def __reduce__(self):
            return (os.getcwd, ())

    ob = np.empty(1, dtype=object)
    ob[0] = Evil()
    b = io.BytesIO()
    np.save(b, ob, allow_pickle=True)
    pk = pickle.dumps(Evil())
    for m in (b.getvalue(), pk):
        for k in ("NdArrayNode", "BytesNode"):
            h = A.make(k, A.OWN[k])
            h["file"] = "evil.npy"
            add(f"pickled member {k}", h, [], members={"evil.npy": m})
        h = A.make("SparseMatrixNode", A.OWN["SparseMatrixNode"])
        z = io.BytesIO()
        np.savez(z, data=ob, indices=np.arange(1), indptr=np.arange(2), shape=np.array([1, 1]), format=b"csr")
        h["file"] = "evil.npz"
        for mm in (m, z.getvalue()):
            add("pickled sparse member", h, [A.OWN["SparseMatrixNode"]], members={"evil.npz": mm})
    # names of files outside of the archive
    for f in ("/etc/hostname", "../../etc/hostname", "schema.json", "/proc/self/environ"):
        for k in ("NdArrayNode", "BytesNode", "SparseMatrixNode"):
            h = A.make(k, A.OWN[k])
            h["file"] = f
            add(f"file {f} {k}", h, [A.OWN[k]])
    # attributes set on types
    for n in ("sklearn.preprocessing._data.StandardScaler",):
        add("attrs of estimator", A.st("ObjectNode", n, content=A.st("DictNode", "builtins.dict", key_types=A.LIST(
            A.TYPE("builtins.str")), content={"__class__": A.TYPE(Cm)})), [], [Cm])
    return [{**mkcase(o, s, m, p), "T": t} for o, s, m, p, t in res]


def work_crafted(c):
    w = setup_watch(_SCRATCH["dir"])
    ev = []
    for pre in (False, True):
        A.drop_canaries()
        if pre:
            A.import_canaries()
        t = c["T"]
        names = sorted({*c["names"], *t})
        out, res, exc, led, fx = w.run(quiet(lambda: sio.loads(c["data"], trusted=t)), names)
        ev.append({"op": "use", "T": [esc(x) for x in t], "out": out, "uses": uses(out, res, led, names),
                   "fx": fx, "powerful": powerful(t), "exc": type(exc).__name__ if exc is not None else ""})
    A.drop_canaries()
    return ev


def prepare():
    _SCRATCH["dir"] = A.write_canaries()
    warm_up()


def finish_traces(ck, cases, events, what="archives"):
    traces, keep = [], []
    for c, ev in zip(cases, events):
        traces.append([head(c) if c.get("nodes") is not None else NO_NODES, *ev])
        keep.append(drop(c))
    bad, n, states = validate("SkopsLoadTrace", traces)
    ck.add("states", states)
    ck.add(what, len(traces))
    ck.add("traces_validated_against_impl", len(traces))
    ck.add("events", n)
    report_bad(ck, bad, traces, keep)
    return traces


def run_C01():
    ck = Check("C01", "model_checking",
               "archives of the bounded instance of the specification, crafted attack chains, random and "
               "mutated archives, each under several trusted lists")
    rows = spec_run(ck)
    prepare()
    cases = spec_cases(rows, None if THOROUGH else 4500, "C01")
    cases += random_cases(30000 if THOROUGH else 3000, "C01") + written_cases()
    for k, c in enumerate(cases):
        c["k"] = k
    cr = crafted()
    ck.log(f"{len(cases)} archives, {len(cr)} crafted")
    ev = pmap(work_C01, cases)
    ev2 = pmap(work_crafted, cr)
    ck.add("loads", sum(map(len, ev)) + sum(map(len, ev2)))
    outs = [e["out"] for x in ev + ev2 for e in x]
    ck.cov["loads_succeeding"] = outs.count("ok")
    ck.log(f"loads: {len(outs)}, succeeding {outs.count('ok')}")
    slim = [{**c, "nodes": []} for c in cases + cr]
    finish_traces(ck, slim, ev + ev2)
    ck.cov["samples"] = [drop(cases[0])["origin"], drop(cr[0])["origin"]]
    ck.assumptions = ["uses are observed through harness-owned canary modules, the audit events of the "
                      "interpreter, calls made by skops.io code, and the returned object graph"]
    return ck.finish()


# =============================================================== C02
def work_C02(c):
    w = setup_watch(_SCRATCH["dir"])
    w.imports = True
    rng = random.Random(f"{SEED}/{c['k']}/C02")
    ev = []
    u, _ = report(c)
    names = c["names"]
    path = _SCRATCH["file"]
    path.write_bytes(c["data"])
    jobs = [("get_untrusted_types", lambda: sio.get_untrusted_types(data=c["data"])),
            ("get_untrusted_types-file", lambda: sio.get_untrusted_types(file=path)),
            ("visualize", lambda: sio.visualize(c["data"], sink=lambda n, *a, **k: list(n))),
            ("visualize-trusted", lambda: sio.visualize(path, sink=lambda n, *a, **k: list(n), trusted=names))]
    if c["k"] % 10 == 0:
        jobs.append(("visualize-print", lambda: sio.visualize(c["data"], show="all")))
    if u:
        gone = rng.choice(u)
        part = [x for x in u if x != gone]
        jobs += [("load-refused", lambda: sio.loads(c["data"])),
                 ("load-refused-file", lambda: sio.load(path, trusted=[])),
                 ("load-refused-part", lambda: sio.loads(c["data"], trusted=part))]
    for fn, f in jobs:
        A.drop_canaries()
        if (c["k"] + len(ev)) % 3 == 0:
            A.import_canaries()
        cwd = sorted(os.listdir(path.parent))
        so, sys.stdout = sys.stdout, NullOut()
        try:
            out, res, exc, led, fx = w.run(quiet(f), names)
        finally:
            sys.stdout = so
        if fn.startswith("load") and out == "ok":
            continue  # that it should have refused is a question of C03
        fx = [*led, *fx]
        if sorted(os.listdir(path.parent)) != cwd:
            fx.append(["files", "created"])
        ev.append({"op": "inspect", "fn": fn, "fx": [[esc(str(x)) for x in y] for y in fx], "out": out})
    A.drop_canaries()
    return ev


def dormant():
    """names in modules of the installed libraries that could be imported and are not"""
    import importlib.machinery
    import pkgutil

    import numpy
    import scipy
    import sklearn

    import skops

    res = []
    for pkg in (sklearn, numpy, scipy, skops):
        todo = [(pkg.__path__, pkg.__name__)]
        while todo:
            path, pre = todo.pop()
            for m in pkgutil.iter_modules(path):
                full = f"{pre}.{m.name}"
                if m.ispkg:
                    todo.append(([os.path.join(p, m.name) for p in path], full))
                if full not in sys.modules:
                    res.append(full)
    for m in sorted(sys.stdlib_module_names):
        if m not in sys.modules and importlib.machinery.PathFinder.find_spec(m):
            res.append(m)
    return res


def dormant_cases(n, tag):
    """every loader with names of modules that are not imported, of all parts of the installation"""
    mods = dormant()
    rng = random.Random(f"{SEED}/{tag}/dormant")
    groups = {}
    for m in mods:
        groups.setdefault(m.split(".")[0] if m.split(".")[0] in ("sklearn", "numpy", "scipy", "skops") else "std",
                          []).append(m)
    res = []
    kinds = sorted(A.SLOTS)
    k = 0
    while len(res) < n:
        k += 1
        kind = kinds[k % len(kinds)]
        m = rng.choice(groups[rng.choice(sorted(groups))])
        proto = rng.choice([2, 2, 2, 1, 0])
        name = f"{m}.{rng.choice([A.NATURAL[kind], A.OWN[kind].rpartition('.')[2], 'main', '__doc__'])}"
        s = A.make(kind, name, proto=proto, id=rng.choice([0, 7]))
        if rng.random() < 0.5:
            slots = A.SLOTS[host := rng.choice(kinds)] + (["keys"] if host == "DictNode" else [])
            if slots:
                s = A.make(host, A.OWN[host], s, rng.choice(slots), proto, 8)
        res.append(mkcase(f"dormant {name} {kind}", s, {}, proto))
    return res


def run_C02():
    ck = Check("C02", "model_checking",
               "archives of the bounded instance, random and mutated archives; every inspection observed for "
               "imports, name resolution, calls, and file or process operations")
    rows = spec_run(ck)
    prepare()
    cases = spec_cases(rows, None if THOROUGH else 5000, "C02")
    cases += random_cases(30000 if THOROUGH else 3000, "C02", evil=0.7) + written_cases() + crafted()
    cases += dormant_cases(20000 if THOROUGH else 1500, "C02")
    for k, c in enumerate(cases):
        c["k"] = k
    ev = pmap(work_C02, cases)
    ck.add("inspections", sum(map(len, ev)))
    finish_traces(ck, [{**c, "nodes": []} for c in cases], ev)
    ck.cov["samples"] = [drop(cases[0])["origin"]]
    ck.assumptions = ["name resolution is observed on harness-owned modules (imported and not yet imported) "
                      "and as imports of any module named in the archive"]
    return ck.finish()


# =============================================================== C03
def missing_in(msg, names):
    """which of the names a message mentions"""
    res = []
    for n in sorted(filter(None, names), key=len, reverse=True):
        r = repr(n)[1:-1]
        pat = re.compile(r"(?<![\w.])" + re.escape(r) + r"(?![\w]|\.\w)")
        if pat.search(msg):
            res.append(n)
            msg = pat.sub("", msg)
    return res


def types_of(t, rng):
    """the same trusted list with some of the names replaced by their objects"""
    from skops.io._utils import get_type_name

    out = []
    for n in t:
        o = A.resolve(n)
        if isinstance(o, type) and not n.startswith("vcan") and rng.random() < 0.7 and \
                f"{o.__module__}.{o.__name__}" == n:
            out.append(o)
        else:
            out.append(n)
    return out


def one_load(c, t, via, universe, path):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if via == "loads":
                r = sio.loads(c["data"], trusted=t)
            elif via == "load-str":
                r = sio.load(str(path), trusted=t)
            else:
                r = sio.load(path, trusted=t)
        out, missing = "ok", []
        try:
            dig = digest(r)
        except Exception:  # noqa: BLE001  (also RecursionError)
            dig = "?"
    except UntrustedTypesFoundException as e:
        out, missing, dig = "untrusted", missing_in(str(e), universe), ""
    except Exception:  # noqa: BLE001
        out, missing, dig = "raise", [], ""
    return out, missing, dig


def work_C03(c):
    setup_watch(_SCRATCH["dir"])
    rng = random.Random(f"{SEED}/{c['k']}/C03")
    path = _SCRATCH["file"]
    path.write_bytes(c["data"])
    A.drop_canaries()
    A.import_canaries()
    u, e = report(c)
    ev = [e, report(c, "file", str(path))[1], report(c, "path", path)[1]]
    if u is None:
        return ev
    # archives that ask for dangerous things are only loaded with lists that refuse them
    safe = not [x for x in u if not x.startswith("vcan") and x not in c.get("fine", ())]
    lists = [t for t in subsets(rng, u, 4 if not THOROUGH else 10)]
    if not safe:
        lists = [t for t in lists if set(u) - set(t)]
    # a chain of growing lists
    chain = list(u)
    rng.shuffle(chain)
    extra = [x for x in rng.sample(FAMILY_NAMES + ["zzz.q", "a"], 3)]
    if safe:
        lists += [chain + extra, extra + chain + c["names"]]
    universe0 = {*u, *c["names"]}
    first = None
    stable = None
    for j, t in enumerate(lists):
        via = ["loads", "load-str", "load-path"][(c["k"] + j) % 3]
        arg = t
        if rng.random() < 0.4:
            arg = types_of(t, rng)
        if rng.random() < 0.3:
            arg = tuple(arg)
        if not arg and rng.random() < 0.5:
            arg = None
        out, missing, dig = one_load(c, arg, via, {*universe0, *t}, path)
        if out == "ok" and first is None:
            # is the result itself reproducible
            first = dig
            # (a tree without a state consists of uninitialised memory)
            tree = "TreeNode" in json.dumps(c["schema"]) and not c["origin"].startswith("dump:")
            stable = dig != "?" and not tree and one_load(c, arg, via, {*universe0, *t}, path)[2] == dig
        ev.append({"op": "load", "via": via, "T": [esc(x) for x in t], "out": out,
                   "missing": [esc(x) for x in missing], "dig": dig, "stable": bool(stable)})
    for fn, f in (("loads", lambda: sio.loads(c["data"], trusted=True)),
                  ("load", lambda: sio.load(path, trusted=True))):
        try:
            f()
            out = "ok"
        except Exception as ex:  # noqa: BLE001
            out = type(ex).__name__
        ev.append({"op": "bool", "via": fn, "out": out})
    A.drop_canaries()
    return ev


FINE = """vtypes. decimal. datetime. sklearn. scipy.sparse. numpy.dtype functools.partial operator. builtins.frozenset
builtins.dict builtins.len numpy.mean builtins.int builtins.float builtins.str builtins.bool builtins.list builtins.set
builtins.tuple numpy.float64 collections.OrderedDict collections.Counter builtins.complex""".split()


def run_C03():
    ck = Check("C03", "model_checking",
               "archives of the bounded instance, dumps of all kinds of objects, random and mutated archives; "
               "trusted lists over the reported names: subsets, supersets, permutations, types, tuples")
    rows = spec_run(ck)
    prepare()
    cases = spec_cases(rows, None if THOROUGH else 3500, "C03")
    cases += random_cases(20000 if THOROUGH else 2500, "C03", evil=0.35, depth=3)
    w = written_cases()
    rng = random.Random(f"{SEED}/c03")
    cases += w * (20 if THOROUGH else 3)
    cases = [dict(c) for c in cases]
    for k, c in enumerate(cases):
        c["k"] = k
        c["fine"] = [n for n in c["names"] if any(n.startswith(f) for f in FINE) and "externals" not in n]
    ev = pmap(work_C03, cases)
    ck.add("loads", sum(1 for x in ev for e in x if e["op"] == "load"))
    outs = [e["out"] for x in ev for e in x if e["op"] == "load"]
    ck.log(f"loads: {len(outs)}: ok {outs.count('ok')}, untrusted {outs.count('untrusted')}")
    finish_traces(ck, [{**c, "nodes": []} for c in cases], ev)
    ck.cov["samples"] = [drop(cases[-1])["origin"]]
    ck.assumptions = ["results are equal when their projections are"]
    return ck.finish()
