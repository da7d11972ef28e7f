"""C06 (sharing) and C12 (well-formed archives), against spec/SkopsDump*.tla."""
from __future__ import annotations

import hashlib
import io
import json
import random
import shutil
import tempfile
import warnings
import zipfile
from pathlib import Path

import archives as A
import common
import heap as H
import numpy as np
import samples
import scipy.sparse as sp
import valpool as V
import vtypes
from common import SEED, THOROUGH, Check, esc, tlc, validate
from project import array_bytes, diff, term

import skops
import skops.io as sio
from skops.io._protocol import PROTOCOL

INVARIANTS = "Shared Distinct Content StoredOnce Emit".split()


def spec_run(ck):
    """the design (with temporaries kept) checked for all graphs; the graphs for the real dump"""
    def run(n, w, go):
        r = tlc("SkopsDump", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
                f"CONSTANTS N = {n}\nW = {w}\nKeep = TRUE\nRun = {str(go).upper()}\n"
                + "".join(f"INVARIANT {x}\n" for x in INVARIANTS))
        ck.add("states", r.distinct)
        ck.add("transitions", r.states)
        ck.log(f"SkopsDump N={n} W={w} Run={go}: {r.distinct} states, {len(r.rows)} graphs, {r.wall:.1f}s")
        return r.rows

    run(4 if THOROUGH else 3, 2, True)
    rows = run(4, 2, False)
    if THOROUGH:
        rows += run(4, 3, False)
    return sorted(rows, key=lambda g: json.dumps(g, sort_keys=True))


def sha(t):
    return hashlib.sha256(json.dumps(t).encode()).hexdigest()


def read(d):
    with zipfile.ZipFile(io.BytesIO(d)) as z:
        return json.loads(z.read("schema.json")), z.namelist()


def files_of(s, out):
    """every (id, file) of a schema"""
    if isinstance(s, dict):
        if isinstance(s.get("file"), str) and "__loader__" in s:
            out.append((s.get("__id__"), s["file"]))
        for v in s.values():
            files_of(v, out)
    elif isinstance(s, list):
        for v in s:
            files_of(v, out)
    return out


def relabel(d, r):
    """the same archive with other identifiers"""
    s, m, proto = A.parts(d)
    ids = {}

    def rec(x):
        if isinstance(x, dict):
            if "__loader__" in x and isinstance(x.get("__id__"), int):
                x["__id__"] = ids.setdefault(x["__id__"], None) or x["__id__"]
            for v in x.values():
                rec(v)
        elif isinstance(x, list):
            for v in x:
                rec(v)

    rec(s)
    new = list(range(1, len(ids) + 1))
    r.shuffle(new)
    ids.update(zip(list(ids), new))
    rec(s)
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        for k, v in m.items():
            z.writestr(k, v)
        z.writestr("schema.json", json.dumps({**s, "protocol": proto, "_skops_version": "0"}))
    return b.getvalue()


def sharing(o, r=None, stored=None, must=True):
    """events of one object; note"""
    warnings.simplefilter("ignore")
    try:
        d = sio.dumps(o)
    except Exception as e:  # noqa: BLE001  (refusing is the business of other properties)
        return [], f"{e!r:.200}"
    a = term(o)
    evs, note = loaded(o, a, d, must)
    if not evs:
        return evs, note
    s, names = read(d)
    fs = files_of(s, [])
    want = len({i for i, _ in fs}) if stored is None else stored
    evs.append({"op": "stored", "want": want, "got": len(names) - 1})
    if len(names) - 1 > want:
        note += f" | {len(names) - 1} members, {want} expected"
    if r is not None:
        ev, n2 = loaded(o, a, relabel(d, r), must)
        return evs + ev, note or n2
    return evs, note


def loaded(o, a, d, must):
    """load an archive of o, whose term is a, and compare"""
    try:
        got = sio.loads(d, trusted=sio.get_untrusted_types(data=d))
    except Exception as e:  # noqa: BLE001
        return [{"op": "content", "want": sha(a), "got": "raised"}] if must else [], f"{e!r:.200}"
    try:
        ev, ps = H.event(o, got)
        b = term(got)
    except Exception as e:  # noqa: BLE001  (half-made objects)
        return [{"op": "content", "want": sha(a), "got": "unusable"}], f"{e!r:.200}"
    note = H.explain(ps)
    if a != b:
        note += " | content: " + diff(a, b)
    return [ev, {"op": "content", "want": sha(a), "got": sha(b)}], note


def work_graph(job):
    g, seed = job
    r = random.Random(seed)
    o, _ = H.build(g, r)
    return (f"graph {json.dumps(g)} seed {seed}", *sharing(o, r if r.random() < 0.3 else None))


def work_random(seed):
    r = random.Random(seed)
    n = r.choice([5, 6, 8, 10, 14])
    g = {"kind": [], "kids": []}
    for j in range(n):
        k = r.choice(["cont", "cont", "imm", "fresh", "leaf"])
        g["kind"].append(k)
        m = 0 if k == "leaf" or not j else r.choice([0, 1, 2, 2, 3])
        g["kids"].append([r.randint(1, j) for _ in range(m)])
    used = {c for ks in g["kids"] for c in ks}
    g["kind"].append("cont")
    g["kids"].append([j for j in range(1, n + 1) if j not in used] + [r.randint(1, n)])
    try:
        return work_graph((g, seed))
    except RecursionError:
        return (seed, [], "too deep")


def work_stored(job):
    """how often the data of an array referenced several times is stored"""
    seed = job
    r = random.Random(seed)
    x = r.choice([lambda: V.array(r), lambda: V.sparse(r), lambda: V.masked(r), lambda: np.matrix([[1, 2]]),
                  lambda: np.arange(3).view(V.SA), lambda: sp.csr_array(np.eye(3)), lambda: sp.bsr_matrix(np.eye(4))])()
    mk = r.choice([lambda: [x, x], lambda: {"a": x, "b": (x, [x])}, lambda: vtypes.Plain(a=x, b=[x]),
                   lambda: [x, {"k": vtypes.Plain(q=x)}, (x,), slice(None), [[x]]],
                   lambda: V.NT(x, [x]), lambda: V.DC(x, [x, x]), lambda: [vtypes.GetSet(x), vtypes.GetSet(x), x]])
    warnings.simplefilter("ignore")
    try:
        n = len(read(sio.dumps(x))[1]) - 1
    except Exception as e:  # noqa: BLE001
        return (f"stored {seed}", [], repr(e))
    what = f"stored {type(x).__name__} {getattr(x, 'dtype', '')} {seed}"
    return (what, *sharing(mk(), stored=n))


def makers():
    """kinds of objects, as functions of a number"""
    out = {f"atom:{k}": (lambda f: lambda n: f(random.Random(f"{SEED}/{n}/{id(f) % 7}")))(f) for k, f in V.ATOMS.items()}
    out.update({f"leaf{j}": (lambda j: lambda n: H.leaf(random.Random(f"{j}/{n % 3}"), n))(j) for j in range(12)})
    out.update({
        "fresh": lambda n: vtypes.Fresh(n), "fresh+": lambda n: vtypes.Fresh(n, [n], {"a": n}),
        "params": lambda n: vtypes.Params(n, [n, [n]]), "getset": lambda n: vtypes.GetSet([n]),
        "intkeys": lambda n: {n: [n], n + 1: {}}, "oddkeys": lambda n: {None: n, (n,): [n], True: n, b"a": [n]},
        "ddict": lambda n: V.collections.defaultdict(list, {n: [n]}), "slots": lambda n: vtypes.Slots(n, [n]),
        "nested": lambda n: [[n], (n, [n]), {"a": [n]}], "partial": lambda n: V.functools.partial(V.ff, [n], x={"a": n}),
        "method": lambda n: vtypes.Plain(n=n).method, "slice": lambda n: slice(n, None), "empty": lambda n: [],
        "emptyd": lambda n: {}, "equal": lambda n: [1, 2], "equalarr": lambda n: np.arange(3), "sl": lambda n: V.SL([n]),
        "equalcsr": lambda n: sp.csr_matrix(np.eye(2)), "oarr": lambda n: np.array([n, None], dtype=object),
        "masked": lambda n: np.ma.array([n, 2], mask=[0, 1]), "mnomask": lambda n: np.ma.array([n, 2]),
        "set": lambda n: {n, "a"}, "fs": lambda n: frozenset({n}), "dec": lambda n: V.decimal.Decimal(n),
        "dt": lambda n: V.datetime.datetime(2020, 1, 1 + n % 20), "rs": lambda n: np.random.RandomState(n),
        "gen": lambda n: np.random.default_rng(n), "big": lambda n: 10**20 + n, "str": lambda n: f"text {n}",
        "reduceargs": lambda n: V.ReduceArgs(n, [n]), "rstate": lambda n: V.ReduceState(n), "kdtree": _kdtree,
        "tree": _tree, "lr": _lr, "sgd": _sgd, "copied": lambda n: V.Copied(n), "statelist": lambda n: V.StateList(n),
    })
    return out


def _kdtree(n):
    from sklearn.neighbors import KDTree

    return KDTree(np.arange(6.0).reshape(3, 2) + n)


def _tree(n):
    return samples.DecisionTreeClassifier(max_depth=2, random_state=n).fit(*samples.data(n))


def _lr(n):
    return samples.LogisticRegression(C=n + 1).fit(*samples.data(n))


def _sgd(n):
    return samples.SGDClassifier(loss="huber", random_state=n).fit(*samples.data(n))


def work_many(job):
    """many objects of a kind, each referenced again later"""
    name, seed = job
    r = random.Random(seed)
    mk = makers()[name]
    xs = [mk(j) for j in range(r.choice([2, 8, 20]))]
    ys = xs[:]
    r.shuffle(ys)
    form = r.choice(["list", "attrs", "dicts", "fresh", "oarr"])
    o = [xs, ys]
    if form == "attrs":
        o = [vtypes.Plain(a=x, b=[x]) for x in xs] + [tuple(ys)]
    elif form == "dicts":
        o = {"a": {f"k{j}": x for j, x in enumerate(xs)}, "b": {j: x for j, x in enumerate(ys)}}
    elif form == "fresh":
        o = [vtypes.Fresh(j, x, ys[j]) for j, x in enumerate(xs)] + ys
    elif form == "oarr":
        a = np.empty(len(xs), dtype=object)
        for j, x in enumerate(xs):
            a[j] = x
        o = [a, ys]
    return (f"many {name} {form} {seed}", *sharing(o, must=name != "atom:function"))


MUST = set(samples.samples())


def work_pool(job):
    name, o = job
    return (f"pool {name}", *sharing([o, {"again": o}, vtypes.Plain(x=[o])], must=name in MUST))


def est_shared():
    """estimators that share parts"""
    from sklearn.ensemble import BaggingClassifier, RandomForestClassifier, StackingClassifier, VotingClassifier
    from sklearn.pipeline import Pipeline

    X, y = samples.data()
    rs = np.random.RandomState(3)
    lr = samples.LogisticRegression()
    tree = samples.DecisionTreeClassifier(max_depth=2, random_state=rs)
    f = samples.LogisticRegression().fit(X, y)
    return {
        "bagging": BaggingClassifier(tree, n_estimators=3, random_state=rs).fit(X, y),
        "voting": VotingClassifier([("a", f), ("b", f), ("c", tree)]).fit(X, y),
        "pipes": [Pipeline([("s", samples.StandardScaler()), ("m", f)]), Pipeline([("m", f)]), f],
        "forest": RandomForestClassifier(n_estimators=3, random_state=rs).fit(X, y),
        "stack": StackingClassifier([("a", lr), ("b", lr)], final_estimator=lr, cv=2).fit(X, y),
        "coef": [f, f.coef_, {"c": f.coef_, "k": f.classes_}], "treearr": [tree, rs, {"r": rs}],
        "unfitted": [lr, VotingClassifier([("a", lr), ("b", lr)]), tree, Pipeline([("x", tree), ("y", lr)])],
    }


def findings():
    """(key, object): sharing of parts that the format stores together with their owner"""
    bg = np.random.PCG64(3)
    yield "shared-bit-generator", [np.random.Generator(bg), np.random.Generator(bg)], \
        lambda o: [o[0].bit_generator, o[1].bit_generator]
    rbg = np.random.PCG64(3)
    yield "shared-bit-generator-randomstate", [np.random.RandomState(rbg), np.random.RandomState(rbg)], \
        lambda o: [o[0]._bit_generator, o[1]._bit_generator]
    m = sp.csr_matrix(np.eye(3))
    yield "sparse-buffers", [m, m.data], lambda o: [o[0].data, o[1]]
    p = vtypes.Plain(a=[1])
    yield "instance-dict", [p, p.__dict__], lambda o: [o[0].__dict__, o[1]]


def events_findings(ck):
    res = []
    for key, o, parts in findings():
        def ids(xs):
            return [[id(x) for x in xs].index(id(x)) for x in xs]

        try:
            d = sio.dumps(o)
            got = sio.loads(d, trusted=sio.get_untrusted_types(data=d))
            res.append((f"finding {key}", [{"op": "heap", "a": ids(parts(o)), "b": ids(parts(got))}], key))
        except Exception as e:  # noqa: BLE001
            res.append((f"broken {key}", [{"op": "content", "want": "", "got": "raised"}], repr(e)))
    return res


def judge(ck, res):
    traces = [ev for _, ev, _ in res]
    bad, n, states = validate("SkopsDumpTrace", traces)
    ck.add("states", states)
    ck.add("traces_validated_against_impl", len(traces))
    ck.add("events", n)
    for row in bad:
        what, ev, note = res[row["t"]]
        for cl in row["bad"]:
            ck.violation(cl, {"what": what, "event": ev[row["i"]]}, f"{what[:300]} | {note[:400]}",
                         key=note if what.startswith("finding") else None)


def run_C06():
    ck = Check("C06", "model_checking",
               "object graphs enumerated by TLC made of real objects, random larger graphs, many objects of each kind; "
               "identities compared along the same paths before dumping and after loading")
    rows = spec_run(ck)
    r = random.Random(f"{SEED}/C06")
    k = len(rows) if THOROUGH else 5000
    jobs = [(g, f"{SEED}/{j}") for j, g in enumerate(r.sample(rows, min(k, len(rows))))]
    if THOROUGH:
        jobs += [(g, f"{SEED}/b{j}") for j, g in enumerate(rows)]
    res = common.pmap(work_graph, jobs)
    ck.log(f"{len(jobs)} graphs of the specification")
    n = 20 if THOROUGH else 1
    res += common.pmap(work_random, [f"{SEED}/r{j}" for j in range(1500 * n)])
    res += common.pmap(work_stored, [f"{SEED}/s{j}" for j in range(700 * n)])
    ck.log("random graphs")
    res += common.pmap(work_many, [(m, f"{SEED}/m{j}") for m in sorted(makers()) for j in range(6 * n)])
    pool = {**V.wild(), **samples.samples(), **est_shared(), **(samples.estimators() if THOROUGH else {})}
    for name in ("cycle", "cycled", "cyclep", "cyclea", "gen", "deep"):
        pool.pop(name)
    res += common.pmap(work_pool, sorted(pool.items()))
    ck.log("objects of every kind")
    res += events_findings(ck)
    ck.add("graphs", len(res))
    ck.add("refused", sum(not ev for _, ev, _ in res))
    ck.add("references", sum(len(e["a"]) for _, ev, _ in res for e in ev if e["op"] == "heap"))
    judge(ck, res)
    ck.cov["samples"] = [res[0][0], res[-1][0]]
    ck.assumptions = ["references are followed through containers, attributes, slots, cells of object arrays, partials, "
                      "bound methods; parts stored with their owner (buffers of sparse matrices, bit generators) are "
                      "looked at in the listed findings only"]
    return ck.finish()


# ---------------------------------------------------------------------------- C12
def nodes_of(s):
    """what is wrong with the header of each node ("ok"), and the members they refer to"""
    out, refs = [], []

    def rec(x):
        if not isinstance(x, dict):
            out.append(f"not a node: {type(x).__name__}")
            return
        miss = [k for k in ("__loader__", "__class__", "__module__", "__id__") if k not in x]
        wrong = [k for k in ("__loader__", "__class__", "__module__") if k in x and not (isinstance(x[k], str) and x[k])]
        if "__id__" in x and type(x["__id__"]) is not int:
            wrong.append("__id__")
        out.append("ok" if not miss + wrong else esc(f"{x.get('__loader__')}: missing {miss} wrong {wrong}"))
        if isinstance(x.get("file"), str):
            refs.append(x["file"])
        for _, _, c, _, _ in A.kids(x):
            rec(c)

    rec(s)
    return sorted(set(out)), refs, len(out)


def archive_event(d):
    e = {"op": "archive", "zip": False, "json": False, "proto": -1, "wantproto": PROTOCOL, "version": "",
         "wantversion": esc(skops.__version__), "nodes": [], "refs": [], "members": []}
    n = 0
    try:
        with zipfile.ZipFile(io.BytesIO(d)) as z:
            e["zip"] = z.testzip() is None
            e["members"] = [esc(x) for x in z.namelist()]
            s = json.loads(z.read("schema.json"), parse_constant=_no_constant)
        e["json"] = isinstance(s, dict)
        e["proto"] = s["protocol"] if type(s.get("protocol")) is int else -1
        e["version"] = esc(str(s.get("_skops_version")))
        e["nodes"], refs, n = nodes_of(s)
        e["refs"] = sorted({esc(x) for x in refs})
    except (zipfile.BadZipFile, ValueError, KeyError, TypeError, AttributeError) as ex:
        e["nodes"].append(esc(repr(ex)))
    return e, n


def _no_constant(x):
    raise ValueError(f"{x} is not JSON")


def canon(d):
    """the archive with ids and names of members replaced by numbers in the order of the schema"""
    with zipfile.ZipFile(io.BytesIO(d)) as z:
        s = json.loads(z.read("schema.json"))
        m = {n: z.read(n) for n in z.namelist() if n != "schema.json"}
    ids, names = {}, {}

    def member(n):
        return names.setdefault(n, f"member{len(names)}")

    def rec(x):
        if isinstance(x, dict) and "__id__" in x:
            x["__id__"] = ids.setdefault(x["__id__"], len(ids))
        if isinstance(x, dict) and isinstance(x.get("file"), str):
            x["file"] = member(x["file"])
        for _, _, c, _, _ in A.kids(x):
            rec(c)

    rec(s)
    content = {names.get(n, n): hashlib.sha256(_inner(v)).hexdigest() for n, v in m.items()}
    return sha([s, sorted(content.items())])


def _inner(v):
    """members that are zip archives themselves (npz) bear times, extended precision numbers have padding"""
    if v[:6] == b"\x93NUMPY":
        a = np.load(io.BytesIO(v), allow_pickle=False)
        if not a.dtype.hasobject:
            return f"{a.dtype} {a.shape} {a.flags.f_contiguous} {array_bytes(a)}".encode()
    if v[:4] == b"PK\x03\x04":
        with zipfile.ZipFile(io.BytesIO(v)) as z:
            return repr(sorted((n, _inner(z.read(n))) for n in z.namelist())).encode()
    return v


METHODS = [(zipfile.ZIP_STORED, None), (zipfile.ZIP_DEFLATED, None), (zipfile.ZIP_DEFLATED, 0), (zipfile.ZIP_DEFLATED, 1),
           (zipfile.ZIP_DEFLATED, 9), (zipfile.ZIP_BZIP2, None), (zipfile.ZIP_BZIP2, 1), (zipfile.ZIP_BZIP2, 9),
           (zipfile.ZIP_LZMA, None), (zipfile.ZIP_STORED, 5)]
SINKS = "dumps str path open bytesio over unbuffered".split()


class Trickle(io.RawIOBase):
    """a binary file of its own kind"""

    def __init__(self):
        self.parts = []

    def writable(self):
        return True

    def write(self, b):
        self.parts.append(bytes(b))
        return len(b)


def write(o, sink, method, level, tmp):
    kw = {"compression": method, "compresslevel": level}
    if method == zipfile.ZIP_STORED and level is None and sink != "str":
        kw = {}
    f = Path(tmp) / "x.skops"
    if sink == "dumps":
        return sio.dumps(o, **kw)
    if sink == "bytesio":
        b = io.BytesIO()
        sio.dump(o, b, **kw)
        return b.getvalue()
    if sink == "unbuffered":
        t = Trickle()
        sio.dump(o, t, **kw)
        return b"".join(t.parts)
    if sink == "over":
        f.write_bytes(b"x" * 300000)
        sio.dump(o, str(f), **kw)
    elif sink == "str":
        sio.dump(o, str(f), **kw)
    elif sink == "path":
        sio.dump(o, f, **kw)
    elif sink == "open":
        with open(f, "w+b") as h:
            sio.dump(o, h, **kw)
    return f.read_bytes()


def wellformed(what, o, r, full):
    warnings.simplefilter("ignore")
    before = term(o)  # (looking at some objects gives them a __dict__)
    try:
        d = sio.dumps(o)
    except Exception:  # noqa: BLE001
        return (what, [], "refused", 0)
    e, n = archive_event(d)
    ev = [e]
    note = "" if e["nodes"] == ["ok"] else str(e["nodes"])[:300]
    if full:
        try:
            u = sio.get_untrusted_types(data=d)
            ok = term(sio.loads(d, trusted=u)) == before
        except Exception:  # noqa: BLE001  (does not load: the business of other properties)
            ok = False
        tmp = tempfile.mkdtemp(prefix="verif-c12-")
        try:
            combos = [(s, m) for s in SINKS for m in METHODS]
            combos = combos if full == "all" else [("dumps", METHODS[0])] + r.sample(combos, 6)
            for s, (m, lv) in combos:
                x = {"op": "sink", "out": "ok", "canon": "", "same": True}
                try:
                    d2 = write(o, s, m, lv, tmp)
                    e2, k = archive_event(d2)
                    ev.append(e2)
                    n += k
                    x["canon"] = canon(d2)
                    if ok:
                        x["same"] = term(sio.loads(d2, trusted=u)) == before
                except Exception as ex:  # noqa: BLE001
                    x["out"] = type(ex).__name__
                    note += f"{s} {m} {lv}: {ex!r}"[:200]
                ev.append(x)
                if not x["same"] or (len(ev) > 3 and x["canon"] != ev[2]["canon"]):
                    note += f"{s} {m} {lv}; "
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return (what, ev, note, n)


_POOL = {}


def work_wf_pool(job):
    name, full = job
    if not _POOL:
        _POOL.update({**V.wild(), **samples.samples(), **est_shared()})
    return wellformed(f"pool {name}", _POOL[name], random.Random(f"{SEED}/{name}"), full)


def work_wf_est(job):
    name, o, full = job
    return wellformed(f"estimator {name}", o, random.Random(f"{SEED}/{name}"), full)


def work_wf_random(job):
    kind, seed, full = job
    r = random.Random(seed)
    if kind == "supported":
        o = V.supported(r, r.choice([1, 2, 3]))[0]
    elif kind == "sys":
        o = [V.array(r, dt) for dt in r.sample(V.DTYPES, 5)] + [V.sparse(r), V.masked(r), V.atom(r)]
    else:  # much data, many members
        o = [V.array(r) for _ in range(200)] + [np.arange(r.choice([10**5, 10**6])), bytes(10**6), r.randbytes(3 * 10**5),
                                                [bytearray(r.randbytes(9)) for _ in range(50)], "x" * 10**5]
    return wellformed(f"{kind} {seed}", o, r, full)


def work_wf_graph(job):
    g, seed = job
    r = random.Random(seed)
    o, _ = H.build(g, r)
    return wellformed(f"graph {json.dumps(g)} seed {seed}", o, r, False)


def run_C12():
    ck = Check("C12", "model_checking",
               "archives of graphs enumerated by TLC, of values of every kind and of random values; read with zipfile and "
               "json and judged by the specification; written to every sink under every compression")
    rows = spec_run(ck)
    r = random.Random(f"{SEED}/C12")
    k = len(rows) if THOROUGH else 5000
    res = common.pmap(work_wf_graph, [(g, f"{SEED}/{j}") for j, g in enumerate(r.sample(rows, min(k, len(rows))))])
    ck.log("graphs of the specification")
    names = sorted({**V.wild(), **samples.samples(), **est_shared()})
    skip = {"cycle", "cycled", "cyclep", "cyclea", "gen", "deep"}
    every = set(r.sample(names, len(names) if THOROUGH else 12))
    res += common.pmap(work_wf_pool, [(x, "all" if x in every else "some") for x in names if x not in skip])
    ck.log("values of the pool")
    n = 30 if THOROUGH else 1
    res += common.pmap(work_wf_random, [("supported", f"{SEED}/{j}", "some" if j % 5 == 0 else "") for j in range(3000 * n)]
                       + [("big", f"{SEED}/b{j}", "some") for j in range(4 * n)]
                       + [("sys", f"{SEED}/y{j}", "some") for j in range(200 * n)])
    es = sorted(samples.estimators().items())
    res += common.pmap(work_wf_est, [(a, b, "some") for a, b in (es if THOROUGH else r.sample(es, 25))])
    ck.log("random values, estimators")
    ck.add("objects", len(res))
    ck.add("refused", sum(not ev for _, ev, _, _ in res))
    ck.add("nodes", sum(n for *_, n in res))
    ck.add("archives", sum(e["op"] == "archive" for _, ev, _, _ in res for e in ev))
    judge(ck, [x[:3] for x in res])
    ck.cov["samples"] = [res[0][0], res[-1][0]]
    ck.assumptions = ["which values of a schema are nodes is decided by the documented layout of each kind of node"]
    return ck.finish()
