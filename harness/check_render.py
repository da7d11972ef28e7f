"""C13: visualizing archives, against spec/SkopsRender*.tla and spec/SkopsLoad*.tla."""
from __future__ import annotations

import contextlib
import io
import json
import os
import random
import re
import sys
import warnings

import archives as A
import check_load as L
import common
import samples
import vtypes
from common import SEED, THOROUGH, Check, esc

import skops.io as sio

INVARIANTS = ("TreeWellFormed OutWellFormed RootAgrees NeverSafe AllUntrustedShown TrustedShowsTrusted "
              "UntrustedKeepsLevels PrintTree").split()
RESERVED = {x for v in A.SLOTS.values() for x in v} | set(
    "root func obj content attrs args constructor state keys key_types main default_factory data mask type".split())


def spec_run(ck):
    r = common.tlc("SkopsRender", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
                   f"CONSTANT MaxRows = {8 if THOROUGH else 6}\n"
                   + "".join(f"INVARIANT {x}\n" for x in INVARIANTS))
    ck.add("states", r.distinct)
    ck.add("transitions", r.states)
    ck.log(f"SkopsRender: {r.distinct} states, {len(r.rows)} trees, {r.wall:.1f}s")
    return r.rows


# --------------------------------------------------------------- archives
def tree_case(rows, k):
    """the archive that has exactly these rows: dicts with a key of their own for each"""
    def build(i):
        kids, j = [], i + 1
        while j < len(rows) and rows[j]["lv"] > rows[i]["lv"]:
            if rows[j]["lv"] == rows[i]["lv"] + 1:
                kids.append(j)
            j += 1
        s = A.DICT(**{f"k{j}": build(j) for j in kids})
        if not rows[i]["self"]:
            # harmless-looking kinds of nodes in turn
            leaf = not kids
            s2 = A.make(["SetNode", "JsonNode", "NdArrayNode", "BytesNode", "FunctionNode", "TypeNode", "ObjectNode",
                         "LossNode", "DTypeNode", "SparseMatrixNode"][(k + i) % 10], f"vcan_a.D{i}") if leaf else s
            if leaf and s2["__loader__"] in LEAFS:
                s = s2
            s["__module__"], s["__class__"] = "vcan_a", f"D{i}"
        return s

    c = L.mkcase("tree", build(0), {}, 2)
    c["tree"] = [r["self"] for r in rows]
    c["levels"] = [r["lv"] for r in rows]
    return c


LEAFS = {"JsonNode", "BytesNode", "FunctionNode", "TypeNode", "NdArrayNode", "SparseMatrixNode"}

KEYS = ["[red]", "[/red]", "[bold]x[/bold]", "a\nb", "a\r\nb", "", " ", "\t", "├── x", "└── root: builtins.int",
        "[UNSAFE]", "x [UNSAFE]", "\x1b[32m", "\u2028", "\x00", "é", "\U0001F600", "\u202e", "a: b", "[", "]", "\\", "\\[",
        "[link=http://a]b", "x" * 300, "[@click]", ":smile:", "\ud800"]


def objects(rng):
    """objects whose archives have to be visualized"""
    yield from samples.samples().items()
    if THOROUGH:
        yield from samples.estimators().items()
    else:
        es = samples.estimators()
        for k in rng.sample(sorted(es), 40):
            yield k, es[k]
    for j, k in enumerate(KEYS):
        yield f"key{j}", {k: [1, {k: vtypes.Plain(a=k)}], "z": k}
        p = vtypes.Plain(**{k: vtypes.Plain(q=1)})
        yield f"attr{j}", [p, p]
    yield "allkeys", {k: {q: 1 for q in KEYS} for k in KEYS}
    yield "empty", [[], (), {}, set(), b"", bytearray(), "", vtypes.Plain(), None]
    x = 1
    for _ in range(60):
        x = [x]
    yield "deep", x
    x = 1
    for _ in range(40):
        x = {"a": x, "b": vtypes.Plain(v=x) if _ % 7 == 0 and _ < 22 else 2}
    yield "deepmixed", x
    s = [1, vtypes.Plain(a=1)]
    for _ in range(5):
        s = [s, s]
    yield "shared", s
    a = vtypes.Plain(n=1)
    yield "shared2", {"a": a, "b": [a, (a, vtypes.GetSet(a))], "c": {"d": a}}
    t = (1, (2, 3))
    yield "sharedt", [t, {"t": t}, {t[1]: 1} if False else t]
    yield "long", [b"x" * 1000, "y" * 1000, list(range(200)), bytearray(b"[red]" * 20)]
    odd = [type(n, (), {"__module__": "vtypes", "__qualname__": n}) for n in ("a[red]", "b[/red]", "c\nd", "e f")]
    for o in odd:
        setattr(vtypes, o.__name__, o)
    yield "oddtypes", [o() for o in odd] + odd
    for o in odd:
        yield f"odd-{o.__name__}", [o, {"x": o()}]


def cases_of(rows, rng):
    cases = [tree_case(x, k) for k, x in enumerate(rows)]
    ck_w = []
    for n, v in objects(rng):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                d = sio.dumps(v)
        except Exception:  # noqa: BLE001  (e.g. class names that cannot be looked up)
            continue
        s, m, p = A.parts(d)
        try:
            nodes = A.describe(s, p)
        except (KeyError, TypeError, AttributeError):
            nodes = []
        c = L.mkcase(f"dump:{n}", s, m, p, written=True)
        c["data"] = d
        if nodes and len(nodes) > 400:
            c["nodes"] = None
        ck_w.append(c)
    return cases, ck_w


# --------------------------------------------------------------- running
def displayed(val, names):
    if val.startswith(("json-type(", "b'", 'b"', "bytearray(")):
        return []
    return L.missing_in(val, names)


def sink_rows(c, trusted, via, path):
    got = []

    def sink(it, show, **kw):
        for x in it:
            got.append((x.level, x.is_self_safe, x.is_safe, x.key, x.val))

    src = {"bytes": c["data"], "path": path, "str": str(path)}[via]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sio.visualize(src, sink=sink, **({} if trusted is None else {"trusted": trusted}))
    return got


GUIDES = ("│   ", "    ", "├── ", "└── ")
ANSI = re.compile("\x1b\\[[0-9;]*m|\x1b\\]8;[^\x1b]*\x1b\\\\")


def parse(text, tag):
    """rows of a printed tree"""
    rows = []
    for line in text.split("\n"):
        plain = ANSI.sub("", line)
        if not plain.strip():
            continue
        lv, p = 0, plain
        while p[:4] in GUIDES:
            lv += 1
            last = p[:4]
            p = p[4:]
            if last[0] in "├└":
                break
        rows.append((lv, p.rstrip(" "), "\x1b[32m" in line))
    return rows


def printed(c, trusted, show, rich, colors, tags, path):
    """the rows that the default sink prints"""
    kw = {"use_colors": colors, **tags}
    if colors:
        kw.update(color_safe="green", color_unsafe="red", color_child_unsafe="blue")
    buf = io.StringIO()
    saved = {k: v for k, v in sys.modules.items() if k == "rich" or k.startswith("rich.")}
    env = {k: os.environ.get(k) for k in ("COLUMNS", "FORCE_COLOR", "NO_COLOR", "TERM")}
    try:
        os.environ["COLUMNS"] = "20000"
        os.environ.pop("NO_COLOR", None)
        os.environ["TERM"] = "xterm"
        if colors:
            os.environ["FORCE_COLOR"] = "1"
        else:
            os.environ.pop("FORCE_COLOR", None)
        if not rich:
            for k in saved:
                del sys.modules[k]
            sys.modules["rich"] = None
        with contextlib.redirect_stdout(buf), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sio.visualize(path if rich else c["data"], show=show, trusted=trusted, **kw)
    finally:
        if not rich:
            del sys.modules["rich"]
            sys.modules.update(saved)
        for k, v in env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
    return parse(buf.getvalue(), tags.get("tag_unsafe", "[UNSAFE]"))


def work(c):
    L.setup_watch(L._SCRATCH["dir"])
    rng = random.Random(f"{SEED}/{c['k']}/C13")
    path = L._SCRATCH["file"]
    path.write_bytes(c["data"])
    A.drop_canaries()
    A.import_canaries()
    u, e = L.report(c)
    ev = [e]
    nodes = c["nodes"] or []
    by = {}
    for j, n in enumerate(nodes, 1):
        by.setdefault(n["key"], []).append(j)
    uniq = {k: v[0] for k, v in by.items()
            if len(v) == 1 and k not in RESERVED and nodes[v[0] - 1]["slot"] == "content"
            and nodes[v[0] - 1]["par"] and nodes[nodes[v[0] - 1]["par"] - 1]["kind"] == "DictNode"}
    lists = L.subsets(rng, u or [], 1 if not THOROUGH else 4)
    lists = [None] + lists if rng.random() < 0.3 else lists
    if "tree" in c:
        lists = [rng.choice([None, []]), rng.choice(lists)]
    names = {*c["names"], *(u or [])}
    for t in lists:
        t2 = [] if t is None else t
        try:
            got = sink_rows(c, t, rng.choice(["bytes", "path", "str"]), path)
            ok = True
        except Exception as ex:  # noqa: BLE001
            got, ok = [], False
        if ok and len(got) > 400:
            # too many rows for the specification's operators
            got = None
        if got is not None:
            ev.append({"op": "vis", "T": [esc(x) for x in t2], "written": c["written"], "ok": ok,
                       "exact": c["written"] or "tree" in c,
                       "rows": [{"lv": lv, "self": s, "safe": f, "disp": [esc(x) for x in displayed(v, names)],
                                 "node": (1 if j == 0 and nodes else uniq.get(k, 0))}
                                for j, (lv, s, f, k, v) in enumerate(got)]})
            if "tree" in c and ok:
                have = [x for x in zip([g[0] for g in got], [g[1] for g in got])]
                want = [(lv, s or f"vcan_a.D{j}" in t2) for j, (lv, s) in enumerate(zip(c["levels"], c["tree"]))]
                # (leaves have rows of their own only as far as their kind has children)
                ev.append({"op": "tree", "same": have == want})
        for show in (rng.sample(["all", "untrusted", "trusted"], 3 if c["written"] or THOROUGH else 1)):
            rich = rng.random() < (0.3 if "tree" in c else 0.5)
            colors = rich and rng.random() < 0.5
            tags = rng.choice([{}, {}, {"tag_unsafe": "<<BAD>>"}, {"tag_unsafe": "<<BAD>>", "tag_safe": "<<GOOD>>"}])
            tag = tags.get("tag_unsafe", "[UNSAFE]")
            pok = True
            try:
                rows = printed(c, t, show, rich, colors, tags, path)
            except Exception as ex:  # noqa: BLE001
                rows, pok = [], False
            if len(rows) > 400 or got is None:
                if pok or not c["written"]:
                    continue
            if any(k.endswith(tag) for _, _, _, k, _ in got or []) and False:
                continue
            ev.append({"op": "print", "T": [esc(x) for x in t2], "written": c["written"], "ok": pok, "show": show,
                       "colors": colors, "rich": rich,
                       "rows": [{"lv": lv, "tag": txt.endswith(tag), "safe": green,
                                 "disp": [esc(x) for x in displayed(txt.removesuffix(tag).strip().rpartition(": ")[2], names)]
                                 if "json-type(" not in txt and "b'" not in txt else []}
                                for lv, txt, green in rows],
                       "src": [{"lv": g[0], "self": g[1], "safe": g[2]} for g in got or []]})
    A.drop_canaries()
    return ev


def run_C13():
    ck = Check("C13", "model_checking",
               "archives with the shape of every tree of the specification, dumps of objects of every kind with "
               "adversarial keys and names, random and mutated archives; trusted lists; sinks with and without rich")
    rows = spec_run(ck)
    L.prepare()
    rng = random.Random(f"{SEED}/C13")
    if not THOROUGH and len(rows) > 1500:
        rows = rng.sample(rows, 1500)
    cases, written = cases_of(rows, rng)
    rc = L.random_cases(15000 if THOROUGH else 1800, "C13", evil=0.35, depth=4)
    sp = L.spec_cases(L.spec_run(ck), None if THOROUGH else 1200, "C13")
    cases = [dict(c) for c in cases + written * (4 if THOROUGH else 1) + rc + sp]
    for k, c in enumerate(cases):
        c["k"] = k
    ck.log(f"{len(cases)} archives, {len(written)} written by dump")
    ev = common.pmap(work, cases)
    for op in ("vis", "print"):
        xs = [e for x in ev for e in x if e["op"] == op]
        ck.cov[op] = len(xs)
        ck.cov[op + "_complete"] = sum(e["ok"] for e in xs)
    ck.log({k: v for k, v in ck.cov.items() if isinstance(v, int)})
    L.finish_traces(ck, cases, ev)
    ck.cov["samples"] = [json.dumps(ev[0][1])[:300]]
    ck.assumptions = ["rows are observed through a sink and by parsing the printed tree"]
    return ck.finish()
