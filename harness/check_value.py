"""C04 C05: round trips of values, against spec/SkopsValue*.tla."""
from __future__ import annotations

import hashlib
import json
import random
import warnings

import common
import numpy as np
import samples
import valpool as V
from common import SEED, THOROUGH, Check, esc, tlc, validate
from project import diff, term

import skops.io as sio

INVARIANTS = "Faithful Stable NotRefused Emit".split()


def spec_run(ck):
    rows = []
    for level, width in [(1, 2), (2, 2)] + ([(2, 3), (3, 2)] if THOROUGH else []):
        r = tlc("SkopsValueMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
                f"CONSTANT Level = {level}\nCONSTANT Width = {width}\n" + "".join(f"INVARIANT {x}\n" for x in INVARIANTS))
        ck.add("states", r.distinct)
        ck.add("transitions", r.states)
        ck.log(f"SkopsValueMC level {level}: {r.distinct} states, {len(r.rows)} values, {r.wall:.1f}s")
        rows.append(r.rows)
    return rows


def small(t):
    """terms that are too big for the specification's comparison are replaced by their digest"""
    s = json.dumps(t)
    if len(s) > 6000:
        return {"k": "digest", "v": hashlib.sha256(s.encode()).hexdigest(), "c": []}
    return safe(t)


def safe(t):
    return {"k": esc(t["k"]), "v": esc(t["v"]), "c": [safe(x) for x in t["c"]]}


NONE = {"k": "none", "v": "", "c": []}


def roundtrip(o):
    try:
        d = sio.dumps(o)
        return "ok", sio.loads(d, trusted=sio.get_untrusted_types(data=d))
    except Exception as e:  # noqa: BLE001
        return type(e).__name__, None


def events(o, desc, draws=True, again=True):
    """the round trips of a value; (events, note)"""
    warnings.simplefilter("ignore")
    t0 = term(o, draws=draws)
    ev = [{"op": "value", "desc": desc}]
    note = ""
    try:
        d = sio.dumps(o)
        out = "ok"
    except Exception as e:  # noqa: BLE001
        d, out = None, type(e).__name__
        note = f"dump: {e!r:.150}"
    t1 = term(o, draws=draws)
    if t1 != t0:
        note = "dump modified: " + diff(t0, t1)
    ev.append({"op": "dump", "out": out, "before": small(t0), "after": small(t1)})
    if d is None:
        return ev, note
    try:
        got = sio.loads(d, trusted=sio.get_untrusted_types(data=d))
        t2 = term(got, draws=draws)
        out = "ok"
        if t2 != t0:
            note = diff(t0, t2)
    except Exception as e:  # noqa: BLE001
        got, t2, out = None, NONE, type(e).__name__
        note = f"load: {e!r:.150}"
    ev.append({"op": "load", "out": out, "got": small(t2)})
    if out == "ok" and again:
        out, g2 = roundtrip(got)
        t3 = term(g2, draws=draws) if out == "ok" else NONE
        if out != "ok" or t3 != t0:
            note = note or "again: " + (out if out != "ok" else diff(t0, t3))
        ev.append({"op": "again", "out": out, "got": small(t3)})
    return ev, note


def work_spec(job):
    row, seed, n = job
    r = random.Random(seed)
    res = []
    for _ in range(n):
        try:
            o = V.concrete(row["val"], r)
        except TypeError:  # an unhashable element
            continue
        res.append((f"spec {short(row['val'])}", *events(o, row["val"])))
    return res


def short(d):
    return d["k"] + (f":{d['v']}" if d["v"] else "") + ("(" + ",".join(short(x) for x in d["c"]) + ")" if d["c"] else "")


def work_supported(job):
    kind, seed, n = job
    r = random.Random(seed)
    res = []
    for _ in range(n):
        if kind == "any":
            o, d = V.supported(r, r.choice([1, 2, 2, 3, 4]))
        elif kind == "oarray":
            o, d = V.oarray(r)
        else:
            o, d = V.ATOMS[kind](r), V.D(kind)
        res.append((f"supported {short(d):.200}", *events(o, d)))
    return res


def systematic():
    """every dtype, shape and layout; every scalar type; every ufunc; key types"""
    r = random.Random(f"{SEED}/sys")
    out = []
    for dt in V.DTYPES:
        for sh in V.SHAPES:
            for lay in ("C", "F", "strided", "T"):
                out.append((V.array(r, dt, sh, lay), V.D("array"), f"array {dt.str} {sh} {lay}"))
    for n in V.UFUNCS:
        out.append((getattr(np, n), V.D("ufunc"), f"np.{n}"))
    for n in V.SUFUNCS:
        out.append((getattr(V.scipy.special, n), V.D("ufunc"), f"special.{n}"))
    for k in ("npint", "npfloat"):
        for _ in range(40):
            key = V.ATOMS[k](r)
            out.append(({key: 1}, V.D("dict", [V.D("item", [V.D(k), V.D("int")])]), f"key {key!r}"))
    for x in V.INTS:
        out.append(({x: 1}, V.D("dict", [V.D("item", [V.D("int"), V.D("int")])]), f"key {x!r}"))
    for x in V.FLOATS:
        out.append(({x: [x]}, V.D("dict", [V.D("item", [V.D("float"), V.D("list", [V.D("float")])])]), f"key {x!r}"))
    for x in V.STRS:
        out.append(({x: x}, V.D("dict", [V.D("item", [V.D("str"), V.D("str")])]), f"key {x!r}"))
    for t in V.TYPES:
        out.append((t, V.D("type"), f"type {t}"))
    return out


def work_sys(job):
    o, d, what = job
    return [(what, *events(o, d))]


_WILD = {}


def wild_pool():
    if not _WILD:
        _WILD.update(V.wild())
        _WILD.update(samples.samples())
    return _WILD


def work_wild(job):
    name, seed = job
    pool = wild_pool()
    r = random.Random(seed)
    if name is not None:
        o, what = pool[name], f"wild {name}"
    else:
        ks = sorted(set(pool) - {"cycle", "cycled", "cyclep", "cyclea", "gen", "deep"} - set(BIG))
        pick = [pool[k] for k in r.sample(ks, 4)]
        o, what = V.nest(r, pick, r.choice([1, 2, 3])), f"nested {seed}"
    try:
        term(o)
    except RecursionError:
        return []
    # generators of random numbers do not draw here: some of these values cannot be copied
    return [(what, *events(o, V.D("other"), draws=False, again=False))]


BIG = "lr tree sgd hgb gb knn pipe union ct search df series cat".split()


def work_est(job):
    name, o = job
    return [(f"estimator {name}", *events(o, V.D("other"), again=False))]


def validate_all(ck, res, clauses):
    flat = [x for y in res for x in y]
    traces = [ev for _, ev, _ in flat]
    bad, n, states = validate("SkopsValueTrace", traces)
    ck.add("states", states)
    ck.add("values", len(traces))
    ck.add("traces_validated_against_impl", len(traces))
    ck.add("events", n)
    outs = [e["out"] for ev in traces for e in ev if e["op"] == "dump"]
    ck.add("dumped", outs.count("ok"))
    ck.add("refused", len(outs) - outs.count("ok"))
    for row in bad:
        what, ev, note = flat[row["t"]]
        for cl in row["bad"]:
            if cl in clauses:
                ck.violation(cl, {"what": what, "event": ev[row["i"]], "desc": ev[0]["desc"]}, f"{what[:300]} | {note[:400]}")


def run_C05():
    ck = Check("C05", "model_checking",
               "values of the bounded instance of the specification, every dtype x shape x layout, every ufunc, key type "
               "and text, random nested values of the supported families; dumped and loaded twice")
    rows = spec_run(ck)
    r = random.Random(f"{SEED}/C05")
    jobs = []
    for lvl in rows:
        sup = [x for x in lvl if x["sup"]]
        if not THOROUGH and len(sup) > 3500:
            sup = r.sample(sup, 3500)
        jobs += [(x, f"{SEED}/{j}", 1) for j, x in enumerate(sup)]
    res = common.pmap(work_spec, jobs)
    ck.log(f"{len(jobs)} values of the specification")
    res += common.pmap(work_sys, systematic())
    ck.log("systematic values")
    n = 40 if THOROUGH else 1
    kinds = [k for k in V.ATOMS if k not in ("function", "nplong")] + ["oarray"]
    res += common.pmap(work_supported, [("any", f"{SEED}/any/{j}", 40) for j in range(100 * n)]
                       + [(k, f"{SEED}/{k}/{j}", 25) for k in kinds for j in range(4 * n)])
    ck.log("random values")
    validate_all(ck, res, {"supported-dumps", "supported-loads", "supported-same", "supported-loads-again",
                           "supported-same-again"})
    ck.cov["samples"] = [res[0][0][0], res[-1][0][0]]
    ck.assumptions = ["values are equal when their projections are: types, dtypes, shapes, layouts, key types, order, "
                      "contents bit by bit, and the next draws of random generators"]
    return ck.finish()


def run_C04():
    ck = Check("C04", "model_checking",
               "values of the bounded instance of the specification, a pool of values of every kind alone and nested at "
               "random, fitted estimators, random supported values; compared before and after dumping and after loading")
    rows = spec_run(ck)
    r = random.Random(f"{SEED}/C04")
    jobs = []
    for lvl in rows:
        k = len(lvl) if THOROUGH else 4000
        jobs += [(x, f"{SEED}/4/{j}", 1) for j, x in enumerate(r.sample(lvl, min(k, len(lvl))))]
    res = common.pmap(work_spec, jobs)
    ck.log(f"{len(jobs)} values of the specification")
    pool = wild_pool()
    res += common.pmap(work_wild, [(k, k) for k in sorted(pool)])
    res += common.pmap(work_wild, [(None, f"{SEED}/w/{j}") for j in range(60000 if THOROUGH else 4000)])
    ck.log(f"{len(pool)} values of the pool, nested")
    res += common.pmap(work_supported, [("any", f"{SEED}/any4/{j}", 25) for j in range(1000 if THOROUGH else 60)])
    es = samples.estimators()
    res += common.pmap(work_est, sorted(es.items()) if THOROUGH else r.sample(sorted(es.items()), 40))
    validate_all(ck, res, {"quietly-different", "dump-modifies"})
    ck.cov["samples"] = [res[0][0][0], res[-1][0][0]]
    ck.assumptions = ["values are equal when their projections are; instances whose own state protocol is not faithful "
                      "to their attributes are outside of the pool"]
    return ck.finish()
