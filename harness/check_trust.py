"""C11: what is trusted by default, against spec/SkopsLoad*.tla."""
from __future__ import annotations

import importlib
import json
import pkgutil
import random
import warnings

import archives as A
import check_load as L
import common
import numpy as np
from common import SEED, THOROUGH, Check, esc

import skops.io as sio
from skops.io._audit import NODE_TYPE_MAPPING, get_tree
from skops.io._protocol import PROTOCOL
from skops.io.exceptions import UntrustedTypesFoundException

STDLIB = """builtins os posix posixpath sys subprocess shutil importlib importlib.util importlib.machinery pickle _pickle
copyreg copy marshal ctypes ctypes.util socket ssl io _io pathlib tempfile operator _operator functools _functools
itertools types code codeop runpy inspect ast dis collections collections.abc abc weakref gc atexit signal threading
_thread multiprocessing multiprocessing.pool concurrent.futures asyncio asyncio.subprocess pty tty platform webbrowser
urllib.request http.client ftplib smtplib glob fnmatch fileinput linecache zipfile zipimport tarfile gzip bz2 lzma shelve
dbm sqlite3 csv json logging logging.config configparser string textwrap re random secrets hashlib hmac base64 time
datetime calendar decimal fractions numbers math cmath statistics contextlib dataclasses enum typing traceback warnings
unittest unittest.mock doctest pdb bdb cProfile profile timeit trace tracemalloc resource pwd grp fcntl select
selectors mmap array struct codecs locale gettext argparse getopt getpass cmd shlex sched queue heapq bisect graphlib
xml.etree.ElementTree html uuid ipaddress wsgiref.simple_server xmlrpc.client venv ensurepip pydoc site sysconfig
posixpath genericpath nt antigravity this""".split()
SKIP = {"nt", "antigravity", "this", "site"}


def modules():
    """names of modules whose members are tried"""
    res = [m for m in STDLIB if m not in SKIP]
    import joblib
    import scipy
    import scipy.special
    import sklearn

    import skops

    for pkg in (np, scipy, sklearn, joblib, skops):
        res.append(pkg.__name__)
        for x in pkgutil.walk_packages(pkg.__path__, pkg.__name__ + "."):
            if any(s in x.name for s in (".tests", "conftest", "__main__", ".setup", "f2py", "distutils", "_pyinstaller",
                                         "testing", "vendor", ".externals.loky", "array_api_compat")):
                continue
            res.append(x.name)
    return res


def names():
    """every member of these modules, without looking it up"""
    res = set()
    for m in modules():
        try:
            mod = importlib.import_module(m)
        except BaseException:  # noqa: BLE001
            continue
        for a in list(vars(mod)):
            res.add(f"{m}.{a}")
    return res


def default_lists():
    """the names that the nodes trust by default, as far as they can be seen"""
    res = set()
    for kind in sorted(A.SLOTS):
        for p in range(PROTOCOL + 1):
            s = A.make(kind, A.OWN[kind], proto=p)
            import io
            import zipfile

            from skops.io._utils import LoadContext

            with zipfile.ZipFile(io.BytesIO(A.archive(s, {}, p))) as z:
                try:
                    t = get_tree(s, LoadContext(src=z, protocol=p), trusted=None)
                    res |= {x for x in t.trusted if isinstance(x, str)}
                except Exception:  # noqa: BLE001
                    pass
    for m in ("_trusted_types",):
        mod = importlib.import_module("skops.io." + m)
        for v in vars(mod).values():
            if isinstance(v, (list, tuple, set, frozenset)):
                res |= {x for x in v if isinstance(x, str)}
    return res


def variants(rng, defaults, n):
    """names that are close to trusted ones"""
    res = set()
    for x in rng.sample(sorted(defaults), min(n, len(defaults))):
        m, c = A.split(x)
        res |= {x + "x", x[:-1], x.upper(), x + " ", "x" + x, f"{m}.{c}.__init__", f"{m}.{c}.__class__", f"{c}.{m}",
                f"os.{c}", f"builtins.{c}", f"{m}.", f"vcan_a.{c}", f"{m}_.{c}", f"{m}.tests.{c}", f"{m}.{c}\u0000",
                f"numpy.{c}", f"sklearn.{c}", f"{m}.eval", f"{m}.system", f"{m}.open"}
    return res


def kinds():
    extra = sorted({k for k, _ in NODE_TYPE_MAPPING} - set(A.SLOTS))
    return [(k, p) for k in sorted(A.SLOTS) + extra for p in range(PROTOCOL + 1)]


def state_of(kind, name, p):
    if kind in A.SLOTS:
        return A.make(kind, name, proto=p)
    m, c = A.split(name)
    return {"__class__": c, "__module__": m, "__loader__": kind, "content": A.DICT(),
            "__reduce__": {"args": A.TUPLE()}, "__id__": 0}


def light(kind, name, p):
    """the smallest state of a kind (the bulk archives hold tens of thousands of them)"""
    s = state_of(kind, name, p)
    e = A.st("ListNode", "builtins.list", content=[])
    if kind == "DictNode":
        s["key_types"], s["content"] = e, {}
    elif kind in ("ListNode", "SetNode", "TupleNode"):
        s["content"] = []
    elif kind in ("ObjectNode", "ConstructorFromReduceNode", "DTypeNode", "RandomStateNode"):
        s["content"] = e
    elif kind == "DefaultDictNode":
        s["content"] = {"main": e, "default_factory": e}
    elif kind == "PartialNode":
        s["content"] = {"func": e, "args": e, "kwds": e, "namespace": e}
    elif kind == "MethodNode":
        # a method is named after the module of its object
        s["content"]["obj"] = A.st("TypeNode", "builtins.int")
    return s


def reported(schema, p):
    return set(sio.get_untrusted_types(data=A.archive(schema, {}, p)))


def work_bulk(job):
    """all names as the header of a kind, in one archive"""
    warnings.simplefilter("ignore")
    kind, p, ns = job
    acc = []
    try:
        u = reported(A.LIST(*[light(kind, n, p) for n in ns]), p)
        unread = 0
    except Exception:  # noqa: BLE001
        u, unread = None, 0
    if u is None:
        # the kind cannot be inspected like that: one at a time (some)
        u, tried = set(), []
        for n in ns[:: max(1, len(ns) // 300)]:
            try:
                u |= reported(light(kind, n, p), p)
                tried.append(n)
            except Exception:  # noqa: BLE001  (refused, not accepted)
                unread += 1
        ns = tried
    for n in ns:
        if n not in u:
            acc.append({"name": esc(n), "fam": A.family(n)})
    return [{"op": "accept", "kind": kind, "proto": p, "n": len(ns), "unread": unread, "accepted": acc}]


def work_slot(job):
    """undocumented names below every slot of a kind"""
    warnings.simplefilter("ignore")
    kind, slot, ns, p = job
    ev = []
    for wrap in ("list", "dict", "object"):
        kids = [A.make(k, n, proto=p) for k in ("TypeNode", "ObjectNode", "FunctionNode") for n in ns]
        child = (A.LIST(*kids) if wrap == "list" else A.DICT(**{f"k{j}": x for j, x in enumerate(kids)})
                 if wrap == "dict" else kids[0])
        used = ns if wrap != "object" else ns[:1]
        s = A.make(kind, A.OWN[kind], child, slot, p)
        for where in (s, A.LIST(s), A.DICT(a=A.TUPLE(s))):
            try:
                u = reported(where, p)
            except Exception:  # noqa: BLE001
                continue  # not accepted
            try:
                sio.loads(A.archive(where, {}, p))
                refused = False
            except Exception:  # noqa: BLE001
                refused = True
            for n in used:
                ev.append({"op": "name", "kind": kind, "proto": p, "slot": slot, "name": esc(n), "fam": A.family(n),
                           "reported": n in u, "refused": refused})
    return ev


def work_one(job):
    """one name at a time, reported and refused"""
    warnings.simplefilter("ignore")
    kind, p, ns = job
    ev = []
    for n in ns:
        for schema in (state_of(kind, n, p), A.LIST(A.J(1), state_of(kind, n, p))):
            data = A.archive(schema, {}, p)
            try:
                u = sio.get_untrusted_types(data=data)
            except Exception:  # noqa: BLE001
                u = None
            for t in (None, [], ()):
                try:
                    sio.loads(data, trusted=t)
                    out = "ok"
                except UntrustedTypesFoundException as e:
                    out = "untrusted"
                except Exception as e:  # noqa: BLE001
                    out = "raise"
                # an archive that cannot even be inspected is not accepted either
                ev.append({"op": "name", "kind": kind, "proto": p, "slot": "root", "name": esc(n), "fam": A.family(n),
                           "reported": u is None or n in u, "refused": out == "untrusted" or (u is None and out == "raise")})
    return ev


def inner_events():
    """names that are values of strings: bit generators, operators, methods, json"""
    ev = []

    def add(what, n, fam, schema, p=2):
        try:
            r = sio.loads(A.archive(schema, {}, p))
            out = "ok"
        except Exception:  # noqa: BLE001
            out = "raise"
        ev.append({"op": "inner", "kind": what, "name": esc(n), "fam": fam, "out": out})

    import operator

    for n in sorted(set(dir(np.random)) | set(dir(np.random.mtrand)) | {"os", "eval", "", "PCG64 ", "numpy", "__builtins__"}):
        o = getattr(np.random, n, None)
        fam = "numpy-internal" if isinstance(o, type) and issubclass(o, np.random.BitGenerator) else "none"
        if n in ("RandomState", "Generator"):
            fam = "none"
        st = A.PCG_STATE()
        st["content"]["bit_generator"] = A.J(n)
        g = {"bit_generator": st, "seed_seq": A.DICT(entropy=A.J(3))}
        add("bit generator", n, fam, A.st("RandomGeneratorNode", A.OWN["RandomGeneratorNode"], content=g))
        add("bit generator v1", n, fam, A.st("RandomGeneratorNode", A.OWN["RandomGeneratorNode"],
                                             content={"bit_generator": st}), 1)
        add("bit generator v0", n, fam, A.st("RandomGeneratorNode", A.OWN["RandomGeneratorNode"],
                                             content={"bit_generator": {"bit_generator": n, "state": {}}}), 0)
        rs = A.RS_STATE()
        rs["content"]["bit_generator"] = A.J(n)
        add("random state", n, fam, A.st("RandomStateNode", A.OWN["RandomStateNode"], content=rs))
    for n in dir(operator):
        for m in ("operator", "_operator", "builtins"):
            add("operator", n, "none", A.st("OperatorFuncNode", f"{m}.{n}", attrs=A.TUPLE(A.J("a"))))
    lr = A.st("ObjectNode", "sklearn.linear_model._logistic.LogisticRegression", content=A.DICT(a=A.J(1)))
    for n in ("fit", "predict", "__class__", "__reduce__", "__init__", "__setstate__", "get_params", "__dict__",
              "__getattribute__", "_repr_html_", "__module__"):
        for nm in ("sklearn.linear_model._logistic.method", "sklearn.linear_model._logistic.LogisticRegression",
                   "builtins.method", "types.MethodType"):
            add("method", n, "none", A.st("MethodNode", nm, content={"func": n, "obj": lr}))
    for n in ("sin", "where", "system", "eval"):
        for kind in ("TypeNode", "FunctionNode"):
            # the parts of the name are distributed differently
            add("split", n, "none", {"__class__": n, "__module__": "", "__loader__": kind})
            add("split", n, "none", {"__class__": "", "__module__": f"os.{n}", "__loader__": kind})
            add("split", n, "none", {"__class__": f"system.{n}", "__module__": "os", "__loader__": kind})
    return ev


def run_C11():
    ck = Check("C11", "model_checking",
               "the header of every kind under every protocol with every member of the standard library's, numpy's, "
               "scipy's, scikit-learn's, joblib's and skops' modules; undocumented names below every slot; random archives")
    warnings.simplefilter("ignore")
    L.spec_run(ck)
    rng = random.Random(f"{SEED}/C11")
    defaults = default_lists()
    allnames = sorted(names() | defaults | variants(rng, defaults, 400 if THOROUGH else 120) | set(L.DANGEROUS)
                      | set(L.WEIRD))
    ck.cov["names"] = len(allnames)
    fams = {}
    for n in allnames:
        fams.setdefault(A.family(n), []).append(n)
    none = fams["none"]
    ck.log(f"{len(allnames)} names, {len(none)} outside of the documented families, {len(defaults)} in default lists")
    L.prepare()
    cases, evs = [], []

    def go(what, work, jobs):
        e = common.pmap(work, jobs)
        for j, x in zip(jobs, e):
            cases.append({"origin": f"{what} {j[:2]!r}", "proto": 0, "schema": None, "case": None})
            evs.append(x)
        ck.log(f"{what}: {len(jobs)} jobs, {sum(map(len, e))} events")
        return e

    ks = kinds()
    bulk = [(k, p, allnames if (p == PROTOCOL or k in ("FunctionNode", "RandomGeneratorNode") or THOROUGH)
             else allnames[p::7]) for k, p in ks]
    b = go("bulk", work_bulk, bulk)
    ck.cov["headers"] = sum(e["n"] for x in b for e in x)
    ck.cov["accepted"] = sum(len(e["accepted"]) for x in b for e in x)
    ck.cov["unreadable"] = sum(e["unread"] for x in b for e in x)
    pick = sorted(set(L.DANGEROUS) & set(none)) + rng.sample(none, 400 if THOROUGH else 40)
    go("slot", work_slot, [(k, s, rng.sample(pick, 6), p) for k in sorted(A.SLOTS)
                           for s in A.SLOTS[k] + (["keys"] if k == "DictNode" else []) for p in range(PROTOCOL + 1)
                           # (what a protocol does not read is not accepted either)
                           if not (k == "RandomGeneratorNode" and p < (1 if s == "bit_generator" else 2))])
    docs = [n for f, x in sorted(fams.items()) if f != "none" for n in rng.sample(x, min(4, len(x)))]
    go("one", work_one, [(k, p, rng.sample(pick, 60 if THOROUGH else 14) + docs[::5]) for k, p in ks])
    cases.append({"origin": "inner", "proto": 0, "schema": None})
    evs.append(inner_events())
    # random archives: every undocumented name in a node that is built is reported
    rc = L.random_cases(20000 if THOROUGH else 4000, "C11", evil=0.4)

    def must(c):
        u, e = L.report(c)
        return [e, {"op": "must"}] if u is not None else []

    e = common.pmap(must, rc)
    # (under protocol 0 and for broken schemas the description may not be exact)
    keep = [(c, x) for c, x in zip(rc, e) if x and c["nodes"] is not None and c["exact"]]
    ck.cov["random_archives"] = len(keep)
    L.finish_traces(ck, cases + [c for c, _ in keep], evs + [x for _, x in keep], "traces")
    ck.cov["samples"] = [cases[0]["origin"], json.dumps(evs[0][0])[:300]]
    ck.assumptions = ["families are decided by the objects that names lead to, with scikit-learn's, numpy's and "
                      "scipy's own registries; names of modules that are not imported are outside of all families"]
    return ck.finish()
