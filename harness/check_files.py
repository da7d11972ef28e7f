"""C16 (skops update), C17 (skops convert), C18 (failed dump) against spec/SkopsFiles*.tla."""
from __future__ import annotations

import collections
import functools
import io
import itertools
import json
import logging
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import zipfile
from pathlib import Path

import numpy as np
import scipy.sparse as sp
import vtypes
from common import REPO, SEED, THOROUGH, Check, MachineryError, cps, esc, scratch, tlc, validate
from project import digest, term
from sklearn.cluster import Birch
from sklearn.linear_model import LogisticRegression
from sklearn.pipeline import make_pipeline
from sklearn.preprocessing import FunctionTransformer, StandardScaler
from sklearn.tree import DecisionTreeClassifier

import skops.io as sio
from skops.cli.entrypoint import main_cli
from skops.io._protocol import PROTOCOL


# ------------------------------------------------------------------ specification runs
def spec_run(ck, cmds):
    r = tlc(
        "SkopsFilesMC",
        "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\n"
        + "".join(f"INVARIANT {x}\n" for x in
                  ("InvInput", "InvDest", "InvOut", "InvResidue", "InvAtomic", "InvDump"))
        + f"CONSTANT Cmds = {{{','.join(chr(34) + c + chr(34) for c in cmds)}}}\n",
    )
    ck.add("states", r.distinct)
    ck.add("transitions", r.states)
    rows = {json.dumps(x, sort_keys=True): x for x in r.rows}
    ck.log(f"SkopsFilesMC {cmds}: {r.distinct} states, {len(rows)} configurations, {r.wall:.1f}s")
    return [x for _, x in sorted(rows.items())]


# ------------------------------------------------------------------ one real run in a child
class Result:
    pass


def in_child(fn, cwd, tmpdir, crash_at=None, fsize=None, soft=None, watch=()):
    """fn() in a forked child; returns (how it ended, what it reported).

    crash_at: die (os._exit) before the crash_at-th file operation below `watch`
    fsize:    file size limit; the kernel kills the process when a write exceeds it
    soft:     the same, but the write fails with EFBIG instead
    with crash_at and a limit, the limit only starts at the crash_at-th file operation"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            os.chdir(cwd)
            os.environ["TMPDIR"] = str(tmpdir)
            tempfile.tempdir = None
            devnull = os.open(os.devnull, os.O_RDWR)
            for k in (0, 1, 2):
                os.dup2(devnull, k)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            count = [0]
            paths = tuple(str(p) for p in watch)

            def hook(event, args):
                if event != "open" and not event.startswith(("os.", "shutil.", "tempfile.")):
                    return
                if event in ("os.listdir", "os.scandir", "os.walk", "os.getxattr", "os.fork",
                             "os.putenv", "os.unsetenv", "os.chdir", "os.fwalk"):
                    return
                text = " ".join(os.path.abspath(str(a)) for a in args
                                if isinstance(a, (str, os.PathLike)))
                if not any(p in text for p in paths):
                    return
                count[0] += 1
                if crash_at is not None and count[0] == crash_at:
                    if fsize is None and soft is None:
                        os._exit(137)
                    limit()

            n = fsize if fsize is not None else soft

            def limit():
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if fsize is not None else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))

            if paths:
                sys.addaudithook(hook)
            if n is not None and crash_at is None:
                limit()
            rep = {}
            try:
                rep["value"] = fn()
                rep["out"] = "ok"
            except SystemExit as e:
                rep["out"] = "ok" if not e.code else "raised"
                rep["exc"] = "SystemExit"
            except BaseException as e:  # noqa: BLE001
                rep["out"] = "raised"
                rep["exc"] = type(e).__name__ + ": " + str(e)[:200]
            rep["ops"] = count[0]
            os.write(w, json.dumps(rep).encode()[:60000])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    rc = os.waitstatus_to_exitcode(st)
    if rc == 3:
        raise MachineryError("child failed outside the command")
    return rc, json.loads(data) if data else {"out": "killed", "ops": 0}


class Logs(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.recs = []

    def emit(self, rec):
        try:
            self.recs.append((rec.levelno, rec.pathname, rec.getMessage()))
        except Exception:  # noqa: BLE001
            self.recs.append((rec.levelno, rec.pathname, str(rec.msg)))


def cli(args, capture=False):
    def run():
        root = logging.getLogger()
        h = Logs()
        for x in list(root.handlers):
            root.removeHandler(x)
        if capture:
            root.addHandler(h)
        main_cli(args)
        return [r for r in h.recs if str(REPO) in os.path.abspath(r[1])]

    return run


def listing(*roots):
    out = set()
    for r in roots:
        for d, ds, fs in os.walk(r):
            out.update(os.path.join(d, x) for x in ds + fs)
    return out


def read(p):
    try:
        return Path(p).read_bytes()
    except (FileNotFoundError, NotADirectoryError):
        return None


LOADED: dict = {}


def is_archive_of(data, dig, protocol=PROTOCOL):
    """the complete new archive"""
    k = (data, dig)
    if k not in LOADED:
        try:
            with zipfile.ZipFile(io.BytesIO(data)) as z:
                if z.testzip() is not None:
                    raise ValueError("bad member")
                proto = json.loads(z.read("schema.json"))["protocol"]
            obj = sio.loads(data, trusted=sio.get_untrusted_types(data=data))
            LOADED[k] = proto == protocol and digest(obj) == dig
        except Exception:  # noqa: BLE001
            LOADED[k] = False
        if len(LOADED) > 3000:
            LOADED.clear()
            return is_archive_of(data, dig, protocol)
    return LOADED[k]


def kind(path, before, dig):
    now = read(path)
    if now == before:
        return "prev" if now is not None else "absent"
    if now is None:
        return "absent"
    return "new" if is_archive_of(now, dig) else "other"


def with_protocol(data, n):
    src = zipfile.ZipFile(io.BytesIO(data))
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w") as z:
        for i in src.infolist():
            b = src.read(i)
            if i.filename == "schema.json":
                s = json.loads(b)
                s["protocol"] = n
                s["_skops_version"] = "0.1"
                b = json.dumps(s, indent=2).encode()
            z.writestr(i.filename, b)
    return buf.getvalue()


# ------------------------------------------------------------------ C16
def objects(rng):
    X = np.random.RandomState(SEED).rand(20, 3)
    y = (X[:, 0] > 0.5).astype(int)
    shared = [1, 2]
    return {
        "estimator": make_pipeline(StandardScaler(), LogisticRegression()).fit(X, y),
        "tree": DecisionTreeClassifier(max_depth=2).fit(X, y),
        "untrusted": {"p": vtypes.Plain(a=1, b=[1, 2.5, None]), "s": shared, "t": shared},
        "arrays": {"a": np.arange(3000.0), "b": [np.eye(3, dtype="f4"), "x", (1, True)],
                   "c": sp.csr_matrix(np.eye(4))},
    }


# name -> (command line argument for the output, how the file is reached from the parent)
def outputs(box, kind_):
    """spellings of the output path for one abstract destination"""
    c = box / "cwd"
    if kind_ == "file":
        return {
            "rel": "out.skops", "dot": "./out.skops", "sub": "sub/out.skops",
            "up": "../other/out.skops", "abs": str(box / "other" / "abs.skops"),
            "space": "my out é.skops", "noext": "out", "hidden": ".out.skops",
            "abssub": str(c / "sub" / "deep.tar.skops"),
            "dash": "sub/../o-1.skops", "intmp": str(box / "tmp" / "o.skops"),
            "link": "link.skops",
        }
    if kind_ == "same":
        return {
            "plain": "in.skops", "dot": "./in.skops", "abs": str(c / "in.skops"),
            "via": "sub/../in.skops", "symlink": "alias.skops", "hardlink": "hard.skops",
        }
    if kind_ == "nodir":
        return {"rel": "missing/out.skops", "abs": str(box / "nope" / "x" / "o.skops")}
    return {"none": None}


PREV = b"previous content \x00\xff of the destination " * 7


def prepare(box, tmpfs, data, spelling, arg, dest0, inspell):
    for d in ("cwd/sub", "other", "tmp"):
        (box / d).mkdir(parents=True)
    c = box / "cwd"
    inp = c / "in.skops"
    inp.write_bytes(data)
    inarg = "in.skops"
    if inspell == "abs":
        inarg = str(inp)
    elif inspell == "dot":
        inarg = "./sub/../in.skops"
    elif inspell == "symlink":
        inarg = "inlink.skops"
        (c / inarg).symlink_to("in.skops")
    if spelling == "symlink":
        (c / "alias.skops").symlink_to("in.skops")
    if spelling == "hardlink":
        os.link(inp, c / "hard.skops")
    target = None
    if arg is not None:
        target = Path(os.path.normpath(c / arg))
        if spelling == "link":
            (box / "other" / "real.skops").write_bytes(PREV)
            target.symlink_to(box / "other" / "real.skops")
        elif dest0 == "prev" and spelling not in ("symlink", "hardlink"):
            target.write_bytes(PREV)
    return inarg, target


def update_run(shm, data, dig, cfg, spelling, arg, inspell="rel", tmp_on_other=False,
               dump_fails=False, **fault):
    """Run the real command once; returns the event."""
    base = scratch("upd-")
    try:
        box = base / "box"
        dest0 = cfg["dest0"] if spelling != "link" else "prev"
        args_out = arg.replace("@BOX@", str(box)) if arg else arg
        inarg, target = prepare(box, shm, data, spelling, args_out, dest0, inspell)
        tmp = box / "tmp"
        if tmp_on_other:
            tmp = Path(tempfile.mkdtemp(dir=shm))
        args = ["update", inarg]
        if args_out is not None:
            args += ["-o", args_out]
        if cfg["inplace"]:
            args += ["--inplace"]
        before_files = listing(box, tmp)
        # through a name of the input, what is at stake is the input itself
        isother = target is not None and cfg["out"] in ("file", "nodir")
        before = read(target) if isother else None
        fn = cli(args)
        if dump_fails:
            inner = fn

            def fn():
                vtypes.Refuses.armed = True
                return inner()

        rc, rep = in_child(fn, box / "cwd", tmp, watch=(box, tmp), **fault)
        ops = rep["ops"]
        out = rep["out"] if rc == 0 else "killed"
        after = listing(box, tmp)
        new = {p for p in after - before_files if not (isother and p == str(target))}
        gone = before_files - after
        inp = kind(box / "cwd" / inarg, data, dig)
        dest = kind(target, before, dig) if isother else "absent"
        real = box / "other" / "real.skops"
        if spelling == "link" and read(real) != PREV and not is_archive_of(read(real) or b"", dig):
            dest = "other"
        flt = "no" if not fault else "io" if "soft" in fault else "kill"
        if rc == 0 and flt == "kill":
            flt = "no"
        e = {"op": "run", "cfg": {**cfg, "dest0": dest0 if isother else "absent", "fault": flt},
             "out": out, "inp": inp, "dest": dest, "residue": bool(new or gone)}
        case = {"args": args, "fault": fault, "tmp_on_other_fs": tmp_on_other, "event": e,
                "exc": rep.get("exc"), "new files": sorted(new), "gone": sorted(gone)}
        if tmp_on_other:
            shutil.rmtree(tmp, ignore_errors=True)
        return e, case, ops
    finally:
        shutil.rmtree(base, ignore_errors=True)


def other_fs():
    """a directory on another file system than the scratch space, if there is one"""
    here = scratch("fs-")
    for d in ("/dev/shm", "/run", "/var/tmp"):
        try:
            if os.stat(d).st_dev != os.stat(here).st_dev:
                p = Path(tempfile.mkdtemp(dir=d, prefix="verif-"))
                import common

                common._SCRATCH.append(p)
                return p
        except OSError:
            pass
    return None


def report(ck, traces, cases):
    bad, n, states = validate("SkopsFilesTrace", traces)
    ck.add("traces_validated_against_impl", n)
    ck.add("states", states)
    for b in bad:
        c = cases[b["t"]]
        for cl in b["bad"]:
            ck.violation(cl, c, json.dumps({k: v for k, v in c.items() if k != "event"},
                                           default=repr)[:500], key=c.get("key"))


def run_C16():
    ck = Check("C16", "model_checking",
               "every configuration of the specification on the real CLI, with the process killed "
               "before every file operation and in the middle of writes, and with failing writes")
    rng = random.Random(SEED)
    shm = other_fs()
    rows = spec_run(ck, ["update"])
    objs = objects(rng)
    vtypes.Refuses.armed = False
    objs["refuses"] = {"r": vtypes.Refuses(), "a": np.arange(50)}
    base, digs = {}, {}
    for k, o in objs.items():
        base[k] = sio.dumps(o)
        digs[k] = digest(sio.loads(base[k], trusted=sio.get_untrusted_types(data=base[k])))
    protos = {"old": [p for p in range(PROTOCOL)], "cur": [PROTOCOL],
              "newer": [PROTOCOL + 1, PROTOCOL + 40]}
    traces, cases = [], []

    def go(cfg, obj, proto, spelling, arg, **kw):
        data = with_protocol(base[obj], proto)
        e, case, ops = update_run(shm, data, digs[obj], cfg, spelling, arg, **kw)
        traces.append([e])
        cases.append({"object": obj, "protocol": proto, **case})
        return ops, case

    box = Path("@BOX@")
    good = [k for k in objs if k != "refuses"]
    n = 0
    # 1. every configuration x every spelling of the output
    for row in rows:
        cfg = {**row["cfg"], "fault": "no"}
        for spelling, arg in outputs(box, cfg["out"]).items():
            if spelling == "link" and cfg["dest0"] == "absent":
                continue
            for proto in protos[cfg["proto"]] if THOROUGH else [rng.choice(protos[cfg["proto"]])]:
                obj = good[n % len(good)] if cfg["persist"] else "refuses"
                n += 1
                go(cfg, obj, proto, spelling, arg,
                   inspell=["rel", "abs", "dot", "symlink"][n % 4] if cfg["out"] != "same" else "rel",
                   tmp_on_other=bool(shm) and n % 3 == 0, dump_fails=not cfg["persist"])
    ck.log(f"{len(traces)} runs without faults")
    ck.add("configurations", len(rows))
    # 2. faults
    targets = [
        ({"out": "file", "inplace": False, "dest0": "prev"}, ("rel", "out.skops")),
        ({"out": "file", "inplace": False, "dest0": "absent"}, ("sub", "sub/out.skops")),
        ({"out": "file", "inplace": False, "dest0": "prev"}, ("abs", "@BOX@/other/abs.skops")),
        ({"out": "none", "inplace": True, "dest0": "absent"}, ("none", None)),
    ]
    for tgt, (spelling, arg) in targets:
        for oname in (good if THOROUGH else ["arrays", "untrusted"]):
            cfg = {"cmd": "update", "proto": "old", "persist": True, "fault": "no", **tgt}
            for tmpo in ([False, True] if shm else [False]):
                if not THOROUGH and oname == "untrusted" and tmpo:
                    continue
                ops, _ = go(cfg, oname, 0, spelling, arg, tmp_on_other=tmpo)
                for k in range(1, ops + 1):
                    go(cfg, oname, 1, spelling, arg, tmp_on_other=tmpo, crash_at=k)
                    ck.add("crash_points", 1)
                size = len(base[oname])
                step = max(1, size // (40 if THOROUGH else 6))
                for b in sorted({0, 1, 22, size // 2, size - 1, size - 22,
                                 *range(0, size, step)}):
                    go(cfg, oname, 1, spelling, arg, tmp_on_other=tmpo, fsize=b)
                    ck.add("crash_points", 1)
                for k in range(1, ops + 1):
                    for b in (0, size // 2, *((1, 30, size - 1) if THOROUGH else ())):
                        go(cfg, oname, 1, spelling, arg, tmp_on_other=tmpo, crash_at=k, fsize=b)
                        ck.add("crash_points", 1)
                    go(cfg, oname, 1, spelling, arg, tmp_on_other=tmpo, crash_at=k, soft=size // 3)
                    ck.add("io_errors", 1)
                for b in {0, 30, size // 2, size - 1}:
                    go(cfg, oname, 0, spelling, arg, tmp_on_other=tmpo, soft=b)
                    ck.add("io_errors", 1)
    ck.log(f"{len(traces)} runs with faults")
    report(ck, traces, cases)
    ck.cov["samples"] = cases[:1] + cases[-1:]
    ck.assumptions = [
        "a process can die between two file operations or in the middle of a write; the machine "
        "itself losing power is not simulated",
        "old archives are current ones restamped with an older protocol number, for node kinds "
        "that did not change",
    ]
    return ck.finish()


# ------------------------------------------------------------------ C17
def convert_objects():
    X = np.random.RandomState(SEED).rand(20, 3)
    y = (X[:, 0] > 0.5).astype(int)
    shared = [1]
    good = {
        "int": 3, "none": None, "text": "é\n", "list": [1, [2, (3,)], {"a": 1.5}],
        "shared": [shared, shared], "array": np.arange(6).reshape(2, 3).T,
        "lr": LogisticRegression().fit(X, y), "unfitted": LogisticRegression(C=2),
        "tree": DecisionTreeClassifier(max_depth=2).fit(X, y),
        "pipe": make_pipeline(StandardScaler(), LogisticRegression()).fit(X, y),
        "custom": vtypes.Plain(a=1), "custom2": [vtypes.Plain(a=vtypes.GetSet(3)), vtypes.fun],
        "ft": FunctionTransformer(np.sqrt), "ftcustom": FunctionTransformer(vtypes.fun),
        "partial": functools.partial(vtypes.fun, 3), "od": collections.OrderedDict(a=[1]),
        "types": {"t": vtypes.Plain, "u": int}, "sparse": sp.csr_matrix(np.eye(3)),
        "bytes": b"abc", "rs": np.random.RandomState(3), "big": np.zeros(300000),
    }
    bad = {
        "birch": Birch().fit(X), "complex": [1, {"z": 1j}], "tupkey": {"a": {(1, 2j): 3}},
        "lil": [sp.lil_matrix(np.eye(2))], "refuses": [np.arange(4), vtypes.Refuses()],
        "slots-free": make_pipeline(StandardScaler(), Birch()),
    }
    return good, bad


def run_C17():
    ck = Check("C17", "model_checking",
               "every configuration of the specification with pickles of many kinds of objects, "
               "default and given output names")
    spec_run(ck, ["convert"])
    vtypes.Refuses.armed = False
    good, bad = convert_objects()
    rng = random.Random(f"{SEED}/conv")
    traces, cases = [], []
    names = ["model.pkl", "a.b.pkl", "noext", "sub/m.pickle", "../other/x.y.z", ".hidden", "dot.",
             ".hid.pkl", "sp ace é.pkl", "sub.d/plain", "@BOX@/other/abs.pkl", "./model.v1.pkl",
             "model.skops.pkl"]
    outs = [None, "out.skops", "sub/o.skops", "@BOX@/other/o.skops", "model.pkl.skops", "out"]
    verb = [[], ["-v"], ["-vv"]]
    jobs = []
    # which of the objects can be dumped at all is not a question of this property
    persists = {}
    vtypes.Refuses.armed = True
    for oname, obj in [*good.items(), *bad.items()]:
        try:
            sio.dumps(obj)
            persists[oname] = True
        except Exception:  # noqa: BLE001
            persists[oname] = False
    vtypes.Refuses.armed = False
    if not persists["int"] or all(persists.values()):
        raise MachineryError(f"no contrast between objects: {persists}")
    for k, (oname, obj) in enumerate([*good.items(), *bad.items()]):
        combos = list(itertools.product(names, outs, ["absent", "prev"]))
        rng.shuffle(combos)
        # every object at least with a default and a given name, existing and missing
        pick = [c for c in combos if c[1] is None][: 40 if THOROUGH else 4] + \
               [c for c in combos if c[1] is not None][: 60 if THOROUGH else 4]
        pick += [(n, None, "prev" if j % 2 else "absent") for j, n in enumerate(names)] if k == 4 else []
        for c in pick:
            jobs.append((oname, obj, persists[oname], *c))
    for oname, obj, persist, name, outarg, dest0 in jobs:
        base = scratch("conv-")
        try:
            box = base / "box"
            for d in ("cwd/sub", "cwd/sub.d", "other", "tmp"):
                (box / d).mkdir(parents=True)
            cwd = box / "cwd"
            inarg = name.replace("@BOX@", str(box))
            inp = Path(os.path.normpath(cwd / inarg))
            vtypes.Refuses.armed = False
            data = pickle.dumps(obj, protocol=rng.randint(0, 5))
            inp.write_bytes(data)
            args = ["convert", inarg]
            # the specification recomputes this name; here it only tells where to look
            default = cwd / (inp.stem + ".skops")
            if outarg is not None:
                args += [rng.choice(["-o", "--output-file"]), outarg.replace("@BOX@", str(box))]
                target = Path(os.path.normpath(cwd / args[-1]))
            else:
                target = default
            if dest0 == "prev":
                target.write_bytes(PREV)
            if target == inp:
                continue
            args += rng.choice(verb)
            before = read(target)
            files = listing(box)

            def fn():
                vtypes.Refuses.armed = True
                return cli(args, capture=True)()

            rc, rep = in_child(fn, cwd, box / "tmp")
            after = listing(box)
            new = after - files
            dig = digest(obj)
            dest = kind(target, before, dig)
            untrusted = []
            if dest == "new":
                untrusted = sio.get_untrusted_types(data=read(target))
            recs = [r for r in rep.get("value") or [] if r[0] >= logging.WARNING]
            text = "\n".join(r[2] for r in recs)
            made = sorted(p for p in new if p != str(target)) if outarg is not None else []
            outname = os.path.relpath(sorted(new)[0], cwd) if (outarg is None and new) else target.name
            e = {"op": "convert",
                 "cfg": {"cmd": "convert", "proto": "old", "out": "file", "inplace": False,
                         "persist": persist, "dest0": dest0, "fault": "no"},
                 "out": rep["out"] if rc == 0 else "killed", "inp": kind(inp, data, dig),
                 "dest": dest, "residue": bool(made) or len(new) > 1 or bool(files - after),
                 "default": outarg is None, "inpath": cps(inarg), "outname": cps(outname),
                 "untrusted": sorted(map(esc, untrusted)), "nwarn": len(recs),
                 "listed": sorted(esc(u) for u in untrusted if u in text)}
            traces.append([e])
            cases.append({"object": oname, "args": args, "dest0": dest0, "exc": rep.get("exc"),
                          "warnings": [r[2] for r in recs], "new": sorted(new), "outcome": e["out"],
                          "dest": dest, "untrusted": untrusted})
        finally:
            shutil.rmtree(base, ignore_errors=True)
    ck.add("conversions", len(traces))
    report(ck, traces, cases)
    ck.cov["samples"] = cases[:2]
    ck.assumptions = ["equality of objects is equality of projections (harness/project.py)",
                      "an input pickle that lies at the default output path is outside the domain"]
    return ck.finish()


# ------------------------------------------------------------------ C18
class Recorder:
    """a sink that can only be written to"""

    def __init__(self):
        self.n = 0
        self.calls = 0

    def write(self, b):
        self.calls += 1
        self.n += len(b)
        return len(b)


def cyclic():
    x = [1]
    x.append(x)
    return x


LEAVES = {
    "fine": lambda: [1, "a"],
    "generator": lambda: (i for i in ()),
    "lil": lambda: sp.lil_matrix(np.eye(2)),
    "tuple-key": lambda: {(1, 2): (i for i in ())},
    "birch": lambda: Birch(),
    "memoryview": lambda: memoryview(b"ab"),
    "slots": lambda: vtypes.Slots(),
    "complex": lambda: 1j,
    "module": lambda: os,
    "big-then-bad": lambda: [np.zeros(100000), b"x" * 100000, (i for i in ())],
    "cyclic": cyclic,
    **{f"raises-{e}": functools.partial(vtypes.Refuses, e)
       for e in ("ValueError", "KeyError", "MemoryError", "RuntimeError", "KeyboardInterrupt",
                 "TypeError", "AttributeError")},
}


class NT(collections.namedtuple("NT", "a b c")):
    pass


def three(pos, x):
    v = [1, "s", np.arange(2)]
    v[pos] = x
    return v


def object_array(xs):
    a = np.empty(3, dtype=object)
    for k, x in enumerate(xs):
        a[k] = x
    return a


CONTEXTS = {
    "list": lambda p, x: three(p, x),
    "tuple": lambda p, x: tuple(three(p, x)),
    "dict": lambda p, x: dict(zip(["a", 1, 2.5], three(p, x))),
    "ordereddict": lambda p, x: collections.OrderedDict(zip("abc", three(p, x))),
    "defaultdict": lambda p, x: collections.defaultdict(list, zip("abc", three(p, x))),
    "set": lambda p, x: {1, vtypes.Plain(a=x), 2},
    "object": lambda p, x: vtypes.Plain(**dict(zip("abc", three(p, x)))),
    "object-array": lambda p, x: object_array(three(p, x)),
    "object-array2d": lambda p, x: object_array(three(p, x)).reshape(3, 1),
    "partial": lambda p, x: functools.partial(vtypes.fun, *three(p, x)),
    "partial-kw": lambda p, x: functools.partial(vtypes.fun, **dict(zip("abc", three(p, x)))),
    "method": lambda p, x: vtypes.Plain(**dict(zip("abc", three(p, x)))).method,
    "estimator": lambda p, x: FunctionTransformer(kw_args={"q": three(p, x)}),
    "pipeline": lambda p, x: make_pipeline(StandardScaler(), FunctionTransformer(kw_args={"q": x})),
}


def build(path, leaf):
    x = LEAVES[leaf]()
    for c, p in reversed(path):
        x = CONTEXTS[c](p, x)
    return x


class Sinks:
    """destinations; prepare() returns the argument for dump and a function observing it"""

    def __init__(self, d):
        self.d = d
        self.n = 0

    def names(self):
        return [m[2:] for m in dir(self) if m.startswith("s_")]

    def path(self, content):
        self.n += 1
        p = self.d / f"f{self.n}.skops"
        if content is not None:
            p.write_bytes(content)
        return p

    def s_str_missing(self):
        p = self.path(None)
        return str(p), lambda: read(p), p

    def s_str_existing(self):
        p = self.path(PREV)
        return str(p), lambda: read(p), p

    def s_path_missing(self):
        p = self.path(None)
        return p, lambda: read(p), p

    def s_path_existing(self):
        p = self.path(PREV)
        return p, lambda: read(p), p

    def s_path_empty(self):
        p = self.path(b"")
        return p, lambda: read(p), p

    def s_relative(self):
        p = self.path(PREV)
        return os.path.relpath(p), lambda: read(p), p

    def s_path_archive(self):
        p = self.path(ARCHIVE)
        return p, lambda: read(p), p

    def s_symlink(self):
        p, q = self.path(PREV), self.path(None)
        q.symlink_to(p)
        return str(q), lambda: (read(p), q.is_symlink()), q

    def s_bytesio(self):
        b = io.BytesIO()
        return b, lambda: (b.getvalue(), b.tell()), None

    def s_bytesio_mid(self):
        b = io.BytesIO(PREV)
        b.seek(11)
        return b, lambda: (b.getvalue(), b.tell()), None

    def file(self, mode, **kw):
        p = self.path(PREV)
        f = open(p, mode, **kw)

        def look():
            f.flush()
            return read(p), f.tell()

        return f, look, p

    def s_file_wb(self):
        return self.file("wb")

    def s_file_update(self):
        f, look, p = self.file("r+b")
        f.seek(20)
        return f, look, p

    def s_file_append(self):
        return self.file("ab")

    def s_file_raw(self):
        return self.file("wb", buffering=0)

    def s_temporary(self):
        f = tempfile.TemporaryFile(dir=self.d)

        def look():
            pos = f.tell()
            f.flush()
            f.seek(0)
            r = f.read()
            f.seek(pos)
            return r, pos

        return f, look, None

    def s_recorder(self):
        r = Recorder()
        return r, lambda: r.n, None

    def s_dumps(self):
        return None, lambda: None, None


ARCHIVE = b""


def run_C18():
    global ARCHIVE
    ck = Check("C18", "model_checking",
               "every context path up to the bound around every unsupported leaf, dumped into "
               "every kind of sink")
    spec_run(ck, ["dump"])
    ARCHIVE = sio.dumps({"old": [1, 2, 3]})
    vtypes.Refuses.armed = True
    rng = random.Random(f"{SEED}/dump")
    d = scratch("dump-")
    sinks = Sinks(d)
    names = sinks.names()
    # which leaves are refused on their own
    refused = {}
    for leaf in LEAVES:
        try:
            sio.dumps(LEAVES[leaf]())
            refused[leaf] = False
        except BaseException:  # noqa: BLE001
            refused[leaf] = True
    if refused.pop("fine"):
        raise MachineryError("cannot dump a plain list")
    ck.log("refused leaves:", [k for k, v in refused.items() if v],
           "not refused:", [k for k, v in refused.items() if not v])
    leaves = [k for k, v in refused.items() if v]
    if len(leaves) < 5:
        raise MachineryError(f"hardly any value is refused: {leaves}")
    steps = [(c, p) for c in CONTEXTS for p in ((0, 1, 2) if c not in ("set", "pipeline") else (0,))]
    paths = [()] + [(s,) for s in steps] + list(itertools.product(steps, steps))
    deep = [tuple(rng.choice(steps) for _ in range(rng.randint(3, 8)))
            for _ in range(1500 if THOROUGH else 150)]
    traces, cases, ev = [], [], []
    k = 0
    jobs = []
    for p in paths + deep:
        if len(p) <= 1:
            for leaf in leaves + ["fine"]:
                for s in names:
                    jobs.append((p, leaf, s))
        else:
            for _ in range(6 if THOROUGH else 1):
                k += 1
                leaf = leaves[k % len(leaves)] if k % 29 else "fine"
                if leaf == "cyclic" and not THOROUGH and k % 3:
                    leaf = "tuple-key"
                jobs.append((p, leaf, names[(k * 7 + k // len(names)) % len(names)]))
    for p, leaf, s in jobs:
        obj = build(p, leaf)
        dst, look, path = getattr(sinks, "s_" + s)()
        before = look()
        exc = None
        try:
            if s == "dumps":
                sio.dumps(obj)
            else:
                sio.dump(obj, dst, **({"compression": zipfile.ZIP_DEFLATED} if k % 5 == 0 else {}))
            out = "ok"
        except BaseException as e:  # noqa: BLE001
            out, exc = "raised", type(e).__name__
        after = look()
        if hasattr(dst, "close"):
            dst.close()
        if path is not None:
            Path(path).unlink(missing_ok=True)
        ev.append({"op": "dump", "ctx": [list(x)[0] for x in p], "leaf": leaf, "out": out,
                   "same": before == after})
        cases.append({"context": p, "leaf": leaf, "sink": s, "out": out, "exc": exc})
    for e in ev:
        traces.append([e])
    ck.add("dumps", len(ev))
    ck.cov["refused_leaves"] = leaves
    ck.cov["sinks"] = names
    report(ck, traces, cases)
    ck.cov["samples"] = cases[:1] + cases[-1:]
    return ck.finish()
