"""C19: damaged archives, read in processes of their own, against spec/SkopsCorrupt*.tla."""
from __future__ import annotations

import copy
import io
import json
import os
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
import warnings
import zipfile
from pathlib import Path

import archives as A
import common
import numpy as np
import samples
import scipy.sparse as sp
import valpool as V
from archives import DICT, LIST, TUPLE, TYPE, J, st
from common import SEED, THOROUGH, Check, MachineryError, esc, tlc, validate

import skops.io as sio

LIMIT = 20  # seconds an operation may take (they take milliseconds)
OPS = ["untrusted", "load", "load0", "visualize", "print"]


def spec_run(ck):
    rows = {}
    for n, k in ([(6, 2), (5, 4)] if THOROUGH else [(5, 2), (4, 4)]):
        r = tlc("SkopsCorrupt", f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS N = {n}\nK = {k}\nLimit = 12\n"
                "PROPERTY Terminates\n" + "".join(f"INVARIANT {x}\n" for x in "Bounded Outcome Emit".split()))
        ck.add("states", r.distinct)
        ck.add("transitions", r.states)
        ck.log(f"SkopsCorrupt N={n} K={k}: {r.distinct} states, {len(r.rows)} schemas, {r.wall:.1f}s")
        rows.update({json.dumps([x["par"], x["id"]]): x for x in r.rows})
    return [x for _, x in sorted(rows.items())]


# ---------------------------------------------------------------- observing, in a child
class Observer:
    """files written and process-wide state of this process"""

    def __init__(self, own):
        self.files, self.on, self.own = [], False, own
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.on:
            return
        if event == "open":
            p, mode, flags = args
            wr = any(c in str(mode or "") for c in "wax+") or (
                isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT) and mode is None)
            if wr and not isinstance(p, int) and os.fsdecode(p) not in ("/dev/null", "/dev/tty"):
                self.files.append(f"open {os.fsdecode(p)}")
        elif event in ("os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.link", "os.symlink", "os.truncate",
                       "os.chmod", "os.chown", "os.utime") or event.startswith(("shutil.", "tempfile.")):
            self.files.append(f"{event} {args!r:.80}")

    @staticmethod
    def state():
        rs = np.random.get_state()
        return {
            "cwd": os.getcwd(), "environ": dict(os.environ), "sys.path": list(sys.path),
            "numpy random state": (rs[0], rs[1].tobytes(), rs[2:]), "random state": random.getstate(),
            "recursion limit": sys.getrecursionlimit(), "numpy errors": np.geterr(),
            "numpy print options": repr(np.get_printoptions()), "stdout": id(sys.stdout), "stderr": id(sys.stderr),
            "excepthook": id(sys.excepthook), "umask": _umask(),
        }


def _umask():
    m = os.umask(0o022)
    os.umask(m)
    return m


def listing(d):
    return sorted(str(p.relative_to(d)) for p in Path(d).rglob("*"))


def operate(op, data, path, memo):
    src = {"data": data} if path is None else {"file": path}
    if op == "untrusted":
        memo["u"] = sio.get_untrusted_types(**src)
    elif op in ("load", "load0"):
        t = memo.get("u", []) if op == "load" else []
        return sio.loads(data, trusted=t) if path is None else sio.load(path, trusted=t)
    else:
        x = data if path is None else path
        if op == "print":
            sio.visualize(x, trusted=memo.get("u", []))
        else:
            sio.visualize(x, sink=lambda nodes, *a, **k: [list(n) if isinstance(n, tuple) else str(n) for n in nodes])
    return None


def child(cases, todo, fd, d):
    """run todo = [(case, op)], reporting each on fd"""
    import resource

    cwd, tmp = Path(d) / "cwd", Path(d) / "tmp"
    os.chdir(cwd)
    tempfile.tempdir = str(tmp)
    os.environ["TMPDIR"] = str(tmp)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    warnings.simplefilter("ignore")
    obs = Observer(d)
    memo, last = {}, None
    arch = Path(d) / "in.skops"
    before = obs.state()
    ls = listing(d)

    def say(*x):
        os.write(fd, (json.dumps(x) + "\n").encode())

    for k, op in todo:
        if k != last:
            memo, last = {}, k
            data = cases[k]["data"]
            path = None
            if cases[k].get("file"):
                arch.write_bytes(data)
                path = arch if k % 2 else str(arch)
            elif arch.exists():
                arch.unlink()
            ls = listing(d)
        say("start", k, op)
        e = {"op": "run", "fn": op, "out": "ok", "ordinary": True, "files": [], "changed": []}
        note = ""
        obs.files, obs.on = [], True
        try:
            got = operate(op, data, path, memo)
            obs.on = False
            del got
        except Exception as ex:  # noqa: BLE001
            obs.on = False
            e["out"], note = "raise", f"{type(ex).__name__}: {ex!s:.80}"
            e["ordinary"] = type(ex).__name__ not in ("SystemError",)
            ex.__traceback__ = None
        except BaseException as ex:  # noqa: BLE001
            obs.on = False
            e["out"], e["ordinary"], note = "raise", False, f"{type(ex).__name__}: {ex!s:.80}"
        e["files"] = [esc(x) for x in obs.files[:5]]
        new = listing(d)
        if new != ls:
            e["files"] += [esc(f"new {x}") for x in sorted(set(new) ^ set(ls))[:5]]
            ls = new
        after = obs.state()
        if after != before:
            e["changed"] = [x for x in before if before[x] != after[x]]
            before = after
        say("done", k, op, e, note)
    say("end")


_FLAGS = None  # a directory with a file for each crash, hang or change seen so far, by any worker
_END = 0.0  # when to stop


def supervise(cases):
    """run all operations of the cases; [[(event, note)]] in the order of the cases"""
    d = tempfile.mkdtemp(prefix="verif-c19-")
    for x in ("cwd", "tmp"):
        (Path(d) / x).mkdir()
    todo = [(k, op) for k in range(len(cases)) for op in OPS]
    res = [[] for _ in cases]
    try:
        while todo and len(os.listdir(_FLAGS)) < 8 and time.time() < _END:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    child(cases, todo, w, d)
                    code = 0
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(w)
            buf, cur, ended, timed = b"", None, False, False
            deadline = time.time() + LIMIT + 10
            while True:
                ok, _, _ = select.select([r], [], [], max(0.0, deadline - time.time()))
                if not ok:
                    timed = True
                    os.kill(pid, signal.SIGKILL)
                    break
                chunk = os.read(r, 1 << 16)
                if not chunk:
                    break
                buf += chunk
                *lines, buf = buf.split(b"\n")
                for line in lines:
                    x = json.loads(line)
                    deadline = time.time() + LIMIT
                    if x[0] == "start":
                        cur = (x[1], x[2])
                    elif x[0] == "done":
                        if x[3]["files"] or x[3]["changed"]:
                            os.close(os.open(f"{_FLAGS}/{os.getpid()}-{len(todo)}", os.O_CREAT))
                        res[x[1]].append((x[3], x[4]))
                        todo.pop(0)
                        cur = None
                    else:
                        ended = True
            os.close(r)
            status = os.waitpid(pid, 0)[1]
            if ended:
                break
            if cur is None:
                raise MachineryError(f"observer failed (status {status})")
            res[cur[0]].append(({"op": "run", "fn": cur[1], "out": "hung" if timed else "died", "ordinary": True,
                                 "files": [], "changed": []}, f"status {status}"))
            todo.pop(0)
            os.close(os.open(f"{_FLAGS}/{os.getpid()}-{len(todo)}", os.O_CREAT))
            if not todo:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


# ---------------------------------------------------------------- damage
def flip(r, d):
    d = bytearray(d)
    if not d:
        return b"\x00"
    k = r.choice("flip flip byte trunc cut insert dup zero swap field field field junk".split())
    n = len(d)
    i = r.randrange(n)
    j = min(n, i + r.choice([1, 2, 4, 16, 100, 1000]))
    if k == "flip":
        for _ in range(r.choice([1, 1, 2, 8, 40])):
            d[r.randrange(n)] ^= 1 << r.randrange(8)
    elif k == "byte":
        for _ in range(r.choice([1, 2, 5])):
            d[r.randrange(n)] = r.choice([0, 255, 1, 127, 128, r.randrange(256)])
    elif k == "trunc":
        d = d[: r.choice([i, n - 1, n - 22, 4, 0, n // 2])]
    elif k == "cut":
        del d[i:j]
    elif k == "insert":
        d[i:i] = r.randbytes(r.choice([1, 2, 30]))
    elif k == "dup":
        d[i:i] = d[i:j]
    elif k == "zero":
        d[i:j] = bytes(j - i)
    elif k == "swap":
        i2 = r.randrange(n)
        w = min(j - i, n - i2)
        d[i:i + w], d[i2:i2 + w] = d[i2:i2 + w], d[i:i + w]
    elif k == "junk":
        d = bytearray(r.randbytes(40)) + d if r.random() < 0.5 else d + bytearray(r.randbytes(40))
    else:
        sig = r.choice([b"PK\x01\x02", b"PK\x03\x04", b"PK\x05\x06"])
        at = [p for p in range(n - 4) if d[p:p + 4] == sig]
        if at:
            p = r.choice(at) + r.randrange(4, 46)
            v = r.choice([0, 1, 2, 8, 12, 14, 99, 0xFFFF, 0x8000, r.randrange(1 << 16), 0x0801, 0x0809])
            if p + 4 <= n:
                if r.random() < 0.6:
                    d[p:p + 2] = struct.pack("<H", v)
                else:
                    d[p:p + 4] = struct.pack("<I", r.choice([v, 0xFFFFFFFF, 0x7FFFFFFF, n, n - 1]))
    return bytes(d)


def npy(header, data=b""):
    h = header.encode("latin1")
    h += b" " * ((64 - (len(h) + 11) % 64) % 64) + b"\n"
    return b"\x93NUMPY\x01\x00" + struct.pack("<H", len(h)) + h + data


def bad_members(r):
    """contents for the members of an archive"""
    a = A._npy(np.arange(6.0))
    def npz(**kw):
        b = io.BytesIO()
        np.savez(b, **kw)
        return b.getvalue()

    c = sp.csr_matrix(np.eye(3))
    good = dict(format=b"csr", shape=np.array([3, 3]), data=c.data, indices=c.indices, indptr=c.indptr)
    return r.choice([
        lambda: b"", lambda: b"\x00", lambda: a[:-3], lambda: a[:20], lambda: b"PK\x03\x04", lambda: b"garbage" * 30,
        lambda: npy("{'descr': '|O', 'fortran_order': False, 'shape': (3,)}", b"\x80\x04K\x01."),
        lambda: npy("{'descr': '<f8', 'fortran_order': False, 'shape': (1000000000000,)}"),
        lambda: npy("{'descr': '<f8', 'fortran_order': True, 'shape': (2, 99999999)}", bytes(80)),
        lambda: npy("{'descr': '<f8', 'fortran_order': False, 'shape': (-1,)}", bytes(8)),
        lambda: npy("{'descr': '<f8', 'fortran_order': 3, 'shape': 2}", bytes(16)),
        lambda: npy("{'descr': [('a', '<f8'), ('a', '<i4')], 'fortran_order': False, 'shape': (2,)}", bytes(24)),
        lambda: npy("{'descr': '<U99999999', 'fortran_order': False, 'shape': (2,)}", bytes(24)),
        lambda: npy("{'descr': '<V0', 'fortran_order': False, 'shape': (99999999,)}", bytes(24)),
        lambda: npy("{'descr': '<f8', 'fortran_order': False, 'shape': ()}", bytes(8)),
        lambda: npy("{'descr': '<f8', 'fortran_order': False, 'shape': (0, 9999999999)}"),
        lambda: npy("{'descr': 'zz', 'shape': [], 'x': 1}"), lambda: npy("[" * 500), lambda: npy("__import__('os')"),
        lambda: npy("(" * 9000 + ")" * 9000), lambda: npy("{" + "'a':1," * 3000 + "}"),
        lambda: a[:6] + b"\x02\x00\xff\xff\xff\x7f" + a[10:], lambda: a[:6] + b"\x09\x09" + a[8:],
        lambda: A._npy(np.array([[1, 2]])), lambda: A._npy(np.array("x")), lambda: A._npy(np.zeros((0, 2))),
        lambda: A._npy(np.array([(1, 2.0)], dtype="i4,f8")), lambda: A._npy(np.array([2**63 - 1, -1])),
        lambda: b"\x80\x04\x95\x00", lambda: npz(), lambda: npz(**{**good, "format": b"xyz"}),
        lambda: npz(**{**good, "format": b"dok"}), lambda: npz(**{**good, "indices": np.array([0, 10**9, -5])}),
        lambda: npz(**{**good, "indptr": np.array([0, 5, -5, 10**12])}), lambda: npz(**{**good, "shape": np.array([10**12, 10**12])}),
        lambda: npz(**{**good, "shape": np.array([-3, 3])}), lambda: npz(**{**good, "data": np.array([1.0])}),
        lambda: npz(**{**good, "data": np.array(["a", "b", "c"])}), lambda: npz(**{**good, "indptr": np.array([0.5, 1, 2, 3])}),
        lambda: npz(format=b"coo", shape=np.array([2, 2]), row=np.array([0, 9]), col=np.array([0, -9]), data=np.ones(2)),
        lambda: npz(format=b"bsr", shape=np.array([4, 4]), data=np.ones((1, 0, 3)), indices=np.array([0]), indptr=np.array([0, 1])),
        lambda: npz(format=b"dia", shape=np.array([2, 2]), data=np.ones((3, 3)), offsets=np.array([0])),
        lambda: npz(**{**good, "format": np.array(["csr"])}), lambda: npz(**good)[:-30], lambda: flip(r, npz(**good)),
        lambda: A._npy(np.asfortranarray(np.ones((3, 2), dtype=">f4"))), lambda: A._npy(np.array(["2020"], dtype="M8[D]")),
    ])()


def rezip(schema_text, members, r=None, extra=()):
    b = io.BytesIO()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with zipfile.ZipFile(b, "w", compression=r.choice([0, 0, 8, 12, 14]) if r else 0) as z:
            for k, v in members.items():
                z.writestr(k, v)
            for k, v in extra:
                z.writestr(k, v)
            if schema_text is not None:
                z.writestr("schema.json", schema_text)
    return b.getvalue()


NAMES = ["../x.npy", "/abs.npy", "dir/a.npy", "schema.json", "", "a" * 300, "é.npy", "..", "x\\y", "con", "a\nb", "dir/"]


def break_members(r, s, m, head):
    m = dict(m)
    extra = []
    for _ in range(r.choice([1, 1, 2])):
        k = r.choice("drop rename extra swap replace replace replace replace flip dupe noschema".split())
        ns = sorted(m)
        if k == "extra":
            extra.append((r.choice(NAMES), r.randbytes(9)))
        elif k == "noschema":
            return rezip(None, m, r, extra)
        elif ns:
            n = r.choice(ns)
            if k == "drop":
                del m[n]
            elif k == "rename":
                m[r.choice(NAMES) + "1"] = m.pop(n)
            elif k == "swap":
                n2 = r.choice(ns)
                m[n], m[n2] = m[n2], m[n]
            elif k == "replace":
                m[n] = bad_members(r)
            elif k == "flip":
                m[n] = flip(r, m[n])
            elif k == "dupe":
                extra.append((n, bad_members(r)))
    return rezip(json.dumps({**s, **head}), m, r, extra)


VALUES = [None, True, False, 0, 1, -1, 3, 2**31, 2**63, 10**30, -(10**18), 1.5, float("inf"), float("nan"), "", "x", "schema.json",
          "builtins", "int", "list", "[]", "null", "{}", "NaN", "1e999", '"', [], {}, [None], [[]], {"a": 1}, "a" * 5000,
          "sklearn", ".", "..", "__main__", "numpy", "\ud800", "é"]  # fmt: skip
GOOD_NAMES = [("builtins", "int"), ("builtins", "list"), ("builtins", "dict"), ("builtins", "tuple"), ("builtins", "set"),
              ("builtins", "str"), ("builtins", "slice"), ("builtins", "bytes"), ("builtins", "float"), ("builtins", "object"),
              ("builtins", "frozenset"), ("builtins", "bytearray"), ("builtins", "bool"), ("builtins", "type"),
              ("numpy", "ndarray"), ("numpy", "float64"), ("numpy", "dtype"), ("numpy.random", "RandomState"),
              ("numpy.random._generator", "Generator"), ("numpy", "mean"), ("numpy", "add"), ("numpy.ma", "MaskedArray"),
              ("collections", "OrderedDict"), ("collections", "defaultdict"), ("functools", "partial"),
              ("scipy.sparse._csr", "csr_matrix"), ("sklearn.tree._tree", "Tree"), ("sklearn.linear_model", "LogisticRegression"),
              ("sklearn._loss._loss", "CyHalfSquaredError"), ("sklearn.neighbors._kd_tree", "KDTree64"), ("vtypes", "Plain"),
              ("vtypes", "GetSet"), ("vtypes", "Slots"), ("vtypes", "fun"), ("operator", "itemgetter"), ("operator", "methodcaller"),
              ("decimal", "Decimal"), ("datetime", "datetime"), ("numpy.random._pcg64", "PCG64"), ("nosuch", "thing"), ("", ""),
              ("numpy", "nosuch"), ("sklearn.pipeline", "Pipeline"), ("sklearn.utils._bunch", "Bunch"), ("enum", "Enum"),
              ("numpy.random.bit_generator", "SeedSequence"), ("numpy", "str_"), ("numpy", "void"), ("numpy", "matrix")]  # fmt: skip


def containers(x):
    """(container, key, value) everywhere in a JSON value, down to 60 levels"""
    out, todo = [], [(x, 0)]
    while todo:
        x, depth = todo.pop()
        it = list(x.items()) if isinstance(x, dict) else list(enumerate(x)) if isinstance(x, list) else []
        out += [(x, k, v) for k, v in it]
        if depth < 60:
            todo += [(v, depth + 1) for _, v in it]
        if len(out) > 20000:
            break
    return out


def clone(x):
    try:
        return copy.deepcopy(x)
    except RecursionError:
        return {}


def nodes(s):
    return [s] + [v for _, _, v in containers(s) if isinstance(v, dict) and "__loader__" in v]


def break_schema(r, s, m, head):
    s = clone(s)
    head = dict(head)
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        k = r.choice("value value drop add id id id loader loader name name swap copy proto text file nest rename dag".split())
        cs = containers(s)
        ns = nodes(s)
        if not cs:
            break
        c, key, v = r.choice(cs)
        n = r.choice(ns)
        if k == "value":
            c[key] = r.choice(VALUES + [clone(r.choice(cs)[2])])
        elif k == "drop":
            if isinstance(c, dict):
                del c[key]
            else:
                c.pop(key)
        elif k == "add":
            n[r.choice(["attrs", "keys", "key_types", "content", "file", "type", "shape", "__reduce__", "__id__", "x", "is_json"])] = \
                r.choice([clone(r.choice(ns)), r.choice(VALUES)])
        elif k == "rename" and isinstance(c, dict):
            c[r.choice(["x", "content", "file", "", "__id__", "attrs"])] = c.pop(key)
        elif k == "id":
            n["__id__"] = r.choice([r.choice(ns).get("__id__"), s.get("__id__"), r.choice(VALUES), 1])
        elif k == "loader":
            n["__loader__"] = r.choice(sorted(A.SLOTS) + ["CachedNode", "NoSuchNode", "QuantileForestNode"])
        elif k == "name":
            n["__module__"], n["__class__"] = r.choice(GOOD_NAMES)
        elif k == "swap":
            c2, k2, v2 = r.choice(cs)
            c[key], c2[k2] = v2, v
        elif k == "copy":  # a part of the schema within itself
            c[key] = clone(r.choice(ns))
        elif k == "proto":
            head["protocol"] = r.choice([0, 0, 1, 1, 3, 99, -1, 10**30, 1.0, 1.5, "2", None, [], {}, True, float("nan")])
            if r.random() < 0.2:
                head.pop(r.choice(["protocol", "_skops_version"]))
        elif k == "file":
            n["file"] = r.choice([*m, "schema.json", "missing", "../etc", "", None, 3])
        elif k == "nest":
            for _ in range(r.choice([3, 50, 200])):
                c[key] = r.choice([LIST, TUPLE])(c[key] if isinstance(c[key], dict) else J(1))
        elif k == "dag" and isinstance(v, dict) and "__loader__" in v:
            c[key] = dag(r, r.choice([3, 8, 16]))
    try:
        t = json.dumps({**s, **head})
    except (TypeError, ValueError, RecursionError):
        t = "{}"
    if r.random() < 0.1:
        t = text_damage(r, t)
    return rezip(t, m, r)


def text_damage(r, t):
    b = t.encode("utf8", "surrogatepass")
    return r.choice([
        lambda: b[: r.randrange(len(b))], lambda: b"\xef\xbb\xbf" + b, lambda: t.encode("utf-16", "surrogatepass"), lambda: b + b,
        lambda: flip(r, b), lambda: b"[" * 100000, lambda: b'{"a":' * 50000, lambda: b"", lambda: b"null", lambda: b"[]",
        lambda: b'"' + b"x" * 1000, lambda: b"9" * 10000, lambda: b.replace(b'"__loader__"', b'"__loader__": "x", "__loader__"'),
        lambda: b"\xff\xfe" + b, lambda: b.replace(b":", b": 1" + b"0" * 6000 + b", \"q\":", 1), lambda: b"-" + b, lambda: b"NaN",
        lambda: b.replace(b"[", b"[" * 300).replace(b"]", b"]" * 300), lambda: b"\x00" * 100,
    ])()


def dag(r, n):
    """nodes that share their children: many paths"""
    x = LIST(J(1))
    for j in range(n):
        x["__id__"] = 5000 + j
        stub = {"__loader__": "ListNode", "__class__": "list", "__module__": "builtins", "__id__": 5000 + j}
        x = r.choice([LIST, TUPLE])(x, stub) if r.random() < 0.7 else DICT(a=x, b=stub)
    return x


def odd(r, m):
    """the state of some value other than the one expected here; its members go to `m`"""
    def arr(a):
        n = f"odd{len(m)}.npy"
        m[n] = A._npy(a)
        return st("NdArrayNode", "numpy.ndarray", type="numpy", file=n)

    fs = r.choice(["f8", "f4", "i8", "i4", "i2", "u1", "?", "c16", "U3", "S2", "M8[s]", ">f8", "f2", "V3"])
    return r.choice([
        lambda: J(r.choice([None, True, 0, 1, -1, 7, 2**31, 2**63, -(2**63), 10**30, 1.5, float("nan"), float("inf"), "", "x", "f8"])),
        lambda: J(None), lambda: LIST(), lambda: TUPLE(), lambda: DICT(), lambda: LIST(J(1), J(2)), lambda: TUPLE(J(None), J("a")),
        lambda: TUPLE(*[odd(r, m) for _ in range(r.choice([1, 2, 3, 4, 8, 12]))]), lambda: DICT(a=J(1), nodes=J(None), values=J(1)),
        lambda: arr(np.array(1).astype(fs)), lambda: arr(np.zeros(0).astype(fs)), lambda: arr(np.zeros(r.choice([1, 3, 100])).astype(fs)),
        lambda: arr(np.zeros(r.choice([(2, 2), (1, 1, 1), (0, 3), (3, 0), (1, 1, 1, 1, 1)])).astype(fs)),
        lambda: arr(np.full(r.choice([(), (2,), (3, 1)]), r.choice([-1, 2**31, 2**62, -(2**63)]), dtype="i8")),
        lambda: arr(np.zeros(r.choice([(), (1,), (2, 2)]), dtype=r.choice([[("a", "f8")], "i4,i4,f8", [("left_child", "i8")]]))),
        lambda: TYPE("builtins.int"), lambda: st("SliceNode", "builtins.slice", content={"start": None, "stop": 1, "step": None}),
        lambda: st("NdArrayNode", "numpy.ndarray", type="json", content=[J(1)], shape=TUPLE(J(1))),
        lambda: st("DTypeNode", "numpy.dtype", content=arr(np.zeros(0, dtype=fs))),
    ])()


NATIVE = "tree hgb gb knn kdtree balltree metric scorer sgd rs gen rspcg masked dtype struct svc nu iso qf et eet SRS csr lbl lof nc".split()


def natives():
    from quantile_forest import RandomForestQuantileRegressor
    from sklearn.ensemble import ExtraTreesClassifier, IsolationForest
    from sklearn.linear_model import SGDRegressor
    from sklearn.neighbors import LocalOutlierFactor
    from sklearn.svm import SVC, NuSVR
    from sklearn.tree import ExtraTreeRegressor

    X, y = samples.data()
    return {
        "svc": SVC(probability=True, random_state=0).fit(X, y), "nu": NuSVR().fit(X, y), "iso": IsolationForest(n_estimators=1).fit(X),
        "qf": RandomForestQuantileRegressor(n_estimators=1, max_leaf_nodes=4).fit(X, y),
        "et": ExtraTreesClassifier(n_estimators=1, max_depth=2).fit(X, np.c_[y, y]), "eet": ExtraTreeRegressor(max_depth=2).fit(X, X),
        "lof": LocalOutlierFactor(algorithm="ball_tree", novelty=True).fit(X), "nc": SGDRegressor(loss="huber").fit(X, y),
    }  # fmt: skip


def break_native(r, s, m, head):
    """another value, well formed, in place of a part of a state that compiled code reads"""
    s, m = clone(s), dict(m)
    inner = {id(v) for n in nodes(s) if n.get("__loader__") in (
        "TreeNode", "LossNode", "QuantileForestNode", "ReduceNode", "ConstructorFromReduceNode", "RandomStateNode", "RandomGeneratorNode",
        "MaskedArrayNode", "SparseMatrixNode", "DTypeNode") for v in [n, *(x for _, _, x in containers(n))] if isinstance(v, (dict, list))}
    args = {id(n["__reduce__"]["args"]["content"]) for n in nodes(s) if isinstance(n.get("__reduce__"), dict)}
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        cs = [c for c in containers(s) if isinstance(c[2], dict) and "__loader__" in c[2]]
        near = [c for c in cs if id(c[0]) in inner]
        if not cs:
            break
        direct = [c for c in cs if id(c[0]) in args]
        c, key, v = r.choice(direct if direct and r.random() < 0.3 else near if near and r.random() < 0.8 else cs)
        k = r.choice(["odd", "odd", "odd", "none", "len", "array", "big"])
        if k == "big":
            c[key] = J(r.choice([2, 100, 10**5, 10**7, 2**31 - 1, 2**40, -1, -(2**31)]))
        elif k == "none":
            c[key] = J(None)
        elif k == "len" and isinstance(v.get("content"), list):
            if v["content"] and r.random() < 0.5:
                v["content"].pop(r.randrange(len(v["content"])))
            else:
                v["content"].insert(r.randrange(len(v["content"]) + 1), odd(r, m))
        elif k == "array" and v.get("file") in m:
            try:
                a = np.load(io.BytesIO(m[v["file"]]))
            except Exception:  # noqa: BLE001
                continue
            with np.errstate(all="ignore"):
                a = r.choice([lambda: a[:0], lambda: a.reshape(-1)[:1].reshape(()), lambda: a[None], lambda: a.ravel(),
                              lambda: np.concatenate([a, a]), lambda: a[:-1], lambda: a[..., None], lambda: a.T, lambda: a.view("V1"),
                              lambda: a.view("u1").copy(), lambda: np.frombuffer(r.randbytes(a.nbytes), a.dtype).reshape(a.shape),
                              lambda: a.astype("f4"), lambda: a.astype("i4"), lambda: a.astype(a.dtype.newbyteorder(">")),
                              lambda: np.asfortranarray(a), lambda: a * 0 - 1, lambda: a[::-1].copy()])
                try:
                    m[v["file"]] = A._npy(np.array(a()))
                except Exception:  # noqa: BLE001
                    c[key] = odd(r, m)
        else:
            c[key] = odd(r, m)
    return rezip(json.dumps({**s, **head}), m)


def deep(r, n):
    x = J(1)
    for j in range(n):
        f = r.choice([lambda x: LIST(x), lambda x: TUPLE(x), lambda x: DICT(a=x),
                      lambda x: st("ObjectNode", "vtypes.Plain", content=DICT(a=x)), lambda x: st("SetNode", "builtins.set", content=[x]),
                      lambda x: st("MethodNode", "vtypes.Plain", content={"func": "method", "obj": x}),
                      lambda x: st("SliceNode", "builtins.slice", content={"start": x, "stop": None, "step": None})])
        x = f(x)
    return x


# ---- the schemas of the specification
def state_of(kind, kids):
    """a state of a kind with these states in it"""
    if kind == "list":
        return LIST(*kids)
    if kind == "tuple":
        return TUPLE(*kids)
    if kind == "set":
        return st("SetNode", "builtins.set", content=kids)
    if kind in ("dict", "odict"):
        d = DICT(**{f"k{j}": x for j, x in enumerate(kids)})
        return d if kind == "dict" else {**d, "__module__": "collections", "__class__": "OrderedDict"}
    if kind == "keys":
        return st("DictNode", "builtins.dict", keys=kids[0] if kids else LIST(), content={str(j): x for j, x in enumerate(kids[1:])})
    if kind == "key_types":
        return st("DictNode", "builtins.dict", key_types=kids[0] if kids else LIST(),
                  content={str(j): x for j, x in enumerate(kids[1:])})
    if kind == "object":
        return st("ObjectNode", "vtypes.Plain", content=DICT(**{f"k{j}": x for j, x in enumerate(kids)}))
    if kind == "rawobject":
        return st("ObjectNode", "vtypes.Plain", content=kids[0] if kids else DICT())
    if kind == "oarray":
        return st("NdArrayNode", "numpy.ndarray", type="json", content=kids, shape=TUPLE(J(len(kids))))
    if kind == "shape":
        return st("NdArrayNode", "numpy.ndarray", type="json", content=kids[1:], shape=kids[0] if kids else TUPLE(J(0)))
    if kind == "slice":
        ks = [*kids, None, None, None][:3]
        return st("SliceNode", "builtins.slice", content=dict(zip(("start", "stop", "step"), ks)))
    if kind == "method":
        return st("MethodNode", "vtypes.Plain", content={"func": "method", "obj": kids[0] if kids else J(1)})
    if kind == "reduce":
        return st("ConstructorFromReduceNode", "vtypes.Plain", content=TUPLE(*kids))
    if kind == "rawreduce":
        return st("ConstructorFromReduceNode", "decimal.Decimal", content=kids[0] if kids else TUPLE())
    if kind == "getter":
        return st("OperatorFuncNode", "operator.itemgetter", attrs=TUPLE(*kids))
    if kind == "rawgetter":
        return st("OperatorFuncNode", "operator.itemgetter", attrs=kids[0] if kids else TUPLE(J(1)))
    if kind == "partial":
        ks = [*kids, *[None] * 4]
        return st("PartialNode", "functools.partial", content={
            "func": ks[0] or TYPE("builtins.int"), "args": ks[1] or TUPLE(), "kwds": ks[2] or DICT(), "namespace": ks[3] or DICT()})
    if kind == "ddict":
        ks = [*kids, None, None]
        return st("DefaultDictNode", "collections.defaultdict", content={"main": ks[0] or DICT(), "default_factory": ks[1] or J(None)})
    if kind == "attrs":
        return {**LIST(*kids[1:]), "attrs": kids[0] if kids else DICT()}
    if kind == "masked":
        a = st("NdArrayNode", "numpy.ndarray", type="numpy", file="a.npy")
        ks = [*kids, None, None]
        return st("MaskedArrayNode", "numpy.ma.MaskedArray", content={"data": ks[0] or a, "mask": ks[1] or a})
    if kind in ("tree", "loss", "rs", "gen", "dtype"):
        k, n, sl = {"tree": ("TreeNode", "sklearn.tree._tree.Tree", "args"), "loss": ("LossNode", "sklearn._loss._loss.CyHalfSquaredError", "attrs"),
                    "rs": ("RandomStateNode", "numpy.random.RandomState", "content"),
                    "gen": ("RandomGeneratorNode", "numpy.random.Generator", "bit_generator"),
                    "dtype": ("DTypeNode", "numpy.dtype", "content")}[kind]
        return A.make(k, n, kids[0], sl) if kids else A.make(k, n)
    raise ValueError(kind)


KINDS = ("list list tuple dict odict keys key_types object object rawobject oarray shape slice method reduce rawreduce getter "
         "rawgetter partial ddict attrs masked tree loss rs gen dtype set").split()


def spec_schema(r, row):
    n = len(row["par"])

    def mk(j):
        kids = [mk(c + 1) for c in range(n) if row["par"][c] == j]
        x = state_of(r.choice(KINDS), kids) if kids or r.random() < 0.3 else r.choice([lambda: J(1), LIST, lambda: TYPE("builtins.int"), DICT])()
        if row["id"][j - 1]:
            x["__id__"] = row["id"][j - 1]
        return x

    return mk(1)


# ---------------------------------------------------------------- cases
_BASE = []


def base():
    """archives written by dump: (schema, members, head, bytes)"""
    if not _BASE:
        warnings.simplefilter("ignore")
        w = V.wild()
        pool = {**samples.samples(), **natives(), **{k: w[k] for k in (
            "SL SD SDD ReduceArgs ReduceItems NT kdtree balltree metric scorer SA rec mstruct onested partialnest ag mc slots dttz "
            "E IE path bunch SRS poly csrattr doka mvoid oobj").split() if k in w}}
        for k in sorted(pool):
            for c in (zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_LZMA, zipfile.ZIP_BZIP2):
                try:
                    d = sio.dumps(pool[k], compression=c)
                except Exception:  # noqa: BLE001
                    break
                if len(d) > 150000 or (c and len(d) > 12000):
                    break
                s, m, proto = A.parts(d)
                _BASE.append((k, s, m, {"protocol": proto, "_skops_version": "0.11"}, d))
    return _BASE


def case(kind, seed, row=None):
    r = random.Random(f"{SEED}/{kind}/{seed}")
    if kind == "spec":
        s = spec_schema(r, row)
        d = A.archive(s, proto=2)
        what = f"spec {json.dumps(row['par'])} {json.dumps(row['id'])}"
    elif kind == "deep":
        s = deep(r, r.choice([30, 90, 150, 300, 600, 950])) if r.random() < 0.7 else dag(r, r.choice([10, 25, 60, 150]))
        d, what = A.archive(s, proto=r.choice([0, 1, 2, 2, 2])), "deep"
    elif kind == "text":
        k, s, m, h, _ = r.choice(base())
        d, what = rezip(text_damage(r, json.dumps({**s, **h})), m, r), f"text {k}"
    else:
        k, s, m, h, d = r.choice(base() if kind != "native" else [b for b in base() if b[0] in NATIVE])
        what = f"{kind} {k}"
        d = {"bytes": lambda: flip(r, d), "bytes2": lambda: flip(r, flip(r, flip(r, d))),
             "members": lambda: break_members(r, s, m, h), "schema": lambda: break_schema(r, s, m, h),
             "native": lambda: break_native(r, s, m, h)}[kind]()
    return {"what": f"{what} seed {SEED}/{kind}/{seed}", "data": d, "file": r.random() < 0.15}


def work(jobs):
    cases = [case(*j) for j in jobs]
    return [(c["what"], [e for e, _ in ev], [n for _, n in ev]) for c, ev in zip(cases, supervise(cases))]


def run_C19():
    ck = Check("C19", "model_checking",
               "schemas enumerated by TLC (trees with arbitrary identifiers, so cycles and shared nodes) made of states of "
               "every kind; damaged bytes, members, schemas and texts of archives of every kind; each read by every entry "
               "point in a process of its own")
    rows = spec_run(ck)
    r = random.Random(f"{SEED}/C19")
    base()
    global _FLAGS, _END
    _END = time.time() + (6000 if THOROUGH else 400)
    _FLAGS = str(common.scratch("c19"))
    n = 20 if THOROUGH else 1
    jobs = [("spec", j, row) for j, row in enumerate(rows * (4 if THOROUGH else 1))]
    jobs += [(k, j) for k, q in (("bytes", 2200), ("bytes2", 500), ("members", 2200), ("schema", 4500), ("native", 4000), ("text", 500), ("deep", 150))
             for j in range(q * n)]
    r.shuffle(jobs)
    size = max(10, min(200, len(jobs) // 64))
    res = [x for y in common.pmap(work, [jobs[k:k + size] for k in range(0, len(jobs), size)]) for x in y]
    ck.log(f"{len(jobs)} damaged archives")
    traces = [ev for _, ev, _ in res if ev]
    if not traces:
        raise MachineryError("nothing was run")
    info = [(w, ev, notes) for w, ev, notes in res if ev]
    bad, ne, states = validate("SkopsCorruptTrace", traces)
    ck.add("states", states)
    ck.add("archives", len(traces))
    ck.add("traces_validated_against_impl", len(traces))
    ck.add("runs", ne)
    ck.add("runs_ok", sum(e["out"] == "ok" for ev in traces for e in ev))
    ck.add("loads_ok", sum(e["out"] == "ok" and e["fn"] == "load" for ev in traces for e in ev))
    kinds = {}
    for _, ev, notes in info:
        for x in notes:
            kinds[x.split(":")[0]] = kinds.get(x.split(":")[0], 0) + 1
    ck.cov["exceptions"] = dict(sorted(kinds.items(), key=lambda p: -p[1])[:30])
    for row in bad:
        w, ev, notes = info[row["t"]]
        for cl in row["bad"]:
            ck.violation(cl, {"what": w, "event": ev[row["i"]]}, f"{w} | {ev[row['i']]['fn']} | {ev[row['i']]['files']}"
                         f"{ev[row['i']]['changed']} | {notes[row['i']]}")
    ck.cov["samples"] = [info[0][0], info[-1][0]]
    ck.assumptions = [f"an operation terminates promptly when it ends within {LIMIT} s (the archives are below 60 kB)",
                      "names in damaged archives are replaced by harmless ones only, as the trusted list is the reported one"]
    return ck.finish()
