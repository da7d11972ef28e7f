"""Observing what code does while it inspects or loads an archive.

Dangerous operations are recorded and stopped (the audit hook raises), so that nothing an archive
asks for really happens."""
from __future__ import annotations

import builtins
import collections
import functools
import importlib
import io
import json
import os
import sys
import types

import archives as A
import numpy as np
import scipy.sparse as sp

SAFE_TYPES = {type(None), bool, int, float, str, bytes, complex, type(Ellipsis), type(NotImplemented)}
STOP = ("open", "exec", "os.", "subprocess.", "socket.", "ctypes.", "shutil.", "tempfile.",
        "pty.", "webbrowser.", "marshal.", "pickle.", "code.", "urllib.", "ftplib.", "http.",
        "smtplib.", "sqlite3.", "mmap.", "fcntl.", "signal.", "syslog.", "resource.", "glob.",
        "builtins.input", "builtins.breakpoint", "cpython.run", "sys.addaudithook",
        "sys._getframe_DISABLED", "sys.settrace", "sys.setprofile", "winreg.", "msvcrt.", "nntplib.", "telnetlib.",
        "poplib.", "imaplib.", "ensurepip.", "gc.", "time.sleep", "pdb.", "setopencodehook")


IMPORTERS = (importlib.import_module, builtins.__import__)


class Stopped(RuntimeError):
    pass


class Watch:
    def __init__(self, skops_io):
        self.on = False
        self.fx = []
        self.mods = set()
        self.ok_paths = []
        self.prefix = skops_io
        self.calls = []
        self.targets = {}
        sys.addaudithook(self.hook)
        sys.meta_path.insert(0, self)
        m = sys.monitoring
        m.use_tool_id(4, "verif")
        m.register_callback(4, m.events.CALL, self.called)
        self.busy = False
        self.imports = False  # also record imports of modules which are there already
        self.foreign = set()

    # -- import system
    def find_spec(self, name, path=None, target=None):
        if self.on and name in self.mods:
            A.LEDGER.rec.append(["import", name])
        return None

    def invalidate_caches(self):
        pass

    # -- audit
    def hook(self, event, args):
        if not self.on or self.busy or not event.startswith(STOP):
            return
        self.busy = True
        try:
            if self.benign(event, args):
                return
            self.fx.append([event, repr(args)[:200]])
        finally:
            self.busy = False
        raise Stopped(event)

    def benign(self, event, args):
        if event == "open":
            p = args[0]
            if isinstance(p, int):
                return False
            p = os.fsdecode(p) if isinstance(p, (str, bytes, os.PathLike)) else ""
            w = args[1] and any(c in str(args[1]) for c in "wax+")
            return not w and p.startswith(tuple(self.ok_paths))
        if event in ("exec",):
            f = getattr(args[0], "co_filename", "")
            return f.startswith(tuple(self.ok_paths))
        if event.startswith("marshal."):
            return True  # reading byte code; what is done with it is seen as exec
        if event in ("os.listdir", "os.scandir") and self.import_path(args):
            return True
        if event in ("gc.get_objects", "gc.get_referrers", "gc.get_referents"):
            return False
        return False

    def import_path(self, args):
        p = args[0] if args else None
        return isinstance(p, str) and (p in sys.path or p.startswith(tuple(self.ok_paths)))

    # -- calls made by skops itself
    def called(self, code, off, callable_, arg0):
        if not self.on or not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE if not code.co_filename.startswith(self.prefix) else None
        if self.imports and callable_ in IMPORTERS and isinstance(arg0, str) and arg0 in self.foreign:
            A.LEDGER.rec.append(["import", arg0])
        n = self.targets.get(id(callable_))
        if n is not None and getattr(callable_, "__name__", "") not in code.co_names:
            A.LEDGER.rec.append(["call", n])

    # -- one observed run
    def run(self, fn, names=()):
        """fn() observed; `names`: the names occurring in the archive and the trusted list"""
        self.fx = []
        A.LEDGER.rec = []
        self.mods = {m for n in names for m in prefixes(A.split(n)[0])}
        self.targets = {}
        self.foreign = {A.split(n)[0] for n in names if A.family(n) == "none"}
        for n in names:
            o = A.resolve(n)
            if o is not None and callable(o) and not isinstance(o, type(builtins)):
                self.targets.setdefault(id(o), n)
        before = set(sys.modules)
        res, exc = None, None
        sys.monitoring.set_events(4, sys.monitoring.events.CALL)
        self.on = True
        try:
            res = fn()
            out = "ok"
        except BaseException as e:  # noqa: BLE001
            out, exc = "raise", e
        finally:
            self.on = False
            sys.monitoring.set_events(4, 0)
        for m in sorted(set(sys.modules) - before):
            if m in self.mods:
                A.LEDGER.rec.append(["import", m])
        led, seen = [], set()
        for r in A.LEDGER.rec:
            if tuple(r) not in seen:
                seen.add(tuple(r))
                led.append(r)
        return out, res, exc, led, list(self.fx)


def prefixes(m):
    p = m.split(".")
    return {".".join(p[:k]) for k in range(1, len(p) + 1)}


def qual(o):
    try:
        return f"{getattr(o, '__module__', None)}.{getattr(o, '__name__', type(o).__name__)}"
    except Exception:  # noqa: BLE001
        return f"{type(o).__module__}.{type(o).__name__}"


def has(o, name):
    try:
        return hasattr(o, name)
    except Exception:  # noqa: BLE001  (objects with broken state)
        return False


def returned(obj, limit=3000):
    """types of the objects, and functions, types, methods and modules in a returned value:
    list of (how, object, its own name)"""
    out, seen, todo = [], {}, [obj]
    while todo and len(seen) < limit:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen[id(o)] = o
        t = type(o)
        if t in SAFE_TYPES:
            continue
        if isinstance(o, types.MethodType):
            out.append(("method", o, f"{o.__module__}.method"))
            todo.append(o.__self__)
            continue
        if isinstance(o, types.ModuleType):
            out.append(("module", o, o.__name__))
            continue
        if isinstance(o, types.GenericAlias):
            todo += [o.__origin__, *o.__args__]
            continue
        if isinstance(o, type):
            out.append(("type", o, qual(o)))
            continue
        if isinstance(o, np.ufunc) or isinstance(o, (types.FunctionType, types.BuiltinFunctionType)) or (
                callable(o) and has(o, "__name__") and has(o, "__qualname__")):
            out.append(("function", o, qual(o)))
            continue
        out.append(("instance", t, qual(t)))
        if isinstance(o, functools.partial):
            todo += [o.func, o.args, o.keywords]
        elif isinstance(o, dict):
            todo += list(dict.keys(o)) + list(dict.values(o))
            if isinstance(o, collections.defaultdict):
                todo.append(o.default_factory)
        elif isinstance(o, (list, tuple)):
            todo += list((list if isinstance(o, list) else tuple).__iter__(o))
        elif isinstance(o, (set, frozenset)):
            todo += list((set if isinstance(o, set) else frozenset).__iter__(o))
        elif isinstance(o, slice):
            todo += [o.start, o.stop, o.step]
        elif isinstance(o, np.ndarray):
            if isinstance(o, np.ma.MaskedArray):
                todo += [o.data, o.mask]
                continue
            if o.dtype == object:
                todo += list(o.ravel())
            if t is np.ndarray:
                continue
        if t.__module__.startswith(("numpy", "scipy", "_loss", "sklearn.tree._tree")):
            continue
        try:
            d = object.__getattribute__(o, "__dict__")
        except Exception:  # noqa: BLE001
            d = None
        if isinstance(d, dict):
            todo += list(d.values())
        if isinstance(o, (np.random.RandomState, np.random.Generator)):
            continue
    return out


def uses(out, res, led, names, own=()):
    """facts for the specification about what a load used"""
    rows = []

    def add(how, ns, fam):
        rows.append({"how": how, "names": sorted({A_esc(n) for n in ns}), "fam": fam,
                     "made": how.startswith("returned")})

    by_id = {}
    for x in names:
        o = A.resolve(x)
        if o is not None:
            by_id.setdefault(id(o), []).append(x)
    for what, n in led:
        if what == "import":
            # a module may be imported for a name in it
            of = [x for x in names if n in prefixes(A.split(x)[0])]
            fam = next((A.family(x) for x in of if A.family(x) != "none" and not x.startswith("vcan")), "none")
            add("import", of, fam)
        elif what == "property":
            add(what, [n, n.rpartition(".")[0]], "none")
        elif what == "call" and n.endswith(".__setstate__"):
            add(what, [n.rpartition(".")[0]], "none")
        else:
            o = A.resolve(n)
            add(what, [n, *(by_id.get(id(o), []) if o is not None else [])], A.family(n) if not n.startswith("vcan") else "none")
    if out == "ok":
        for how, o, n in returned(res):
            fam = fam_obj(o)
            if fam == "none":
                add("returned-" + how, [n, *by_id.get(id(o), [])], fam)
    # identical facts once
    uniq = {json.dumps(r, sort_keys=True): r for r in rows}
    return [uniq[k] for k in sorted(uniq)]


def A_esc(s):
    from common import esc

    return esc(s)


def fam_obj(o):
    if o in SAFE_TYPES:
        return "primitive"
    try:
        f = A.family_of(o)
    except TypeError:
        return "none"
    return f
