"""Importable classes and functions used as values by the checks."""
from __future__ import annotations


class Plain:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def method(self, x=1):
        return x


class Slots:
    __slots__ = ("a", "b")

    def __init__(self, a=1, b=2):
        self.a, self.b = a, b


class GetSet:
    """state differs from __dict__"""

    def __init__(self, v):
        self.v = v

    def __getstate__(self):
        return {"w": [self.v]}

    def __setstate__(self, s):
        self.v = s["w"][0]


class Refuses:
    """pickles, but taking its state for skops fails"""

    armed = True
    exc = ValueError

    def __init__(self, exc="ValueError"):
        self.kind = exc

    def __getstate__(self):
        if Refuses.armed:
            raise {"ValueError": ValueError, "KeyError": KeyError, "MemoryError": MemoryError,
                   "RuntimeError": RuntimeError, "KeyboardInterrupt": KeyboardInterrupt,
                   "TypeError": TypeError, "AttributeError": AttributeError}[self.kind]("refused")
        return {"kind": self.kind}

    def __setstate__(self, s):
        self.kind = s["kind"]


def fun(x=1):
    return x


class Fresh:
    """its state is made anew, of many temporary objects, whenever it is asked for"""

    def __init__(self, n, *kids):
        self.n, self.kids, self.bad = n, list(kids), False

    def temporaries(self):
        import collections
        import functools
        import gc

        import numpy as np
        import scipy.sparse as sp

        n = self.n
        if n % 7 == 0:
            gc.collect()
        kinds = [
            lambda j: np.full(2, n + j), lambda j: [n, j], lambda j: {"n": n, "j": [j]}, lambda j: (n, [j]),
            lambda j: sp.csr_matrix(np.full((1, 1), n + j)), lambda j: {n, n + j}, lambda j: bytearray([n % 256, j]),
            lambda j: Plain(n=n, j=j), lambda j: np.ma.array([n, j], mask=[j % 2, 0]), lambda j: slice(n, j),
            lambda j: collections.OrderedDict(a=n, b=j), lambda j: functools.partial(fun, x=[n, j]),
            lambda j: np.array([[n], None, j], dtype=object), lambda j: str(n) * 3 + str(j), lambda j: float(n + j),
            lambda j: np.random.RandomState(n + j), lambda j: np.float64(n + j), lambda j: {n: j, float(j) + 0.5: [n]},
        ]  # fmt: skip
        k = kinds[n % len(kinds)]
        res = [k(j) for j in range(3)]
        kinds[(n + 5) % len(kinds)](1)
        return res

    def __getstate__(self):
        return {"n": self.n, "kids": list(self.kids), "tmp": self.temporaries(), "more": {"x": self.temporaries()}}

    def __setstate__(self, s):
        from project import term

        self.n, self.kids = s["n"], s["kids"]
        want = term(self.temporaries())
        self.bad = term(s["tmp"]) != want or term(s["more"]) != term({"x": self.temporaries()})


class Params:
    """rebuilt from arguments that are made anew"""

    def __init__(self, n, kids):
        self.n, self.kids = n, kids

    def __reduce__(self):
        return Params, (self.n, self.kids)


def first_columns(X):
    return [0, 1]
