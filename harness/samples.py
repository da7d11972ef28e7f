"""Objects that dump supports, of every kind of node: sources of archives for the checks."""
from __future__ import annotations

import collections
import datetime
import decimal
import functools
import operator

import numpy as np
import scipy.sparse as sp
import scipy.special
import vtypes
from sklearn.compose import ColumnTransformer
from sklearn.ensemble import GradientBoostingClassifier, HistGradientBoostingRegressor
from sklearn.linear_model import LogisticRegression, SGDClassifier
from sklearn.model_selection import GridSearchCV
from sklearn.neighbors import KNeighborsClassifier
from sklearn.pipeline import FeatureUnion, make_pipeline
from sklearn.preprocessing import FunctionTransformer, StandardScaler
from sklearn.tree import DecisionTreeClassifier
from sklearn.utils import Bunch


def data(seed=0):
    r = np.random.RandomState(seed)
    X = r.rand(24, 4)
    return X, (X[:, 0] + X[:, 1] > 1).astype(int)


def samples():
    X, y = data()
    shared = [1, 2]
    arr = np.arange(4.0)
    oa = np.empty((2, 2), dtype=object)
    oa[0, 0], oa[0, 1], oa[1, 0], oa[1, 1] = [1], "a", None, (2, [3])
    plain = vtypes.Plain(a=1, key_types=[1], content={"x": 2}, b=vtypes.Plain(c=vtypes.fun))
    rs = np.random.RandomState(2)
    rs.rand(3)
    return {
        "int": 3, "none": None, "str": "é[red]\n", "float": 1.5, "list": [1, [2.0, ["x"]]],
        "tuple": (1, (), (2,)), "set": {1, "a"}, "frozenset": frozenset({1}),
        "dict": {"a": 1, "b": {"c": [1]}, "k d": 2}, "dictkeys": {1: "a", "1": "b", None: 2},
        "intkeys": {1: 2, 2.5: 3, np.int64(3): 4}, "dictattr": Bunch(a=1, b=[2]),
        "odict": collections.OrderedDict(a=1, b=2), "ddict": collections.defaultdict(list, a=[1]),
        "bytes": b"ab", "bytearray": bytearray(b"ab"), "slice": slice(1, None, 2),
        "slicenp": slice(np.int64(1), 2), "type": [int, np.float64, dict, vtypes.Plain],
        "funcs": [np.sqrt, scipy.special.expit, vtypes.fun, np.mean, len],
        "partial": functools.partial(vtypes.fun, 3, x=None) if False else functools.partial(vtypes.fun, x=3),
        "ops": [operator.attrgetter("a.b"), operator.itemgetter(1, 2), operator.methodcaller("f", 1)],
        "array": arr, "arrayF": np.asfortranarray(np.arange(6).reshape(2, 3)), "array0": np.array(3),
        "objarray": oa, "scalar": [np.float32(1.5), np.int8(3), np.bool_(True), np.str_("a")],
        "struct": np.array([(1, 2.0)], dtype=[("a", "i4"), ("b", "f8")]),
        "masked": np.ma.array([1, 2, 3], mask=[0, 1, 0], fill_value=9), "dtype": np.dtype("f4"),
        "sdtype": np.dtype([("a", "i2")]), "rs": rs, "gen": np.random.default_rng(3),
        "rspcg": np.random.RandomState(np.random.PCG64(1)),
        "csr": sp.csr_matrix(np.eye(3)), "coo": sp.coo_matrix(np.eye(3)), "dia": sp.dia_array(np.eye(2)),
        "shared": [shared, shared, {"s": shared, "arr": arr, "arr2": arr}],
        "decimal": [decimal.Decimal("1.5"), datetime.datetime(2020, 1, 2)],
        "plain": plain, "getset": vtypes.GetSet(3), "method": plain.method,
        "methods": [plain.method, LogisticRegression().fit(X, y).predict],
        "custom": [vtypes.Plain(z=vtypes.GetSet([vtypes.Plain()])), {"q": vtypes.fun}],
        "lr": LogisticRegression().fit(X, y), "unfitted": StandardScaler(),
        "tree": DecisionTreeClassifier(max_depth=2, random_state=0).fit(X, y),
        "sgd": SGDClassifier(loss="modified_huber", random_state=0).fit(X, y),
        "hgb": HistGradientBoostingRegressor(max_iter=2, random_state=0).fit(X, y),
        "gb": GradientBoostingClassifier(n_estimators=2, random_state=0).fit(X, y),
        "knn": KNeighborsClassifier(algorithm="kd_tree").fit(X, y),
        "pipe": make_pipeline(StandardScaler(), LogisticRegression()).fit(X, y),
        "union": FeatureUnion([("a", StandardScaler()), ("b", FunctionTransformer(np.sqrt))]).fit(X),
        "ct": ColumnTransformer([("a", StandardScaler(), slice(0, 2)), ("b", "passthrough", [2])]).fit(X),
        "search": GridSearchCV(LogisticRegression(), {"C": [0.1, 1.0]}, cv=2).fit(X, y),
        "ft": FunctionTransformer(vtypes.fun), "ftpartial": FunctionTransformer(functools.partial(np.power, 2)),
    }


def estimators():
    """fitted estimators of (nearly) every class of scikit-learn"""
    from sklearn.utils import all_estimators

    X, y = data(1)
    res = {}
    for name, cls in all_estimators():
        try:
            e = cls()
            if "random_state" in e.get_params():
                e.set_params(random_state=0)
            if "n_estimators" in e.get_params():
                e.set_params(n_estimators=2)
            if "max_iter" in e.get_params():
                e.set_params(max_iter=10)
            e.fit(X, y)
        except Exception:  # noqa: BLE001  (meta-estimators, other kinds of data)
            continue
        res["fit-" + name] = e
    return res
