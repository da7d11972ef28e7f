"""C07: estimators and compositions of them, through their life and reloaded, against spec/SkopsEstimator*.tla."""
from __future__ import annotations

import collections
import copyreg
import functools
import json
import numbers
import operator
import pickle
import random
import signal
import time
import traceback
import warnings

import common
import numpy as np
import project
import scipy.sparse as sp
import scipy.special
import vtypes
from common import SEED, THOROUGH, Check, MachineryError, esc, tlc, validate
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin, TransformerMixin, clone
from sklearn.utils import all_estimators

import skops.io as sio

CALLS = ["predict", "predict_proba", "predict_log_proba", "decision_function", "transform", "score_samples",
         "inverse_transform", "kneighbors", "apply", "get_feature_names_out", "decision_path", "sample", "score"]


# ---------------------------------------------------------------- what is trusted by default
def _default_types():
    from sklearn._loss import _loss
    from sklearn.linear_model import _sgd_fast
    from sklearn.tree._tree import Tree

    s = {type(None), bool, int, float, str, list, tuple, set, dict, slice, bytes, bytearray, collections.OrderedDict,
         collections.defaultdict, np.ndarray, np.ma.MaskedArray, np.random.RandomState, np.random.Generator, Tree}
    s |= {t for t in np.sctypeDict.values()}
    s |= {c for _, c in all_estimators() if c.__module__.startswith("sklearn.")}
    for n in ("EpsilonInsensitive Hinge ModifiedHuber SquaredEpsilonInsensitive SquaredHinge Huber Log SquaredLoss").split():
        if hasattr(_sgd_fast, n):
            s.add(getattr(_sgd_fast, n))
    s |= {v for n, v in vars(_loss).items() if n.startswith("Cy") and isinstance(v, type) and n not in ("CyLossFunction",)}
    return s


DEFAULT = _default_types()
TYPES = {int, float, str, bool, list, set, map, tuple} | set(np.sctypeDict.values())
UFUNCS = {id(v) for m in (np, scipy.special) for k in dir(m) if isinstance(v := getattr(m, k), np.ufunc)}


def foreign(obj):
    """the kinds of parts of an object which are not trusted by default"""
    res, seen, keep, todo = set(), set(), [], [obj]
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        keep.append(o)
        t = type(o)
        if isinstance(o, np.ufunc):
            if id(o) not in UFUNCS:
                res.add(repr(o))
        elif isinstance(o, type):
            if o not in TYPES:
                res.add(f"type {project.tname(o)}")
        elif t not in DEFAULT:
            res.add(project.tname(t))
        elif t in (list, tuple, set):
            todo += list(o)
        elif isinstance(o, dict):
            todo += list(o.keys()) + list(o.values())
            if t is collections.defaultdict:
                todo.append(o.default_factory)
        elif t is np.ndarray:
            if o.dtype.hasobject:
                todo += list(o.ravel()) if o.dtype == object else ["?"]
        elif t is slice:
            todo += [o.start, o.stop, o.step]
        elif isinstance(o, (BaseEstimator, *(c for c in DEFAULT if c.__module__.startswith("sklearn.")))):
            if isinstance(o, BaseEstimator):
                # what __getstate__ adds is the version, a string
                todo.append({k: v for k, v in vars(o).items()})
            else:
                r = o.__reduce__()
                todo += list(r[1][1:]) if r[0] is not t else list(r[1])
                todo += [x for x in r[2:] if x is not None]
        elif t in (np.random.RandomState, np.random.Generator, np.ma.MaskedArray) and getattr(o, "__dict__", None):
            if t is not np.ma.MaskedArray:
                todo.append(vars(o))
    return sorted(res)


# ---------------------------------------------------------------- data
def data(kind, seed=0):
    """(X, y, X for the calls)"""
    r = np.random.RandomState(100 + seed)
    X = r.rand(36, 4)
    Z = r.rand(9, 4)
    yc = (X[:, 0] + X[:, 1] > 1).astype(int)
    yc[:3] = [0, 1, 0]
    k = kind.split(".")
    y = {
        "bin": yc, "multi": np.arange(36) % 3, "str": np.array(["no", "yé"])[yc], "obj": np.array(["no", "yé"], dtype=object)[yc],
        "bool": yc.astype(bool), "float": X[:, 0] * 2 + X[:, 1] + r.rand(36) * 0.1, "f32": (X[:, 0] * 2).astype("f4"),
        "mo": np.c_[X[:, 0] * 2, X[:, 1] + 1], "moc": np.c_[yc, np.arange(36) % 3], "ml": np.c_[yc, 1 - yc, (X[:, 3] > 0.5)].astype(int),
        "pos": np.round(X[:, 0] * 5) + 1, "none": None, "i8": (np.arange(36) % 3).astype("i1"), "pm": yc * 2 - 1, "big": yc * 10**12 + 5,
    }[k[1]]  # fmt: skip
    q = k[0]
    if q == "csr":
        X, Z = sp.csr_matrix(np.where(X > 0.6, X, 0)), sp.csr_matrix(np.where(Z > 0.6, Z, 0))
    elif q == "csc":
        X, Z = sp.csc_matrix(np.where(X > 0.6, X, 0)), sp.csr_matrix(np.where(Z > 0.6, Z, 0))
    elif q == "csra":
        X, Z = sp.csr_array(np.where(X > 0.6, X, 0)), sp.csr_array(np.where(Z > 0.6, Z, 0))
    elif q == "f32":
        X, Z = X.astype("f4"), Z.astype("f4")
    elif q == "F":
        X, Z = np.asfortranarray(X), np.asfortranarray(Z)
    elif q == "int":
        X, Z = (X * 4).astype(int), (Z * 4).astype(int)
    elif q == "nan":
        X = X.copy()
        X[::5, 1] = np.nan
        Z = Z.copy()
        Z[0, 2] = np.nan
    elif q == "cat":
        X = np.array([[f"a{int(v * 3)}" for v in row] for row in X], dtype=object)
        Z = X[5:14]
    elif q == "catn":
        X = np.array([[f"a{int(v * 3)}", int(w * 3)] for v, w, *_ in X], dtype=object)
        Z = X[5:14]
    elif q == "text":
        X = [" ".join(["spam eggs ham", "Ünï code, text!", "eggs; eggs 42", "the cat"][int(v * 4)] for v in row) for row in X]
        Z = X[3:8]
    elif q == "dicts":
        X = [{"a": float(a), "b": f"v{int(b * 3)}", "c": int(c * 2)} for a, b, c, _ in X]
        Z = X[3:8]
    elif q == "df":
        import pandas as pd

        X, Z = (pd.DataFrame(M, columns=["a", "b", "c é", "d"]) for M in (X, Z))
    elif q == "1d":
        X, Z = X[:, 0], Z[:, 0]
    elif q == "labels":
        X, Z = y, y[:7]
    elif q == "labels1":
        return y, None, y[:7]
    elif q == "sets":
        X = [{"a", "b"} if v else {"c"} for v in yc]
        return X, None, X[:5]
    elif q == "img":
        X, Z = r.rand(5, 8, 8), r.rand(2, 8, 8)
        return X, None, Z
    elif q == "kernel":
        return X @ X.T, y, Z @ X.T
    elif q == "dist":
        d = ((X[:, None] - X[None]) ** 2).sum(-1)
        return d, y, ((Z[:, None] - X[None]) ** 2).sum(-1)
    elif q == "one":
        X, Z = X[:, :1], Z[:, :1]
    elif q == "wide":
        X, Z = r.rand(36, 12), r.rand(9, 12)
    elif q == "poly":
        X, Z = np.c_[X[:, :2]], Z[:, :2]
    return X, y, Z


FITS = ["dense.bin", "dense.float", "dense.multi", "dense.none", "csr.bin", "csr.float", "f32.bin", "f32.f32", "F.float", "int.pos",
        "dense.str", "dense.obj", "dense.bool", "dense.mo", "dense.moc", "dense.ml", "nan.bin", "nan.float", "df.bin", "df.float",
        "dense.i8", "dense.pm", "dense.big", "csc.float", "csra.bin", "cat.bin", "catn.bin", "text.bin", "dicts.bin", "1d.float",
        "labels1.str", "labels1.multi", "sets.bin", "img.none", "kernel.bin", "one.float", "wide.bin", "wide.float"]  # fmt: skip


# ---------------------------------------------------------------- estimators
class OwnTransformer(TransformerMixin, BaseEstimator):
    def __init__(self, k=1):
        self.k = k

    def fit(self, X, y=None):
        self.seen_ = {1: np.asarray(X)[:2].copy(), "n": X.shape[0]}
        return self

    def transform(self, X):
        return np.asarray(X) * self.k


def shift(X):
    return X + 1


vtypes.OwnTransformer = OwnTransformer
OwnTransformer.__module__ = "vtypes"
vtypes.shift = shift
shift.__module__ = "vtypes"


def quick(e, r, depth=0):
    """keep it small, make it repeatable"""
    p = e.get_params(deep=False)
    new = {}
    for k, v in (("n_estimators", 3), ("max_iter", 15), ("cv", 2), ("n_init", 1), ("n_jobs", None), ("n_restarts_optimizer", 0),
                 ("max_depth", 3), ("n_quantiles", 10), ("n_repeats", 1)):
        if k in p and p[k] is not None and (k != "cv" or isinstance(p[k], (int, type(None)))):
            new[k] = v
    if "random_state" in p and p["random_state"] is None:
        new["random_state"] = r.choice([0, 7])
    try:
        e.set_params(**new)
    except Exception:  # noqa: BLE001
        pass
    return e


def make_default(cls, r):
    from sklearn.linear_model import LogisticRegression, Ridge
    from sklearn.preprocessing import StandardScaler

    req = getattr(cls, "_required_parameters", [])
    n = cls.__name__
    if not req:
        kw = {}
        if n == "SparseCoder":
            kw = {"dictionary": np.eye(4)}
        return cls(**kw)
    if n == "ColumnTransformer":
        return cls([("a", StandardScaler(), [0, 1]), ("b", "passthrough", [2])])
    if n == "Pipeline":
        return cls([("a", StandardScaler()), ("b", LogisticRegression())])
    if n == "FeatureUnion":
        return cls([("a", StandardScaler())])
    if n == "SparseCoder":
        return cls(dictionary=np.eye(4))
    reg = issubclass(cls, RegressorMixin)
    if "estimators" in req:
        return cls([("a", Ridge()), ("b", Ridge(alpha=3.0))] if reg else [("a", LogisticRegression()), ("b", LogisticRegression(C=2.0))])
    e = Ridge() if reg else LogisticRegression()
    kw = {"estimator": e} if "estimator" in req or "base_estimator" in req else {}
    if n in ("GridSearchCV", "HalvingGridSearchCV"):
        kw["param_grid"] = {"C": [0.5, 2.0]}
    elif n in ("RandomizedSearchCV", "HalvingRandomSearchCV"):
        kw.update(param_distributions={"C": [0.5, 2.0, 3.0]})
    return cls(**kw)


def draw(r, c, name, n_features=4):
    """a value allowed by one constraint of _parameter_constraints, or raise LookupError"""
    from sklearn.utils import _param_validation as pv

    if isinstance(c, pv.Hidden):
        c = c.constraint
    if c is None:
        return None
    if isinstance(c, str):
        if c == "boolean":
            return r.choice([True, False])
        if c == "random_state":
            return r.choice([0, 3, lambda: np.random.RandomState(5), lambda: np.random.RandomState(np.random.PCG64(5))])
        if c == "cv_object":
            from sklearn.model_selection import KFold, ShuffleSplit, StratifiedKFold

            return r.choice([2, 3, KFold(2), StratifiedKFold(2), ShuffleSplit(2, random_state=1)])
        if c == "verbose":
            return 0
        raise LookupError
    if isinstance(c, pv.Interval):
        lo, hi, typ = c.left, c.right, c.type
        if typ is numbers.Integral:
            a = (lo if lo is not None else 0) + (0 if c.closed in ("left", "both") else 1)
            v = a + r.choice([0, 1, 1, 2, 3, 5, 10])
            if hi is not None and v > hi:
                v = a
            return r.choice([int, int, int, np.int64, np.int32])(v)
        a = 0.0 if lo is None or np.isinf(lo) else float(lo)
        b = a + 2.0 if hi is None or np.isinf(hi) else float(hi)
        v = r.choice([a + (b - a) * x for x in (0.01, 0.1, 0.3, 0.5, 0.9)] + ([a] if c.closed in ("left", "both") else [])
                     + ([b] if c.closed in ("right", "both") else []))
        return r.choice([float, float, float, np.float64, np.float32])(v)
    if isinstance(c, pv.StrOptions):
        return r.choice(sorted(set(c.options) - set(getattr(c, "deprecated", ()))))
    if isinstance(c, pv.MissingValues):
        return r.choice([np.nan, -1])
    if isinstance(c, pv.Options):
        return r.choice(sorted(c.options, key=repr))
    if c is dict or c is callable or isinstance(c, pv.HasMethods) or not isinstance(c, type):
        raise LookupError
    if c in (bool, str, list, tuple):
        raise LookupError
    if c is np.random.RandomState:
        return lambda: np.random.RandomState(4)
    raise LookupError


SKIP = {"estimator", "estimators", "steps", "transformers", "transformer_list", "base_estimator", "verbose", "n_jobs", "memory", "copy_X",
        "n_estimators", "max_iter", "cache_size", "pre_dispatch", "tol", "verbose_interval", "max_leaf_nodes_", "n_epochs"}


def drawn(cls, e, r):
    """parameters changed at random: {name: value or a function that makes it}"""
    cons = getattr(cls, "_parameter_constraints", {})
    names = [k for k in sorted(cons) if k not in SKIP and k in e.get_params(deep=False)]
    res = {}
    if not names:
        return res
    for k in r.sample(names, min(len(names), r.choice([1, 1, 2, 2, 3, 5]))):
        cs = cons[k]
        if not isinstance(cs, list):
            continue
        cs = list(cs)
        r.shuffle(cs)
        for c in cs:
            try:
                res[k] = draw(r, c, k)
                break
            except LookupError:
                continue
    return res


def valid(e):
    from sklearn.utils._param_validation import InvalidParameterError

    try:
        e._validate_params()
        return True
    except InvalidParameterError:
        return False
    except Exception:  # noqa: BLE001
        return True


def now(p):
    return {k: v() if callable(v) and getattr(v, "__name__", "") == "<lambda>" else v for k, v in p.items()}


def curated():
    """name -> (make, data)"""
    import sklearn
    from sklearn import (
        calibration,
        cluster,
        compose,
        covariance,
        decomposition,
        discriminant_analysis,
        dummy,
        ensemble,
        feature_extraction,
        feature_selection,
        gaussian_process,
        impute,
        isotonic,
        kernel_approximation,
        kernel_ridge,
        linear_model,
        manifold,
        mixture,
        model_selection,
        multiclass,
        multioutput,
        naive_bayes,
        neighbors,
        neural_network,
        pipeline,
        preprocessing,
        random_projection,
        svm,
        tree,
    )
    from sklearn.experimental import enable_halving_search_cv, enable_iterative_imputer  # noqa: F401
    from sklearn.gaussian_process import kernels as gk

    lm, pp, nb, en = linear_model, preprocessing, neighbors, ensemble
    LR = lm.LogisticRegression
    c = {}

    def add(f, *ds, name=None):
        for d in ds or ["dense.bin"]:
            c[f"{name or len(c)}/{d}"] = (f, d)

    for loss in ("hinge log_loss modified_huber squared_hinge perceptron squared_error huber epsilon_insensitive "
                 "squared_epsilon_insensitive").split():
        for d in ("dense.bin", "dense.multi", "csr.bin"):
            add(lambda loss=loss: lm.SGDClassifier(loss=loss, max_iter=5, random_state=0, average=loss == "hinge"), d, name=f"sgdc-{loss}")
    for loss in "squared_error huber epsilon_insensitive squared_epsilon_insensitive".split():
        add(lambda loss=loss: lm.SGDRegressor(loss=loss, max_iter=5, random_state=0), "dense.float", name=f"sgdr-{loss}")
    for loss in "squared_error absolute_error huber quantile".split():
        add(lambda loss=loss: en.GradientBoostingRegressor(loss=loss, n_estimators=3, random_state=0), "dense.float", name=f"gbr-{loss}")
    for loss in "log_loss exponential".split():
        add(lambda loss=loss: en.GradientBoostingClassifier(loss=loss, n_estimators=3, random_state=0), "dense.bin", name=f"gbc-{loss}")
    add(lambda: en.GradientBoostingClassifier(init=LR(), n_estimators=3, random_state=0, n_iter_no_change=2, warm_start=True), "dense.multi", "csr.bin")
    add(lambda: en.GradientBoostingRegressor(init="zero", n_estimators=3, subsample=0.5, random_state=np.random.RandomState(1)), "dense.float")
    for loss in "squared_error absolute_error gamma poisson quantile".split():
        add(lambda loss=loss: en.HistGradientBoostingRegressor(loss=loss, quantile=0.3 if loss == "quantile" else None, max_iter=3), "int.pos",
            name=f"hgbr-{loss}")
    add(lambda: en.HistGradientBoostingClassifier(max_iter=3, early_stopping=True, random_state=0, n_iter_no_change=2), "dense.bin", "nan.bin")
    add(lambda: en.HistGradientBoostingClassifier(max_iter=3, categorical_features=[0, 2], monotonic_cst=[0, 1, 0, -1]), "int.pos", "dense.bin")
    add(lambda: en.HistGradientBoostingClassifier(max_iter=2, interaction_cst="pairwise", max_features=0.5, random_state=2), "dense.multi")
    add(lambda: en.HistGradientBoostingClassifier(max_iter=2, interaction_cst=[{0, 1}, {2, 3}], class_weight={0: 1.0, 1: 2.0}), "dense.bin")
    for crit in "squared_error friedman_mse absolute_error poisson".split():
        add(lambda crit=crit: tree.DecisionTreeRegressor(criterion=crit, max_depth=3, random_state=0), "dense.float", "dense.mo", name=f"dtr-{crit}")
    for crit in "gini entropy log_loss".split():
        add(lambda crit=crit: tree.DecisionTreeClassifier(criterion=crit, splitter="random", random_state=0, min_samples_leaf=np.float64(0.1)),
            "dense.bin", "dense.moc", "csr.bin", "nan.bin", name=f"dtc-{crit}")
    add(lambda: tree.DecisionTreeClassifier(ccp_alpha=0.01, class_weight={"no": 1, "yé": 3.5}, monotonic_cst=np.array([0, 1, 0, 0])), "dense.str", "dense.obj")
    add(lambda: tree.DecisionTreeClassifier(max_leaf_nodes=3, class_weight=[{0: 1, 1: 2}, {0: 1, 1: 1, 2: 4}]), "dense.moc")
    add(lambda: en.RandomForestClassifier(n_estimators=3, oob_score=True, bootstrap=True, random_state=0, class_weight="balanced_subsample"),
        "dense.bin", "dense.str", "dense.moc")
    add(lambda: en.RandomForestRegressor(n_estimators=3, criterion="poisson", max_samples=0.5, random_state=np.random.RandomState(3)), "int.pos")
    add(lambda: en.ExtraTreesRegressor(n_estimators=2, random_state=0, max_features="sqrt"), "dense.mo", "nan.float")
    add(lambda: en.RandomTreesEmbedding(n_estimators=2, random_state=0), "dense.none")
    add(lambda: en.IsolationForest(n_estimators=2, random_state=0, contamination=0.1), "dense.none", "csr.bin")
    add(lambda: en.AdaBoostClassifier(LR(), n_estimators=2, algorithm="SAMME", random_state=0), "dense.bin", "dense.multi")
    add(lambda: en.AdaBoostRegressor(loss="square", n_estimators=2, random_state=0), "dense.float")
    add(lambda: en.BaggingClassifier(svm.LinearSVC(), n_estimators=2, max_features=0.5, oob_score=False, random_state=0), "dense.bin", "csr.bin")
    for alg in "kd_tree ball_tree brute auto".split():
        for m, kw in (("minkowski", {"p": 3}), ("euclidean", {}), ("manhattan", {}), ("chebyshev", {})):
            add(lambda alg=alg, m=m, kw=kw: nb.KNeighborsClassifier(3, algorithm=alg, metric=m, leaf_size=5, **kw), "dense.bin", "dense.str",
                name=f"knn-{alg}-{m}")
    add(lambda: nb.KNeighborsRegressor(2, weights="distance", algorithm="ball_tree", metric="haversine"), "poly.float")
    add(lambda: nb.KNeighborsRegressor(2, algorithm="ball_tree", metric="mahalanobis", metric_params={"V": np.diag([1.0, 2, 3, 4])}), "dense.mo")
    add(lambda: nb.KNeighborsRegressor(2, algorithm="ball_tree", metric="seuclidean", metric_params={"V": np.array([1.0, 2, 3, 4])}), "dense.float")
    add(lambda: nb.KNeighborsRegressor(2, algorithm="kd_tree", metric="minkowski", metric_params={"w": np.array([1.0, 2, 3, 4])}), "f32.float")
    add(lambda: nb.KNeighborsClassifier(2, algorithm="brute", metric="cosine", weights=scipy.special.expit), "csr.bin")
    add(lambda: nb.KNeighborsClassifier(2, metric="precomputed"), "dist.bin")
    add(lambda: nb.RadiusNeighborsClassifier(2.0, outlier_label="most_frequent"), "dense.bin")
    add(lambda: nb.RadiusNeighborsRegressor(3.0, weights="distance"), "dense.float")
    add(lambda: nb.RadiusNeighborsTransformer(radius=1.0), "dense.bin")
    add(lambda: nb.KNeighborsTransformer(n_neighbors=2, mode="connectivity"), "dense.bin")
    add(lambda: nb.LocalOutlierFactor(5, novelty=True, algorithm="kd_tree", contamination=0.2), "dense.none")
    add(lambda: nb.LocalOutlierFactor(5), "dense.none", "csr.bin")
    add(lambda: nb.NearestCentroid(shrink_threshold=0.1), "dense.multi")
    for k in "gaussian tophat epanechnikov exponential linear cosine".split():
        add(lambda k=k: nb.KernelDensity(kernel=k, bandwidth=0.7, algorithm="ball_tree", leaf_size=6), "dense.none", name=f"kde-{k}")
    add(lambda: nb.NeighborhoodComponentsAnalysis(2, max_iter=5, random_state=0), "dense.bin")
    for k in "linear poly rbf sigmoid precomputed".split():
        for d in ("dense.bin", "dense.multi", "csr.bin") if k != "precomputed" else ("kernel.bin",):
            add(lambda k=k: svm.SVC(kernel=k, probability=k == "rbf", random_state=0, decision_function_shape="ovo" if k == "poly" else "ovr",
                                    break_ties=False), d, name=f"svc-{k}")
    add(lambda: svm.NuSVC(nu=0.3, class_weight="balanced"), "dense.bin", "dense.str")
    add(lambda: svm.SVR(gamma=0.1), "dense.float", "csr.float")
    add(lambda: svm.OneClassSVM(nu=0.2), "dense.none")
    add(lambda: svm.LinearSVC(dual=False, penalty="l1", class_weight={0: 2.0, 1: np.float32(1.5)}), "dense.bin", "csr.bin")
    add(lambda: svm.LinearSVR(epsilon=0.1, random_state=0), "dense.float")
    K = [lambda: gk.RBF(0.5), lambda: gk.ConstantKernel(2.0) * gk.RBF([1.0, 2, 3, 4]) + gk.WhiteKernel(0.1), lambda: gk.Matern(nu=1.5),
         lambda: gk.RationalQuadratic(), lambda: gk.ExpSineSquared() ** 2.0, lambda: gk.DotProduct(1.5, (1e-3, 10)), lambda: gk.PairwiseKernel(metric="rbf"),
         lambda: gk.Exponentiation(gk.RBF(length_scale_bounds="fixed"), 2), lambda: gk.CompoundKernel([gk.RBF(), gk.Matern()])]
    for j, k in enumerate(K):
        add(lambda k=k: gaussian_process.GaussianProcessRegressor(k(), normalize_y=True, random_state=0, optimizer=None), "dense.float", name=f"gpr{j}")
        add(lambda k=k: gaussian_process.GaussianProcessClassifier(k(), random_state=0, max_iter_predict=5, optimizer=None), "dense.bin", name=f"gpc{j}")
    add(lambda: gaussian_process.GaussianProcessRegressor(K[1](), n_restarts_optimizer=0, alpha=1e-3), "dense.mo")
    add(lambda: gaussian_process.GaussianProcessClassifier(gk.RBF(), multi_class="one_vs_one", optimizer=None), "dense.multi")
    add(lambda: kernel_ridge.KernelRidge(kernel="poly", degree=2), "dense.float", "dense.mo")
    for s in "lbfgs liblinear newton-cg newton-cholesky sag saga".split():
        add(lambda s=s: LR(solver=s, max_iter=20, random_state=0, C=np.float32(0.7), fit_intercept=s != "sag"), "dense.bin", "dense.str", "csr.bin",
            "dense.big", "dense.bool", name=f"lr-{s}")
    add(lambda: LR(penalty="elasticnet", l1_ratio=0.4, solver="saga", max_iter=10, warm_start=True), "dense.multi", "f32.bin")
    add(lambda: lm.LogisticRegressionCV(Cs=[0.1, 1.0], cv=2, max_iter=20, scoring="accuracy"), "dense.bin", "dense.str", "dense.multi")
    add(lambda: lm.LogisticRegression(class_weight={0: np.int64(1), 1: 2, 2: 0.5}, max_iter=10), "dense.multi")
    add(lambda: lm.RidgeCV(alphas=np.logspace(-2, 1, 3), store_cv_results=True), "dense.float", "dense.mo")
    add(lambda: lm.RidgeClassifierCV(alphas=(0.1, 1.0), scoring="accuracy"), "dense.bin", "dense.ml")
    add(lambda: lm.Ridge(alpha=np.array([1.0, 2.0]), solver="cholesky"), "dense.mo")
    add(lambda: lm.Ridge(positive=True, solver="lbfgs"), "dense.float")
    add(lambda: lm.ElasticNetCV(l1_ratio=[0.2, 0.8], n_alphas=4, cv=2), "dense.float", "csr.float")
    add(lambda: lm.LassoLarsIC(criterion="bic"), "dense.float")
    add(lambda: lm.LassoCV(n_alphas=3, cv=2, selection="random", random_state=np.random.RandomState(1)), "dense.float")
    add(lambda: lm.Lasso(precompute=True, warm_start=True), "dense.float", "csr.float", "csc.float")
    add(lambda: lm.Lars(n_nonzero_coefs=2, jitter=0.1, random_state=0), "dense.float", "dense.mo")
    add(lambda: lm.OrthogonalMatchingPursuitCV(cv=2), "dense.float")
    add(lambda: lm.MultiTaskElasticNetCV(n_alphas=3, cv=2), "dense.mo")
    add(lambda: lm.RANSACRegressor(lm.Ridge(), random_state=0, min_samples=5, loss="squared_error"), "dense.float")
    add(lambda: lm.RANSACRegressor(random_state=0, loss=vtypes.fun, min_samples=4), "dense.float")
    add(lambda: lm.TheilSenRegressor(random_state=0, max_subpopulation=50), "dense.float")
    add(lambda: lm.HuberRegressor(warm_start=True), "dense.float")
    add(lambda: lm.QuantileRegressor(quantile=0.4, solver="highs"), "dense.float")
    add(lambda: lm.TweedieRegressor(power=1.5, link="log"), "int.pos")
    add(lambda: lm.GammaRegressor(solver="newton-cholesky"), "int.pos")
    add(lambda: lm.PoissonRegressor(), "int.pos")
    add(lambda: lm.PassiveAggressiveClassifier(loss="squared_hinge", max_iter=3, random_state=0, average=2), "dense.bin", "dense.multi")
    add(lambda: lm.PassiveAggressiveRegressor(loss="epsilon_insensitive", max_iter=3, random_state=0), "dense.float")
    add(lambda: lm.Perceptron(penalty="l2", early_stopping=True, max_iter=5, random_state=0), "dense.bin")
    add(lambda: lm.SGDOneClassSVM(random_state=0, max_iter=4), "dense.none")
    add(lambda: lm.ARDRegression(max_iter=4, compute_score=True), "dense.float")
    add(lambda: lm.BayesianRidge(max_iter=4, compute_score=True), "dense.float")
    for s in "lbfgs sgd adam".split():
        add(lambda s=s: neural_network.MLPClassifier((4, 3), solver=s, max_iter=4, random_state=0, early_stopping=s != "lbfgs", n_iter_no_change=2),
            "dense.bin", "dense.multi", "dense.ml", "dense.str", name=f"mlp-{s}")
        add(lambda s=s: neural_network.MLPRegressor((4,), solver=s, max_iter=4, random_state=np.random.RandomState(1), warm_start=True), "dense.float", "dense.mo",
            name=f"mlpr-{s}")
    add(lambda: neural_network.BernoulliRBM(2, n_iter=2, random_state=0), "dense.none")
    for cls in (naive_bayes.GaussianNB, naive_bayes.BernoulliNB, naive_bayes.MultinomialNB, naive_bayes.ComplementNB, naive_bayes.CategoricalNB):
        add(lambda cls=cls: cls(), "int.pos", "dense.str" if cls is not naive_bayes.CategoricalNB else "int.bin", name=cls.__name__)
    add(lambda: naive_bayes.GaussianNB(priors=[0.3, 0.7]), "dense.bin")
    add(lambda: naive_bayes.MultinomialNB(class_prior=np.array([0.2, 0.8]), fit_prior=False), "csr.bin")
    add(lambda: discriminant_analysis.LinearDiscriminantAnalysis(solver="lsqr", covariance_estimator=covariance.OAS()), "dense.bin")
    add(lambda: discriminant_analysis.LinearDiscriminantAnalysis(solver="eigen", shrinkage=0.3, store_covariance=True), "dense.multi")
    add(lambda: discriminant_analysis.QuadraticDiscriminantAnalysis(store_covariance=True, reg_param=0.1), "dense.multi")
    for m in "sigmoid isotonic".split():
        for ens in (True, False):
            add(lambda m=m, ens=ens: calibration.CalibratedClassifierCV(LR(), method=m, cv=2, ensemble=ens), "dense.bin", "dense.multi", "dense.str", name=f"cal-{m}-{ens}")
    add(lambda: calibration.CalibratedClassifierCV(LR().fit(*data("dense.bin")[:2]), cv="prefit"), "dense.bin")
    add(lambda: dummy.DummyClassifier(strategy="stratified", random_state=0), "dense.bin", "dense.moc", "dense.str")
    add(lambda: dummy.DummyClassifier(strategy="constant", constant="no"), "dense.str")
    add(lambda: dummy.DummyRegressor(strategy="quantile", quantile=0.3), "dense.float", "dense.mo")
    add(lambda: multiclass.OneVsRestClassifier(LR()), "dense.multi", "dense.ml", "dense.str", "dense.bin")
    add(lambda: multiclass.OneVsOneClassifier(svm.LinearSVC()), "dense.multi")
    add(lambda: multiclass.OutputCodeClassifier(LR(), code_size=1.5, random_state=0), "dense.multi")
    add(lambda: multioutput.ClassifierChain(LR(), order="random", random_state=0, cv=2), "dense.ml")
    add(lambda: multioutput.ClassifierChain(LR(), order=[2, 0, 1]), "dense.ml")
    add(lambda: multioutput.RegressorChain(lm.Ridge(), order=[1, 0]), "dense.mo")
    add(lambda: multioutput.MultiOutputClassifier(tree.DecisionTreeClassifier(max_depth=2)), "dense.moc")
    add(lambda: multioutput.MultiOutputRegressor(lm.SGDRegressor(max_iter=3, random_state=0)), "dense.mo")
    for w in ("uniform", "distance", np.sqrt):
        add(lambda w=w: nb.KNeighborsRegressor(3, weights=w), "dense.float", name=f"knnw-{w}")
    # transformers
    for e in ("onehot", "onehot-dense", "ordinal"):
        for s in ("uniform", "quantile", "kmeans"):
            add(lambda e=e, s=s: pp.KBinsDiscretizer(3, encode=e, strategy=s, subsample=None), "dense.none", name=f"kbins-{e}-{s}")
    add(lambda: pp.OneHotEncoder(handle_unknown="ignore", min_frequency=2, drop=None), "cat.bin", "int.pos", "catn.bin")
    add(lambda: pp.OneHotEncoder(drop="first", sparse_output=False, dtype=np.float32), "cat.bin", "int.pos")
    add(lambda: pp.OneHotEncoder(categories=[["a0", "a1", "a2"]] * 4, feature_name_combiner=vtypes.fun, dtype=int), "cat.bin")
    add(lambda: pp.OneHotEncoder(drop=np.array(["a0", "a1", "a0", "a2"], dtype=object), max_categories=3), "cat.bin")
    add(lambda: pp.OrdinalEncoder(handle_unknown="use_encoded_value", unknown_value=-1, encoded_missing_value=-2, dtype=np.int64), "cat.bin")
    add(lambda: pp.OrdinalEncoder(max_categories=2), "catn.bin")
    add(lambda: pp.TargetEncoder(random_state=0, cv=2), "cat.bin", "catn.bin")
    add(lambda: pp.LabelEncoder(), "labels1.str", "labels1.multi", "labels1.obj", "labels1.bool")
    add(lambda: pp.LabelBinarizer(sparse_output=True), "labels1.str", "labels1.multi")
    add(lambda: pp.MultiLabelBinarizer(classes=["c", "b", "a"], sparse_output=True), "sets.bin")
    add(lambda: pp.MultiLabelBinarizer(), "sets.bin")
    for m in "yeo-johnson box-cox".split():
        add(lambda m=m: pp.PowerTransformer(method=m), "int.pos" if m == "yeo-johnson" else "dense.none", name=f"power-{m}")
    add(lambda: pp.QuantileTransformer(n_quantiles=8, output_distribution="normal", random_state=0), "dense.none", "csr.bin", "f32.bin")
    add(lambda: pp.SplineTransformer(n_knots=4, extrapolation="periodic", knots="quantile"), "dense.none")
    add(lambda: pp.SplineTransformer(sparse_output=True), "dense.none")
    add(lambda: pp.PolynomialFeatures((2, 3), interaction_only=True, order="F"), "dense.none", "csr.bin")
    add(lambda: pp.RobustScaler(quantile_range=(10.0, 90.0), unit_variance=True), "dense.none", "df.bin")
    add(lambda: pp.StandardScaler(with_mean=False), "csr.bin", "f32.bin", "df.float", "nan.bin")
    add(lambda: pp.MinMaxScaler((np.float32(-1), 2), clip=True), "dense.none")
    add(lambda: pp.MaxAbsScaler(), "csr.bin")
    add(lambda: pp.KernelCenterer(), "kernel.none")
    add(lambda: pp.Binarizer(threshold=np.float64(0.4)), "csr.bin")
    for f in (None, np.sqrt, scipy.special.expit, np.log1p, vtypes.shift, np.square):
        add(lambda f=f: pp.FunctionTransformer(f, inverse_func=np.square if f is np.sqrt else None, validate=True, kw_args={} if f is not None else None), "dense.none",
            name=f"ft-{f}")
    add(lambda: pp.FunctionTransformer(functools.partial(np.add, 2.5), inverse_func=functools.partial(np.add, -2.5)), "dense.none", "df.bin")
    add(lambda: pp.FunctionTransformer(np.log1p, feature_names_out="one-to-one", accept_sparse=True), "csr.bin", "df.bin")
    for s in "mean median most_frequent constant".split():
        add(lambda s=s: impute.SimpleImputer(strategy=s, fill_value=3 if s == "constant" else None, add_indicator=True), "nan.bin", name=f"imp-{s}")
    add(lambda: impute.SimpleImputer(missing_values="a1", strategy="constant", fill_value="é"), "cat.bin")
    add(lambda: impute.KNNImputer(n_neighbors=2, add_indicator=True), "nan.bin")
    add(lambda: impute.IterativeImputer(max_iter=2, random_state=0, sample_posterior=True, imputation_order="random"), "nan.bin")
    add(lambda: impute.IterativeImputer(tree.DecisionTreeRegressor(max_depth=2), max_iter=2, random_state=0), "nan.bin")
    add(lambda: impute.MissingIndicator(features="all", sparse=True), "nan.bin")
    # text
    T = feature_extraction.text
    add(lambda: T.CountVectorizer(ngram_range=(1, 2), stop_words="english"), "text.bin")
    add(lambda: T.CountVectorizer(analyzer="char_wb", binary=True, dtype=np.float32, max_features=9), "text.bin")
    add(lambda: T.CountVectorizer(token_pattern=r"(?u)\b\w+\b", vocabulary=["eggs", "ham"], strip_accents="unicode"), "text.bin")
    add(lambda: T.CountVectorizer(vocabulary={"eggs": 1, "ham": 0}), "text.bin")
    add(lambda: T.TfidfVectorizer(sublinear_tf=True, norm="l1", smooth_idf=False, stop_words=["the"]), "text.bin")
    add(lambda: T.TfidfVectorizer(min_df=2, max_df=0.9, use_idf=False), "text.bin")
    add(lambda: T.TfidfTransformer(), "csr.bin", "int.pos")
    add(lambda: T.HashingVectorizer(n_features=16, alternate_sign=False), "text.bin")
    add(lambda: feature_extraction.FeatureHasher(8), "dicts.bin")
    add(lambda: feature_extraction.DictVectorizer(sparse=False, sort=False), "dicts.bin")
    add(lambda: feature_extraction.DictVectorizer(dtype=np.float32), "dicts.bin")
    add(lambda: feature_extraction.image.PatchExtractor(patch_size=(2, 3), max_patches=3, random_state=0), "img.none")
    # decomposition and manifolds
    for s in "full covariance_eigh arpack randomized".split():
        add(lambda s=s: decomposition.PCA(2, svd_solver=s, whiten=True, random_state=0), "dense.none", "f32.bin", name=f"pca-{s}")
    add(lambda: decomposition.PCA(0.8), "dense.none")
    add(lambda: decomposition.PCA("mle"), "dense.none")
    for alg in "arpack randomized".split():
        add(lambda alg=alg: decomposition.TruncatedSVD(2, algorithm=alg, random_state=0), "csr.bin", "dense.none", name=f"tsvd-{alg}")
    for k in "linear poly rbf cosine".split():
        add(lambda k=k: decomposition.KernelPCA(2, kernel=k, fit_inverse_transform=True, random_state=0), "dense.none", name=f"kpca-{k}")
    for f in "logcosh exp cube".split():
        add(lambda f=f: decomposition.FastICA(2, fun=f, random_state=0, whiten="unit-variance", max_iter=20), "dense.none", name=f"ica-{f}")
    add(lambda: decomposition.FactorAnalysis(2, random_state=0), "dense.none")
    add(lambda: decomposition.NMF(2, solver="mu", init="random", random_state=0, max_iter=10), "dense.none", "csr.bin")
    add(lambda: decomposition.MiniBatchNMF(2, random_state=0, max_iter=3), "dense.none")
    add(lambda: decomposition.LatentDirichletAllocation(2, learning_method="online", max_iter=2, random_state=0), "int.pos", "csr.bin")
    add(lambda: decomposition.DictionaryLearning(2, max_iter=3, transform_algorithm="lasso_lars", random_state=0), "dense.none")
    add(lambda: decomposition.MiniBatchDictionaryLearning(2, max_iter=2, random_state=0), "dense.none")
    add(lambda: decomposition.SparsePCA(2, max_iter=3, random_state=0), "dense.none")
    add(lambda: decomposition.IncrementalPCA(2, batch_size=9), "dense.none")
    add(lambda: decomposition.SparseCoder(np.eye(4)[:3], transform_algorithm="threshold"), "dense.none")
    add(lambda: random_projection.SparseRandomProjection(2, random_state=0, compute_inverse_components=True), "dense.none", "csr.bin")
    add(lambda: random_projection.GaussianRandomProjection(2, random_state=np.random.RandomState(2)), "dense.none")
    add(lambda: manifold.Isomap(n_neighbors=6, n_components=2), "dense.none")
    add(lambda: manifold.LocallyLinearEmbedding(n_neighbors=8, n_components=2, method="modified", random_state=0), "dense.none")
    add(lambda: manifold.TSNE(2, perplexity=5, max_iter=250, init="random", random_state=0, method="exact"), "dense.none")
    add(lambda: manifold.MDS(2, n_init=1, max_iter=10, random_state=0, metric=False), "dense.none")
    add(lambda: manifold.SpectralEmbedding(2, random_state=0), "dense.none")
    for cls in (kernel_approximation.Nystroem, kernel_approximation.RBFSampler):
        add(lambda cls=cls: cls(n_components=5, random_state=0), "dense.none", "csr.bin", name=cls.__name__)
    add(lambda: kernel_approximation.PolynomialCountSketch(n_components=5, random_state=0), "dense.none")
    add(lambda: kernel_approximation.AdditiveChi2Sampler(), "dense.none", "csr.bin")
    for m, n in (("PLSRegression", 2), ("PLSCanonical", 1), ("CCA", 1), ("PLSSVD", 1)):
        import sklearn.cross_decomposition as cd

        add(lambda m=m, n=n: getattr(cd, m)(n_components=n), "dense.mo", "dense.float" if m == "PLSRegression" else "dense.mo", name=m)
    # clusters, mixtures, covariance
    for i in ("k-means++", "random", "array"):
        add(lambda i=i: cluster.KMeans(2, init=i if i != "array" else np.array([[0.0] * 4, [1.0] * 4]), n_init=1, random_state=0, algorithm="elkan"),
            "dense.none", "csr.bin" if i != "array" else "f32.bin", name=f"km-{i}")
    add(lambda: cluster.MiniBatchKMeans(2, random_state=0, n_init=1, max_iter=3), "dense.none")
    add(lambda: cluster.BisectingKMeans(3, random_state=0), "dense.none", "csr.bin")
    add(lambda: cluster.DBSCAN(0.4, min_samples=2), "dense.none")
    add(lambda: cluster.HDBSCAN(min_cluster_size=3, store_centers="both"), "dense.none")
    add(lambda: cluster.OPTICS(min_samples=4), "dense.none")
    add(lambda: cluster.MeanShift(bandwidth=0.5), "dense.none")
    add(lambda: cluster.AffinityPropagation(random_state=0), "dense.none")
    add(lambda: cluster.AgglomerativeClustering(3, linkage="average", compute_distances=True), "dense.none")
    add(lambda: cluster.FeatureAgglomeration(2, pooling_func=np.max), "dense.none")
    add(lambda: cluster.FeatureAgglomeration(2), "df.float")
    add(lambda: cluster.SpectralClustering(2, random_state=0, affinity="nearest_neighbors", n_neighbors=5), "dense.none")
    add(lambda: cluster.SpectralBiclustering((2, 2), random_state=0), "dense.none")
    add(lambda: cluster.SpectralCoclustering(2, random_state=0), "dense.none")
    add(lambda: cluster.Birch(threshold=0.3, n_clusters=2), "dense.none")
    for ct in "full tied diag spherical".split():
        add(lambda ct=ct: mixture.GaussianMixture(2, covariance_type=ct, random_state=0, max_iter=5, init_params="random"), "dense.none", name=f"gm-{ct}")
        add(lambda ct=ct: mixture.BayesianGaussianMixture(n_components=2, covariance_type=ct, random_state=np.random.RandomState(0), max_iter=5), "dense.none", name=f"bgm-{ct}")
    for m in "EmpiricalCovariance ShrunkCovariance LedoitWolf OAS MinCovDet EllipticEnvelope GraphicalLasso".split():
        add(lambda m=m: getattr(covariance, m)(**({"random_state": 0} if m in ("MinCovDet", "EllipticEnvelope") else {})), "dense.none", name=m)
    # selection, search
    fs, ms = feature_selection, model_selection
    add(lambda: fs.SelectKBest(fs.chi2, k=2), "dense.bin")
    add(lambda: fs.SelectPercentile(fs.mutual_info_classif, percentile=50), "dense.bin")
    add(lambda: fs.GenericUnivariateSelect(fs.f_regression, mode="fwe", param=0.5), "dense.float")
    add(lambda: fs.SelectFromModel(LR(penalty="l1", solver="liblinear"), threshold="1.25*mean", prefit=False), "dense.bin")
    add(lambda: fs.SelectFromModel(LR(), importance_getter=operator.attrgetter("coef_")), "dense.bin")
    add(lambda: fs.RFE(LR(), n_features_to_select=0.5, importance_getter="coef_"), "dense.bin")
    add(lambda: fs.RFECV(lm.Ridge(), cv=2, scoring="r2"), "dense.float")
    add(lambda: fs.SequentialFeatureSelector(lm.Ridge(), cv=2, n_features_to_select=2), "dense.float")
    add(lambda: fs.VarianceThreshold(0.01), "dense.none", "csr.bin")
    add(lambda: ms.GridSearchCV(LR(max_iter=10), {"C": [0.1, np.float64(2)], "penalty": ["l2", None]}, cv=2, return_train_score=True), "dense.bin")
    add(lambda: ms.GridSearchCV(LR(max_iter=10), [{"C": np.logspace(-1, 1, 2)}, {"fit_intercept": [False]}], cv=ms.KFold(2), scoring={"a": "accuracy", "b": "f1"},
                                refit="a"), "dense.bin")
    add(lambda: ms.GridSearchCV(pipeline.Pipeline([("s", pp.StandardScaler()), ("m", svm.SVC())]), {"m": [svm.SVC(C=2.0), LR()], "s": [None, "passthrough"]}, cv=2),
        "dense.bin")
    add(lambda: ms.RandomizedSearchCV(LR(max_iter=10), {"C": scipy.stats.loguniform(0.1, 2)}, n_iter=2, cv=2, random_state=0), "dense.bin")
    add(lambda: ms.RandomizedSearchCV(lm.Ridge(), {"alpha": [0.1, 1, 2]}, n_iter=2, cv=2, random_state=np.random.RandomState(1), refit=False), "dense.float")
    add(lambda: ms.HalvingGridSearchCV(LR(max_iter=10), {"C": [0.1, 1]}, cv=2, min_resources=12, random_state=0), "dense.bin")
    add(lambda: ms.HalvingRandomSearchCV(tree.DecisionTreeClassifier(), {"max_depth": [1, 2]}, cv=2,
                                         min_resources=12, random_state=0), "dense.bin")
    if hasattr(ms, "TunedThresholdClassifierCV"):
        add(lambda: ms.TunedThresholdClassifierCV(LR(), cv=2, store_cv_results=True, random_state=0, thresholds=5), "dense.bin", "dense.str")
        add(lambda: ms.FixedThresholdClassifier(LR(), threshold=0.4, pos_label="yé"), "dense.str")
    add(lambda: ms.GridSearchCV(nb.KNeighborsClassifier(), {"weights": ["uniform", np.sqrt]}, cv=2), "dense.bin")
    add(lambda: isotonic.IsotonicRegression(out_of_bounds="clip", increasing="auto"), "1d.float", "one.float")
    # compositions
    P, CT, FU = pipeline.Pipeline, compose.ColumnTransformer, pipeline.FeatureUnion
    for col in ([0], slice(0, 2), slice(-3, None, 2), np.array([1, 2]), [True, False, True, False], np.array([True, False, True, False]), (0, 2),
                slice(np.int64(0), np.int64(3)), [np.int64(1)], slice(None), vtypes.first_columns):
        add(lambda col=col: CT([("a", pp.StandardScaler(), col)], remainder=pp.MinMaxScaler()), "dense.bin", name=f"ct-{col!r:.40}")
    add(lambda: CT([("a", vtypes.OwnTransformer(), [1]), ("d", "drop", [0])], remainder="passthrough", verbose_feature_names_out=False), "dense.bin")
    add(lambda: CT([("v", feature_extraction.text.CountVectorizer(), 0)], remainder="drop"), "cat.bin")
    for col in (["a", "b"], "a", slice("a", "c é"), compose.make_column_selector(dtype_include=np.number), compose.make_column_selector(pattern="[ab]")):
        add(lambda col=col: CT([("t", pp.StandardScaler() if not isinstance(col, str) else pp.FunctionTransformer(), col if not isinstance(col, str) else [col])],
                               remainder="drop", transformer_weights={"t": 2.0}), "df.bin", name=f"ctdf-{col!r:.20}")
    add(lambda: CT([("t", pp.StandardScaler(), vtypes.first_columns)], remainder="passthrough"), "dense.bin")
    add(lambda: CT([("a", pp.StandardScaler(), [0]), ("b", pp.OneHotEncoder(handle_unknown="ignore"), [1])], sparse_threshold=0.9), "int.bin")
    add(lambda: P([("s", "passthrough"), ("t", pp.StandardScaler()), ("m", LR())]).set_output(transform="default"), "dense.bin")
    add(lambda: pp.StandardScaler().set_output(transform="pandas"), "df.bin")
    add(lambda: P([("s", pp.StandardScaler()), ("m", LR())], verbose=False)[:1], "dense.bin")
    add(lambda: FU([("a", pp.StandardScaler()), ("b", P([("p", pp.PolynomialFeatures(2)), ("q", decomposition.PCA(2))])), ("c", "drop"), ("d", "passthrough")],
                   transformer_weights={"a": 0.5, "b": np.float32(2)}), "dense.bin")
    add(lambda: compose.TransformedTargetRegressor(lm.Ridge(), func=np.log1p, inverse_func=np.expm1), "int.pos", "dense.float")
    add(lambda: compose.TransformedTargetRegressor(lm.Ridge(), transformer=pp.QuantileTransformer(n_quantiles=5)), "dense.float", "dense.mo")
    add(lambda: en.VotingClassifier([("a", LR()), ("b", tree.DecisionTreeClassifier(max_depth=2)), ("c", "drop")], voting="soft", weights=[1, 2.5, 1]), "dense.bin", "dense.str")
    add(lambda: en.VotingRegressor([("a", lm.Ridge()), ("b", svm.SVR())], weights=np.array([1.0, 2])), "dense.float")
    add(lambda: en.StackingClassifier([("a", LR()), ("b", svm.SVC())], final_estimator=LR(), cv=2, passthrough=True), "dense.bin", "dense.str", "dense.multi")
    add(lambda: en.StackingClassifier([("a", LR().fit(*data("dense.bin")[:2]))], cv="prefit"), "dense.bin")
    add(lambda: en.StackingRegressor([("a", lm.RidgeCV()), ("b", nb.KNeighborsRegressor())], cv=ms.KFold(2, shuffle=True, random_state=0)), "dense.float")
    from sklearn.semi_supervised import LabelPropagation, LabelSpreading, SelfTrainingClassifier

    add(lambda: SelfTrainingClassifier(LR(), criterion="k_best", k_best=3, max_iter=2), "dense.bin")
    add(lambda: LabelSpreading(kernel="knn", n_neighbors=3, max_iter=3), "dense.bin")
    add(lambda: LabelPropagation(kernel="rbf", max_iter=3), "dense.multi")
    with sklearn.config_context(enable_metadata_routing=True):
        req = LR().set_fit_request(sample_weight=True).set_score_request(sample_weight="w")
    add(lambda: pickle.loads(pickle.dumps(req)), "dense.bin")
    return {k: v for k, v in c.items() if v[0] is not None}


# ---- the compositions of the specification
def leaf(r, role):
    from sklearn import (
        decomposition,
        ensemble,
        feature_selection,
        impute,
        kernel_approximation,
        linear_model,
        naive_bayes,
        neighbors,
        preprocessing,
        svm,
        tree,
    )

    pp, lm = preprocessing, linear_model
    rs = r.choice([0, 3, np.random.RandomState(r.randrange(5))])
    return {
        "T": [lambda: pp.StandardScaler(with_std=r.random() < 0.5), lambda: pp.MinMaxScaler((0, r.choice([1, 2.0, np.float32(3)]))), lambda: pp.RobustScaler(),
              lambda: pp.PolynomialFeatures(2, include_bias=False), lambda: decomposition.PCA(r.choice([2, 0.9, None]), random_state=rs), lambda: pp.Normalizer(norm="l1"),
              lambda: pp.QuantileTransformer(n_quantiles=7, random_state=rs), lambda: pp.KBinsDiscretizer(3, encode=r.choice(["ordinal", "onehot-dense"])),
              lambda: impute.SimpleImputer(), lambda: feature_selection.VarianceThreshold(), lambda: kernel_approximation.RBFSampler(n_components=4, random_state=rs),
              lambda: pp.MaxAbsScaler(), lambda: pp.SplineTransformer(n_knots=3), lambda: pp.PowerTransformer()],
        "C": [lambda: lm.LogisticRegression(C=r.choice([0.5, 2, np.float64(3)]), max_iter=15), lambda: tree.DecisionTreeClassifier(max_depth=r.choice([2, 3]), random_state=rs),
              lambda: ensemble.RandomForestClassifier(2, max_depth=2, random_state=rs), lambda: naive_bayes.GaussianNB(), lambda: svm.SVC(probability=True, random_state=rs if isinstance(rs, int) else 1),
              lambda: ensemble.GradientBoostingClassifier(n_estimators=2, max_depth=1, random_state=rs), lambda: lm.SGDClassifier(loss="log_loss", max_iter=4, random_state=rs),
              lambda: neighbors.KNeighborsClassifier(3, algorithm=r.choice(["brute", "kd_tree"])), lambda: lm.LogisticRegression(solver="liblinear", random_state=1)],
        "R": [lambda: lm.Ridge(alpha=r.choice([0.5, 2])), lambda: lm.Lasso(0.01), lambda: tree.DecisionTreeRegressor(max_depth=2, random_state=rs), lambda: svm.SVR(C=2.0),
              lambda: ensemble.ExtraTreesRegressor(2, max_depth=2, random_state=rs), lambda: ensemble.GradientBoostingRegressor(n_estimators=2, max_depth=1, random_state=rs),
              lambda: lm.SGDRegressor(max_iter=3, random_state=rs), lambda: lm.LinearRegression(), lambda: neighbors.KNeighborsRegressor(2, algorithm="brute")],
    }[role]


def compose(row, r):
    """an estimator of this composition"""
    from sklearn import calibration, ensemble, feature_selection, linear_model, model_selection, multiclass, multioutput, preprocessing
    from sklearn.compose import ColumnTransformer, TransformedTargetRegressor
    from sklearn.pipeline import FeatureUnion, Pipeline

    par, kind = row["par"], row["kind"]

    def mk(j):
        k = kind[j - 1]
        kids = [mk(c + 1) for c in range(len(par)) if par[c] == j]
        named = [(r.choice(["p", "é", "step"]) + str(n), e) for n, e in enumerate(kids)]
        one = kids[0] if kids else None
        if k.startswith("leaf"):
            e = r.choice(leaf(r, k[-1]))()
            return e
        if k == "fun":
            return preprocessing.FunctionTransformer(r.choice([np.sqrt, np.log1p, scipy.special.expit, None, np.square, scipy.special.erf]))
        if k == "own":
            return OwnTransformer(r.choice([1, 2.5]))
        if k == "ownfun":
            return preprocessing.FunctionTransformer(shift)
        if k.startswith("pipe"):
            if r.random() < 0.2:
                named.insert(0, ("pass", "passthrough"))
            return Pipeline(named)
        if k == "union":
            return FeatureUnion(named, transformer_weights={named[0][0]: 2.0} if r.random() < 0.3 else None)
        if k == "columns":
            cols = [r.choice([[0, 1], slice(0, 2), [True, False, True, False], np.array([0, 2]), slice(-2, None), slice(0, None, 2)]) for _ in named]
            return ColumnTransformer([(n, e, c) for (n, e), c in zip(named, cols)], remainder=r.choice(["drop", "passthrough", preprocessing.MinMaxScaler()]))
        if k in ("searchC", "searchR"):
            p = {n: [v] for n, v in one.get_params(deep=False).items() if isinstance(v, (bool, int, float)) and n in ("C", "alpha", "max_depth", "n_neighbors", "passthrough", "verbose")}
            if r.random() < 0.5:
                return model_selection.GridSearchCV(one, dict(list(p.items())[:1]), cv=2, refit=True)
            return model_selection.RandomizedSearchCV(one, dict(list(p.items())[:1]), cv=2, n_iter=1, random_state=0)
        if k in ("bagC", "bagR"):
            return (ensemble.BaggingClassifier if k == "bagC" else ensemble.BaggingRegressor)(one, n_estimators=2, random_state=r.choice([0, np.random.RandomState(1)]))
        if k == "voteC":
            return ensemble.VotingClassifier(named, voting="hard" if r.random() < 0.5 else "soft")
        if k == "voteR":
            return ensemble.VotingRegressor(named)
        if k == "stackC":
            return ensemble.StackingClassifier(named, final_estimator=linear_model.LogisticRegression(max_iter=10), cv=2)
        if k == "stackR":
            return ensemble.StackingRegressor(named, final_estimator=linear_model.Ridge(), cv=2)
        if k == "calib":
            return calibration.CalibratedClassifierCV(one, cv=2, ensemble=r.random() < 0.5)
        if k == "wrapC":
            return r.choice([multiclass.OneVsRestClassifier, multiclass.OneVsOneClassifier])(one)
        if k == "multiR":
            return multioutput.MultiOutputRegressor(one)
        if k == "target":
            return TransformedTargetRegressor(one, func=np.log1p, inverse_func=np.expm1)
        if k == "select":
            return feature_selection.SequentialFeatureSelector(one, n_features_to_select=1, cv=2)
        if k == "frozen":
            return Pipeline([("only", one)])
        raise ValueError(k)

    return mk(1), ("dense.mo" if any(k == "multiR" for k in kind) else r.choice(["dense.float", "F.float", "f32.f32", "int.pos"])) \
        if _role(kind[0]) == "R" else r.choice(["dense.bin", "dense.multi", "dense.str", "f32.bin", "dense.bool", "df.bin" if "columns" not in kind else "dense.bin"])


def _role(k):
    return "R" if k in ("leafR", "pipeR", "searchR", "bagR", "voteR", "stackR", "multiR", "target") else "other"


# ---------------------------------------------------------------- one life
class Slow(Exception):
    pass


def _alarm(*_):
    raise Slow


def fit(e, d):
    X, y, _ = d
    np.random.seed(11)
    e.fit(X) if y is None else e.fit(X, y)


def near(x, y):
    """equal up to rounding"""
    if sp.issparse(x) and sp.issparse(y):
        x, y = x.toarray(), y.toarray()
    if isinstance(x, (list, tuple)) and type(x) is type(y):
        return len(x) == len(y) and all(near(a, b) for a, b in zip(x, y))
    if isinstance(x, (np.ndarray, np.generic, float)) and type(x) is type(y):
        x, y = np.asarray(x), np.asarray(y)
        if x.dtype.kind in "fc":
            return x.dtype == y.dtype and x.shape == y.shape and np.allclose(x, y, rtol=1e-3, atol=1e-5, equal_nan=True)
    return project.digest(x, layout=False) == project.digest(y, layout=False)


def outcome(e, fn, d, raw=False):
    """digest of the output of a method"""
    X, y, Z = d
    np.random.seed(12)
    try:
        m = getattr(e, fn)
        if fn == "sample":
            res = m()
        elif fn == "get_feature_names_out":
            res = m()
        elif fn == "inverse_transform":
            res = m(e.transform(Z))
        elif fn == "score":
            if y is None:
                return "-"
            res = float(m(X, y))
        else:
            res = m(Z)
    except Slow:
        raise
    except Exception as ex:  # noqa: BLE001
        return f"{type(ex).__name__}: {esc(str(ex))[:60]}" if " at 0x" not in str(ex) else type(ex).__name__
    if hasattr(res, "__next__"):
        res = list(res)
    return res if raw else project.digest(res, layout=False)


def methods(e):
    res = []
    for fn in CALLS:
        try:
            if hasattr(e, fn):
                res.append(fn)
        except Exception:  # noqa: BLE001
            pass
    return res


def step(s, e, d, params):
    """(estimator, what came of it)"""
    try:
        if s == "fit":
            fit(e, d)
        elif s == "set":
            e.set_params(**now(params))
        else:
            np.random.seed(13)
            e = clone(e)
        return e, "ok"
    except Slow:
        raise
    except Exception as ex:  # noqa: BLE001
        return e, type(ex).__name__


def pickled(e):
    try:
        return pickle.dumps(e)
    except Exception:  # noqa: BLE001
        return None


def spare(p, d):
    """other copies of the estimator, fitted too: do fits repeat themselves?"""
    return [step("fit", pickle.loads(p), d, {})[0] for _ in range(3)] if p else [None]


def has_refused(e):
    """does it have parts whose refusal is documented"""
    return "Birch" in repr(type(e)) or any("CFNode" in x or "CFSub" in x for x in [repr(type(v)) for v in vars(e).values()])


def load(d, trusted):
    try:
        return sio.loads(d, trusted=trusted), "ok"
    except Slow:
        raise
    except Exception as ex:  # noqa: BLE001
        return None, f"{type(ex).__name__}: {esc(str(ex))[:150]}"


def life(make, dkind, steps, r, seed=0):
    """events of one life, [] if the estimator cannot be made that way"""
    d = data(dkind, seed)
    e = make()
    ev, copy_, dumped = [], None, None
    cls = type(e)
    params = {}
    if "set" in steps:
        params = drawn(cls, e, r)
        try:
            probe = make()
            probe.set_params(**now(params))
            if not valid(probe):
                params = {}
        except Exception:  # noqa: BLE001
            params = {}
    notes = {}

    def term(x):
        return project.term(x)

    def compare():
        if not twins:
            a, b = e.get_params(deep=False), copy_.get_params(deep=False)
            df = project.diff(term(a), term(b))
            ev.append({"op": "same", "what": "params", "ok": not df})
            if df:
                notes[len(ev) - 1] = df
            df = project.diff(term(e), term(copy_)) or ("" if type(e) is type(copy_) else "type")
            ev.append({"op": "same", "what": "attributes", "ok": not df})
            if df:
                notes[len(ev) - 1] = df
        try:
            picks = twins or [pickle.loads(pickle.dumps(e))]
        except Exception:  # noqa: BLE001
            picks = []
        for fn in methods(e):
            o1 = outcome(e, fn, d)
            o2 = outcome(e, fn, d)
            stable = o1 == o2 and None not in picks and all(outcome(x, fn, d) == o1 for x in picks)
            oc = outcome(copy_, fn, d)
            if twins and stable and oc != o1 and near(outcome(e, fn, d, True), outcome(copy_, fn, d, True)):
                oc = o1  # fitted apart from each other, on other memory
            outcome(copy_, fn, d)
            ev.append({"op": "call", "fn": fn, "a": o1, "b": oc, "stable": stable})

    twins = []
    fo = None
    for s in steps:
        if s in ("dump", "again"):
            x = e if s == "dump" else copy_
            if fo is None:
                fo = foreign(x)
                ev.insert(0, {"op": "new", "foreign": [esc(f)[:80] for f in fo[:3]]})
            may = has_refused(x)
            try:
                dumped = sio.dumps(x)
                out = "ok"
            except Slow:
                raise
            except Exception as ex:  # noqa: BLE001
                out = "refused" if type(ex).__name__ == "UnsupportedTypeException" else "raised"
                notes[len(ev)] = f"{type(ex).__name__}: {ex!s:.150}"
            ev.append({"op": "dump", "out": out, "may": may})
            if out != "ok":
                return ev, notes
            if s == "again":
                copy_, out = load(dumped, sio.get_untrusted_types(data=dumped))
                ev.append({"op": "load", "out": out})
                if out != "ok":
                    return ev, notes
        elif s == "load":
            u = sio.get_untrusted_types(data=dumped)
            ev.append({"op": "report", "names": [esc(x) for x in u]})
            ev.append({"op": "load0", "out": load(dumped, None)[1]})
            copy_, out = load(dumped, u)
            ev.append({"op": "load", "out": out})
            if out != "ok":
                return ev, notes
            compare()
        else:
            before = pickled(e) if copy_ is not None and s == "fit" and not twins else None
            e, a = step(s, e, d, params)
            b = ""
            if copy_ is not None:
                copy_, b = step(s, copy_, d, params)
                if s == "fit" or twins:
                    twins = [step(s, x, d, params)[0] for x in twins] if twins else spare(before, d)
            elif a != "ok" and s in ("fit", "clone"):
                if s == "clone":
                    return [], {}
                ev.append({"op": "step", "s": s, "a": a, "b": b})
                return ([], {}) if fo is None else (ev, notes)
            ev.append({"op": "step", "s": s, "a": a, "b": b})
    if steps[-1] != "load" and copy_ is not None:
        compare()
    return ev, notes


_CUR = {}
_CLS = {}


def work(job):
    what, *a = job
    r = random.Random(f"{SEED}/C07/{json.dumps(job, default=str)}")
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    # the times that searches record are not part of the model
    time.time = time.perf_counter = lambda: 1.7e9
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 60 if THOROUGH else 12)
    try:
        if what == "curated":
            make, dk = _CUR[a[0]]
            return job, *life(make, dk, a[1], r), dk
        if what == "class":
            cls = _CLS[a[0]]
            seed = r.randrange(10**9)

            def mk():
                q = random.Random(seed)
                e = quick(make_default(cls, q), q)
                if a[1]:
                    p = drawn(cls, e, q)
                    if p:
                        f = make_default(cls, q)
                        f.set_params(**{**e.get_params(deep=False), **now(p)})
                        if valid(f):
                            e = f
                return e

            ks = list(FITS)
            st = random.Random(f"{a[0]}{a[1]}")
            st.shuffle(ks)
            for dk in ks[:12] if "fit" in a[2] else ks[:1]:
                try:
                    e = mk()
                    if "fit" in a[2]:
                        fit(e, data(dk))
                except Slow:
                    raise
                except Exception:  # noqa: BLE001
                    continue
                return job, *life(mk, dk, a[2], r), dk
            return job, [], {}, ""
        row, steps = a
        seed = r.randrange(10**9)
        dk = compose(row, random.Random(seed))[1]
        return job, *life(lambda: compose(row, random.Random(seed))[0], dk, steps, r), dk
    except Slow:
        return job, [], {}, "slow"
    except Exception as ex:  # noqa: BLE001
        return job, [], {}, f"harness {type(ex).__name__} {ex!s:.200} {traceback.format_exc()[-300:]}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def spec_run(ck):
    n = 5 if THOROUGH else 4
    a = tlc("SkopsEstimatorMC", f"SPECIFICATION SpecC\nCHECK_DEADLOCK FALSE\nCONSTANTS N = {n}\nK = 0\nL = 0\n"
            "INVARIANT EmitComposition\nPROPERTY Untouched\n")
    b = tlc("SkopsEstimatorMC", "SPECIFICATION SpecL\nCHECK_DEADLOCK FALSE\nCONSTANTS N = 1\nK = 3\nL = 2\n"
            "INVARIANT EmitLife SameModel\nPROPERTY Untouched\n")
    for x in (a, b):
        ck.add("states", x.distinct)
        ck.add("transitions", x.states)
    ck.log(f"SkopsEstimator: {a.distinct} states, {len(a.rows)} compositions; {b.distinct} states, {len(b.rows)} lives")
    return sorted(a.rows, key=json.dumps), sorted(x["life"] for x in b.rows)


def run_C07():
    from threadpoolctl import threadpool_limits

    threadpool_limits(1)
    ck = Check("C07", "model_checking",
               "compositions of estimators and lives (set_params, fit, clone, dump, load, the same steps on both) enumerated by TLC, made of "
               "real scikit-learn parts; every class of scikit-learn with drawn hyper-parameters and data; a curated list of configurations")
    comps, lives = spec_run(ck)
    _CUR.update(curated())
    _CLS.update({n: c for n, c in all_estimators()})
    r = random.Random(f"{SEED}/C07")
    jobs = []
    for k in sorted(_CUR):
        jobs += [("curated", k, ["dump", "load"]), ("curated", k, ["fit", "dump", "load"])]
        jobs += [("curated", k, r.choice(lives))] * (8 if THOROUGH else 0)
    for k in sorted(_CLS):
        jobs += [("class", k, 0, ["dump", "load"]), ("class", k, 0, ["fit", "dump", "load"])]
        for q in range(1, 60 if THOROUGH else 14):
            jobs.append(("class", k, q, ["fit", "dump", "load"] if q % 3 else r.choice(lives)))
    want = [c for c in comps if len(c["par"]) <= (4 if THOROUGH else 3)] + r.sample([c for c in comps if len(c["par"]) > 3], 6000 if THOROUGH else 900)
    for q in range(3 if THOROUGH else 1):
        for c in want:
            jobs.append(("comp", {**c, "q": q}, ["fit", "dump", "load"] if r.random() < 0.4 else r.choice(lives)))
    r.shuffle(jobs)
    res = common.pmap(work, jobs)
    made = [(j, ev, notes, dk) for j, ev, notes, dk in res if ev]
    ck.log(f"{len(jobs)} jobs, {len(made)} lives, {sum(dk == 'slow' for *_, dk in res)} too slow")
    odd = [(j, dk) for j, _, _, dk in res if dk.startswith("harness")]
    for x in odd[:12]:
        ck.log(f"not made: {x[0]} {x[1]}"[:700])
    if len(odd) > 20 or len(made) < len(jobs) // 3:
        raise MachineryError(f"only {len(made)} of {len(jobs)} estimators could be made")
    bad, ne, states = validate("SkopsEstimatorTrace", [ev for _, ev, _, _ in made])
    ck.add("states", states)
    ck.add("traces_validated_against_impl", len(made))
    ck.add("events", ne)
    ck.add("calls_compared", sum(e["op"] == "call" and e["stable"] for _, ev, _, _ in made for e in ev))
    ck.add("calls_not_repeatable", sum(e["op"] == "call" and not e["stable"] for _, ev, _, _ in made for e in ev))
    ck.add("loaded_without_trusted", sum(e["op"] == "load0" and e["out"] == "ok" for _, ev, _, _ in made for e in ev))
    for row in bad:
        j, ev, notes, dk = made[row["t"]]
        e = ev[row["i"]]
        for cl in row["bad"]:
            if cl == "not-a-behaviour":
                raise MachineryError(f"{j}: {ev}")
            ck.violation(cl, {"job": j, "data": dk, "event": e}, f"{json.dumps(j)[:160]} {dk} {json.dumps(e)[:300]} {notes.get(row['i'], '')}")
    ck.cov["classes"] = len({j[1] for j, *_ in made if j[0] == "class"})
    ck.cov["classes_fitted"] = len({j[1] for j, ev, *_ in made if j[0] == "class" and any(e["op"] == "step" and e["a"] == "ok" for e in ev)})
    ck.cov["curated"] = len(_CUR)
    ck.cov["compositions"] = len({json.dumps([j[1]["par"], j[1]["kind"]]) for j, *_ in made if j[0] == "comp"})
    ck.cov["samples"] = [json.dumps(made[0][0]), json.dumps(made[-1][0])]
    ck.assumptions = ["outputs are compared bit by bit when the original repeats its own output and so does its pickled copy",
                      "a refusal to dump is documented for Birch only"]
    return ck.finish()
