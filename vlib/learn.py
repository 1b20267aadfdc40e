"""Training sets and recording models for the checks of the learners."""
import copy
import threading

import numpy as np

from .data import Dataset
from .runner import HarnessError

BB = ("ad3", {"branch_and_bound": True})
PLAIN = ("graph", "chain", "grid", "dirgrid", "edgefeat", "multilabel", "binary", "multiclass", "typed")
LATENT = ("latgraph", "latgrid", "latdirgrid", "latnode", "eflatnode")


def several(rng, hi, p=.04):
    """mostly few samples, sometimes dozens"""
    n = int(rng.integers(1, hi))
    return int(rng.integers(10, 36)) if rng.random() < p else n


def training_set(rng, fams=PLAIN + LATENT, n=None, maxlab=60, fam=None, **kw):
    fam = fam or fams[int(rng.integers(len(fams)))]
    if not n:
        n = several(rng, 6)
    feat = kw.pop("feat", rng.choice(["normal", "int", "onehot"], p=[.6, .25, .15]))
    return Dataset(rng, fam, n, maxlab=maxlab, feat=str(feat), **kw)


def hard_set(rng):
    """many conflicting samples in many dimensions: cutting plane methods need dozens to hundreds of planes"""
    from .inst import FAMS
    fam = str(rng.choice(["multiclass", "binary", "graph", "chain"]))
    n = int(rng.integers(20, 41))
    if fam == "binary":
        kw = dict(F=int(rng.integers(14, 26)))
    elif fam == "multiclass":
        kw = dict(F=int(rng.integers(6, 10)), S=int(rng.integers(3, 6)))
    else:
        n = n // 2
        kw = dict(F=int(rng.integers(5, 9)), S=int(rng.integers(2, 4)), n=3, maxlab=30)
    return Dataset(rng, fam, n, feat="normal", truth="random", same_shape=True, first=FAMS[fam](rng, feat="normal", **kw))


def rand_C(rng, lo=-3., hi=1.):
    return float(np.round(10 ** rng.uniform(lo, hi), 6))


EQUIVARIANT = ("binary", "multiclass", "edgefeat", "typed")


def rescaled(rng, ds, C, p=.2):
    """features in other units (with C to match the same learning problem): returns C"""
    from .history import feature_arrays
    if ds.fam not in EQUIVARIANT or rng.random() >= p:
        return C
    arrays = [a for inst in ds.insts for a in feature_arrays(inst) if a.size]
    if any(a.dtype.kind != "f" for a in arrays):
        return C
    s = float(rng.choice([1e-3, 1e-2, 30.]))
    for a in arrays:
        a *= s
    ds.units = s
    return float(np.round(C / s ** 2, 6)) or C


def covers(ds):
    """do the labels contain every state (the models then accept the data when initialised with it)?"""
    if ds.fam in ("multilabel", "binary", "typed"):
        return True
    return len(np.unique(np.hstack([np.ravel(f) for f in ds.flats]))) == ds.first.n_states


def can_initialize(ds):
    return ds.fam in PLAIN and covers(ds)


class Fractional(HarnessError):
    pass


def flat_of(ds, k, y):
    if isinstance(y, tuple) and not isinstance(y[0], list):
        # relaxed result: integral ones (graphs without edges) are taken
        u = np.asarray(y[0])
        if np.abs(u - np.round(u)).max() > 1e-6:
            raise Fractional("relaxed labeling from an exact configuration %r" % (y,))
        y = u.argmax(-1)
    elif isinstance(y, tuple):  # the same of a typed model
        us = [np.asarray(u, float) for u in y[0]]
        if any(np.abs(u - np.round(u)).max() > 1e-6 for u in us if u.size):
            raise Fractional("relaxed labeling from an exact configuration %r" % (y,))
        y = np.concatenate([(u.argmax(-1) + o if u.size else np.zeros(0)).astype(int)
                            for u, o in zip(us, ds.insts[k].start)])
    return np.asarray(ds.insts[k].unfmt(y)).astype(int)


class Recorder(object):
    """Wraps the oracle methods of a model instance; calls holds ("lai" | "inf" | "latent", sample, w, result, y).

    hook(kind, sample, w) is called before each oracle call."""

    def __init__(self, model, ds=None, X=None, hook=None, Y=None):
        self.model, self.ds, self.calls, self.hook = model, ds, [], hook
        self.X, self.Y = X, Y
        self._local = threading.local()
        self.n_oracle = 0
        for name, kind in (("loss_augmented_inference", "lai"), ("inference", "inf"), ("latent", "latent")):
            if hasattr(model, name):
                self._single(name, kind)
        for name, kind in (("batch_loss_augmented_inference", "lai"), ("batch_inference", "inf")):
            if hasattr(model, name):
                self._batch(name, kind)

    @property
    def depth(self):
        return getattr(self._local, "depth", 0)

    @depth.setter
    def depth(self, v):
        self._local.depth = v

    def __getstate__(self):
        d = dict(self.__dict__)
        del d["_local"]
        return d

    def __setstate__(self, d):
        self.__dict__.update(d)
        self._local = threading.local()

    def index(self, x, y=None):
        if self.X is None:
            return None
        for k, z in enumerate(self.X):
            if z is x and not isinstance(self.X, np.ndarray):
                return k
        if self.Y is not None and y is not None:
            # equal inputs with different labels
            for k, (z, t) in enumerate(zip(self.X, self.Y)):
                try:
                    if np.shape(z) == np.shape(x) and np.array_equal(z, x) and np.array_equal(y, t):
                        return k
                except ValueError:
                    pass
        for k, z in enumerate(self.X):
            try:
                if np.shape(z) == np.shape(x) and np.array_equal(z, x):
                    return k
            except ValueError:
                pass
        return None

    def _single(self, name, kind):
        orig = getattr(self.model, name)

        def f(x, *a, **kw):
            if self.depth:
                return orig(x, *a, **kw)
            if kind == "inf":
                w = a[0] if a else kw["w"]
                y = None
            else:
                y = a[0] if a else kw["y"]
                w = a[1] if len(a) > 1 else kw["w"]
            w = np.array(w, float)
            self.n_oracle += 1
            if self.hook:
                self.hook(kind, x, w)
            self.depth += 1
            try:
                r = orig(x, *a, **kw)
            finally:
                self.depth -= 1
            y0 = r[0] if kw.get("return_energy") else r
            self.calls.append((kind, self.index(x, y), w, copy.deepcopy(y0), copy.deepcopy(y)))
            return r
        setattr(self.model, name, f)

    def _batch(self, name, kind):
        orig = getattr(self.model, name)

        def f(X, *a, **kw):
            if self.depth:
                return orig(X, *a, **kw)
            if kind == "inf":
                w = a[0] if a else kw["w"]
                Y = [None] * len(X)
            else:
                Y = a[0] if a else kw["Y"]
                w = a[1] if len(a) > 1 else kw["w"]
            w = np.array(w, float)
            self.n_oracle += 1
            if self.hook:
                self.hook(kind, X, w)
            self.depth += 1
            try:
                R = orig(X, *a, **kw)
            finally:
                self.depth -= 1
            for x, y, r in zip(X, Y, R):
                self.calls.append((kind, self.index(x, y), w, copy.deepcopy(r), copy.deepcopy(y)))
            return R
        setattr(self.model, name, f)


def planes_valid(ds, w_list, constraints, tol=1e-6):
    """cutting planes (mean feature difference, mean loss) must lie below the mean hinge loss for every w"""
    cons = ds.constraints()
    bad = []
    for w in w_list:
        h = np.mean([np.max(L - D.dot(w)) for D, L in cons])
        for k, (dj, l) in enumerate(constraints):
            v = l - np.dot(dj, w)
            if v > h + tol * (1 + abs(h) + np.abs(w).max()):
                bad.append((k, v, h))
    return bad


def vertex(ds, k, y_hat):
    """(feature difference, loss) of a labeling of sample k"""
    inst, f = ds.insts[k], flat_of(ds, k, y_hat)
    D = inst.psi(ds.flats[k]) - inst.psi(f)
    if inst.fam == "multiclass" and inst.rescale and inst.class_weight is not None:
        D = D * float(inst.class_weight[int(ds.flats[k][0])])
    return D, float(inst.losses(ds.flats[k], [f])[0])


def even_slices(n, k):
    """n samples in k slices of (almost) equal size, larger ones first"""
    out, lo = [], 0
    for j in range(k):
        hi = lo + n // k + (1 if j < n % k else 0)
        if hi > lo:
            out.append((lo, hi))
        lo = hi
    return out


def initable(ds):
    """latent families: can the model set its sizes from the training data and complete it itself?"""
    from checks.p17 import initable as f
    return f(ds)


KINDS = ("one-slack", "n-slack", "subgradient", "subgradient-latent", "fw", "fw-batch", "perceptron", "latent-one",
         "latent-n", "latent-sub")


class Plan(object):
    """A learner configuration on a data set: make() gives a new learner, fit(l, X, Y) trains it the same way each time"""

    def __init__(self, rng, ds, kind, C=None, method=BB, iters=None, extra=None, show_loss=True):
        self.ds, self.kind, self.C = ds, kind, (rand_C(rng, -3, .3) if C is None else C)
        self.method = method
        self.seed = int(rng.integers(2 ** 31))
        r = lambda p: rng.random() < p
        kw = {}
        if kind in ("one-slack", "latent-one"):
            kw = dict(C=self.C, tol=float(rng.choice([1e-1, 1e-2, 1e-3])), max_iter=iters or int(rng.choice([2, 6, 1500])))
            if r(.5):
                kw["inference_cache"] = int(rng.choice([1, 3, 20]))
            if r(.3):
                kw["inactive_window"] = int(rng.choice([0, 1, 5]))
                kw["inactive_threshold"] = float(rng.choice([1e-5, 1e-2]))
        elif kind in ("n-slack", "latent-n"):
            kw = dict(C=self.C, tol=float(rng.choice([-10, 1e-3])), max_iter=iters or int(rng.choice([2, 5, 300])),
                      batch_size=int(rng.choice([1, 2, 100, -1])))
        elif kind in ("subgradient", "subgradient-latent", "latent-sub"):
            kw = dict(C=self.C, max_iter=iters or int(rng.choice([1, 3, 8])), momentum=float(rng.choice([0, .5])),
                      averaging=[None, "linear", "squared"][int(rng.integers(3))])
            if kind == "subgradient" and r(.3):
                kw["batch_size"] = int(rng.choice([2, -1]))
        elif kind == "fw":
            kw = dict(C=self.C, max_iter=iters or int(rng.choice([1, 4, 12])), line_search=bool(r(.7)),
                      check_dual_every=int(rng.choice([1, 3, 10])), do_averaging=bool(r(.7)),
                      sample_method=str(rng.choice(["perm", "rnd", "seq"])), random_state=int(rng.integers(1000)))
        elif kind == "fw-batch":
            kw = dict(C=self.C, max_iter=iters or int(rng.choice([1, 4, 12])), batch_mode=True, line_search=bool(r(.7)))
        elif kind == "perceptron":
            kw = dict(max_iter=iters or int(rng.choice([1, 3, 10])), batch=bool(r(.4)),
                      average=[False, True, 1, -1][int(rng.integers(4))],
                      decay_exponent=float(rng.choice([0, .5])))
        else:
            raise HarnessError(kind)
        self.latent_iter = int(rng.integers(1, 5))
        if kind not in ("perceptron", "fw", "fw-batch", "subgradient-latent") and show_loss and r(.3):
            if not kind.startswith("latent"):
                kw["show_loss_every"] = int(rng.integers(1, 4))
        kw.update(extra or {})
        self.kw = kw
        self.latent = ds.first.latent
        self.own_init = kind.startswith("latent") and r(.3) and initable(ds)

    def describe(self):
        return "%s %r latent_iter=%d own_init=%r %s" % (self.kind, self.kw, self.latent_iter, self.own_init,
                                                       self.ds.describe())

    def model(self):
        return self.ds.make() if self.ds.first.scalar else self.ds.make(self.method)

    def data(self):
        """(X, Y) as the learner takes them, new objects"""
        ds = self.ds
        if self.kind.startswith("latent") or self.kind == "subgradient-latent":
            X, Y = ds.X(), ds.visible()
            if self.own_init and ds.first.grid:
                X, Y = np.array(X), np.array(Y)
            return copy.deepcopy(X), copy.deepcopy(Y)
        return copy.deepcopy(ds.X()), copy.deepcopy(ds.Y())

    def make(self, model=None, logger=None):
        from pystruct import learners as L
        model = self.model() if model is None else model
        cls = {"one-slack": L.OneSlackSSVM, "n-slack": L.NSlackSSVM, "subgradient": L.SubgradientSSVM,
               "subgradient-latent": L.SubgradientLatentSSVM, "fw": L.FrankWolfeSSVM, "fw-batch": L.FrankWolfeSSVM,
               "perceptron": L.StructuredPerceptron, "latent-one": L.OneSlackSSVM, "latent-n": L.NSlackSSVM,
               "latent-sub": L.SubgradientSSVM}[self.kind]
        base = cls(model, **self.kw)
        if self.kind.startswith("latent"):
            l = L.LatentSSVM(base, latent_iter=self.latent_iter)
        else:
            l = base
        l.logger = logger
        return l

    def h_init(self):
        return [inst.fmt(f) for inst, f in zip(self.ds.insts, self.ds.flats)]

    def fit(self, learner, X, Y, **kw):
        np.random.seed(self.seed)
        if self.kind.startswith("latent"):
            if self.own_init:
                learner.fit(X, Y, **kw)
            else:
                learner.fit(X, Y, H_init=self.h_init(), initialize=False, **kw)
        elif self.kind == "subgradient-latent":
            learner.fit(X, Y, H_init=self.h_init(), initialize=False, **kw)
        else:
            learner.fit(X, Y, initialize=can_initialize(self.ds), **kw)
        return learner

    def weights(self, learner):
        return np.array(learner.base_ssvm.w if self.kind.startswith("latent") else learner.w)


def plan(rng, ds, **kw):
    """a random plan fitting the family"""
    if ds.first.latent:
        kinds = ["latent-one", "latent-n", "latent-sub", "subgradient-latent"]
        kinds += ["one-slack", "n-slack", "subgradient", "perceptron", "fw"]
    else:
        kinds = ["one-slack", "one-slack", "n-slack", "subgradient", "fw", "fw-batch", "perceptron"]
    kind = str(rng.choice(kinds))
    if "latent" in kind and any(len(inst.visible_labels(f)) == 0 for inst, f in zip(ds.insts, ds.flats)):
        kind = "one-slack"
    if kind == "perceptron" and getattr(ds.first, "rescale", False):
        kind = "n-slack"  # scaling C has no meaning for the perceptron, which rejects it
    return Plan(rng, ds, kind, **kw)


def same(a, b, path="", out=None, skip=(), exact=True):
    """structural equality of two object graphs; list of differing paths"""
    out = [] if out is None else out
    if len(out) > 5:
        return out
    if a is b:
        return out
    if type(a) is not type(b):
        if not (isinstance(a, (int, float, np.generic)) and isinstance(b, (int, float, np.generic)) and a == b):
            out.append("%s: %s vs %s" % (path, type(a).__name__, type(b).__name__))
        return out
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            out.append("%s: %s%r vs %s%r" % (path, a.dtype, a.shape, b.dtype, b.shape))
        elif a.dtype == object:
            for k, (p, q) in enumerate(zip(a.ravel(), b.ravel())):
                same(p, q, "%s[%d]" % (path, k), out, skip)
        elif a.tobytes() != b.tobytes() and not np.array_equal(a, b, equal_nan=a.dtype.kind == "f"):
            out.append("%s: %r vs %r" % (path, a, b))
    elif type(a).__name__ in ("matrix", "spmatrix"):
        same(np.array(a), np.array(b), path, out, skip)
    elif isinstance(a, dict):
        if set(a) != set(b):
            out.append("%s: keys %r" % (path, set(a) ^ set(b)))
        else:
            for k in a:
                if k not in skip:
                    same(a[k], b[k], "%s.%s" % (path, k), out, skip)
    elif isinstance(a, (list, tuple)):
        if len(a) != len(b):
            out.append("%s: %d vs %d entries" % (path, len(a), len(b)))
        else:
            for k, (p, q) in enumerate(zip(a, b)):
                same(p, q, "%s[%d]" % (path, k), out, skip)
    elif hasattr(a, "__dict__") and not callable(a):
        same(a.__dict__, b.__dict__, path, out, skip)
    elif a != b and not (a != a and b != b):
        out.append("%s: %r vs %r" % (path, a, b))
    return out
