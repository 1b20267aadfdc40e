"""Compiled kernels under AddressSanitizer and UBSan, inside guarded buffers, against plain references."""
import numpy as np
from vlib.inst import FAMS, gen_feats
from vlib.oracle import forest_opt, pair_score
from vlib.data import Dataset

SANITIZE = True
CASES = {"quick": 32000, "thorough": 500000}
INT_DTYPES = [np.int16, np.int32, np.int64, np.longlong, np.uint8, np.int8, np.uint32]
ALL_DTYPES = INT_DTYPES + [np.uint16, np.uint64, np.bool_]
LABEL_FAMS = ("graph", "chain", "grid", "dirgrid", "edgefeat", "multilabel", "latgraph", "latgrid", "latdirgrid",
              "latnode", "eflatnode", "typed")
KERNEL_FAMS = ("graph", "chain", "grid", "dirgrid", "edgefeat", "multilabel", "typed")
MIN_EVENTS = {"joint-feature-kernel": 3000, "augment-kernel": 3000, "viterbi-kernel": 3000, "model-augment": 2500,
              "model-joint-feature": 1500, "chain-inference": 1500, "rejected": 3000, "out-of-range": 2000,
              "wrong-length": 800, "guards": 15000, "empty": 300, "strided": 4000, "negative-stride": 1000,
              "single": 800, "float-labels": 100}
MIN_EVENTS.update({"dtype:" + np.dtype(t).name: 400 for t in INT_DTYPES})
MIN_EVENTS.update({"fam:" + f: 150 for f in LABEL_FAMS})
RULE = ("Kernels called directly and through the models, in a build with AddressSanitizer and UBSan: shapes including "
        "empty and single rows x all supported integer types x contiguous, Fortran, strided, negatively strided and "
        "offset layouts inside larger guarded buffers; labels outside the range (negative, too large, wrapping around "
        "in narrower types) and of the wrong length for the families that use the kernels. Monitors: sanitizer reports (the process ends), "
        "bytes of the guard areas, read-only arguments bitwise unchanged, values against plain numpy references, "
        "an exception for every bad label. Non-trivial: non-empty shapes; distinct by arguments.")
ASSUMPTIONS = ""
CASE_CPU_S = 100.


class Guarded(object):
    """an array laid out strangely inside a larger buffer whose other bytes are watched"""

    def __init__(self, rng, a, obs, writable=True):
        a = np.asarray(a)
        self.obs = obs
        pads = [(int(rng.integers(0, 3)), int(rng.integers(0, 3))) for _ in range(a.ndim)]
        steps = [int(rng.choice([1, 1, 2, 3])) for _ in range(a.ndim)]
        shape = [lo + hi + n * s for (lo, hi), n, s in zip(pads, a.shape, steps)]
        fort = rng.random() < .4
        self.buf = np.empty(shape, a.dtype, order="F" if fort else "C")
        raw = rng.integers(0, 256, size=self.buf.nbytes, dtype=np.uint8)
        if self.buf.size:
            self.buf.T.reshape(-1).view(np.uint8)[:] = raw if fort else raw
        self.buf = np.array(np.frombuffer(raw.tobytes(), a.dtype).reshape(shape, order="F" if fort else "C"),
                            order="F" if fort else "C") if a.dtype != np.bool_ else np.zeros(
                                shape, bool, order="F" if fort else "C")
        idx, neg = [], False
        for (lo, hi), n, s in zip(pads, a.shape, steps):
            sl = slice(lo, lo + n * s, s) if n else slice(lo, lo)
            idx.append(sl)
        v = self.buf[tuple(idx)]
        for ax in range(a.ndim):
            if rng.random() < .2:
                v = v[(slice(None),) * ax + (slice(None, None, -1),)]
                neg = True
        self.view = v
        v[...] = a
        self.mask = np.ones(shape, bool)
        self.mask[tuple(idx)] = False
        self.before = self.buf[self.mask].tobytes()
        self.inside = self.view.tobytes()
        if v.size > 1 and not (v.flags.c_contiguous or v.flags.f_contiguous):
            obs.ev("strided")
        if neg:
            obs.ev("negative-stride")

    def intact(self):
        self.obs.ev("guards")
        return self.buf[self.mask].tobytes() == self.before

    def unchanged(self):
        return self.intact() and self.view.tobytes() == self.inside


def dims(rng, obs):
    n = int(rng.choice([0, 1, 2, 3, 7, 40], p=[.06, .14, .2, .2, .25, .15]))
    S = int(rng.choice([1, 2, 3, 5, 17], p=[.12, .25, .25, .25, .13]))
    F = int(rng.choice([0, 1, 2, 5, 11], p=[.05, .2, .25, .3, .2]))
    if n == 0 or F == 0:
        obs.ev("empty")
    if n == 1:
        obs.ev("single")
    return n, S, F


def joint_feature_kernel(rng, obs):
    from pystruct.models.utils import crammer_singer_joint_feature
    n, S, F = dims(rng, obs)
    dt = INT_DTYPES[int(rng.integers(len(INT_DTYPES)))]
    obs.ev("dtype:" + np.dtype(dt).name)
    X, Y, out = rng.normal(size=(n, F)), rng.integers(0, S, size=n).astype(dt), rng.normal(size=(S, F))
    ref = out.copy()
    for i in range(n):
        ref[int(Y[i])] += X[i]
    gX, gY, gO = Guarded(rng, X, obs), Guarded(rng, Y, obs), Guarded(rng, out, obs)
    d = lambda e="": "n=%d S=%d F=%d %s strides %r %r %r\n%s" % (n, S, F, np.dtype(dt), gX.view.strides, gY.view.strides,
                                                                gO.view.strides, e)
    crammer_singer_joint_feature(gX.view, gY.view, gO.view)
    obs.ev("joint-feature-kernel")
    obs.check(gX.unchanged() and gY.unchanged(), "joint-feature-writes-inputs", d)
    obs.check(gO.intact(), "joint-feature-writes-outside", d)
    obs.check(np.allclose(gO.view, ref, rtol=1e-12, atol=1e-12), "joint-feature-value", lambda: d("%r %r" % (
        gO.view, ref)))
    if n and F:
        obs.nontrivial("cs", n, S, F, dt, gX.view.strides, gY.view.strides, gO.view.strides)
        obs.sample(d())


def augment_kernel(rng, obs):
    from pystruct.models.utils import loss_augment_unaries
    n, S, _ = dims(rng, obs)
    dt = INT_DTYPES[int(rng.integers(len(INT_DTYPES)))]
    obs.ev("dtype:" + np.dtype(dt).name)
    U, y, cw = rng.normal(size=(n, S)), rng.integers(0, S, size=n).astype(dt), rng.uniform(.1, 3, size=S)
    ref = U.copy()
    for i in range(n):
        for s in range(S):
            if s != int(y[i]):
                ref[i, s] += cw[int(y[i])]
    gU, gY, gC = Guarded(rng, U, obs), Guarded(rng, y, obs), Guarded(rng, cw, obs)
    d = lambda e="": "n=%d S=%d %s strides %r %r %r\n%s" % (n, S, np.dtype(dt), gU.view.strides, gY.view.strides,
                                                           gC.view.strides, e)
    loss_augment_unaries(gU.view, gY.view, gC.view)
    obs.ev("augment-kernel")
    obs.check(gY.unchanged() and gC.unchanged(), "augment-writes-inputs", d)
    obs.check(gU.intact(), "augment-writes-outside", d)
    obs.check(np.allclose(gU.view, ref, rtol=1e-12, atol=1e-12), "augment-value", lambda: d("%r %r" % (gU.view, ref)))
    if n and S > 1:
        obs.nontrivial("aug", n, S, dt, gU.view.strides, gY.view.strides, gC.view.strides)


def viterbi_kernel(rng, obs):
    from pystruct.inference._viterbi import viterbi
    n = int(rng.choice([1, 2, 3, 8, 30]))
    S = int(rng.choice([1, 2, 3, 6]))
    if n == 1:
        obs.ev("single")
    style = rng.random()
    U, T = rng.normal(size=(n, S)), rng.normal(size=(n - 1, S, S))
    if style < .3:
        U, T = np.round(U), np.round(T)
    elif style < .45:
        U[rng.random(U.shape) < .3] = -np.inf
        U[:, 0] = 0
    gU, gT = Guarded(rng, U, obs), Guarded(rng, T, obs)
    d = lambda e="": "n=%d S=%d U=%r T=%r\n%s" % (n, S, U, T, e)
    path = np.asarray(viterbi(gU.view, gT.view))
    obs.ev("viterbi-kernel")
    obs.check(gT.unchanged(), "viterbi-writes-transitions", d)
    obs.check(gU.intact(), "viterbi-writes-outside", d)
    if not obs.check(path.shape == (n,) and path.dtype.kind == "i" and path.min() >= 0 and path.max() < S,
                     "viterbi-path", lambda: d("%r" % path)):
        return
    edges = np.c_[np.arange(n - 1), np.arange(1, n)]
    opt = forest_opt(U, T, edges)
    got = pair_score(U, T, edges, path)
    obs.check(got >= opt - 1e-9 * (1 + abs(opt)), "viterbi-value", lambda: d("%r of %r: %r" % (got, opt, path)))
    if n > 1 and S > 1:
        obs.nontrivial("vit", n, S, np.round(U, 3).tolist())


def relabel(rng, y, dt):
    """the same labels in another type and layout"""
    a = np.asarray(y).astype(dt)
    r = rng.random()
    if r < .3:
        big = np.zeros(tuple(2 * s for s in a.shape), dt)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if r < .5:
        return np.asfortranarray(a)
    if r < .7:
        return np.ascontiguousarray(a[::-1])[::-1]
    return a


def model_augment(rng, obs):
    fam = LABEL_FAMS[int(rng.integers(len(LABEL_FAMS)))]
    obs.ev("fam:" + fam)
    inst = FAMS[fam](rng, maxlab=300)
    model = inst.make("max-product" if fam != "typed" and rng.random() < .7 else "ad3")
    w = inst.rand_w(rng)
    yf = inst.rand_flat(rng)
    dt = ALL_DTYPES[int(rng.integers(len(ALL_DTYPES)))]
    if dt is np.bool_ and (inst.latent or len(yf) and yf.max() > 1):
        dt = np.int16
    y0 = inst.fmt(yf)
    y = relabel(rng, y0, dt)
    d = lambda e="": "%s w=%r y=%r %s strides=%r\n%s" % (inst.describe(), np.round(w, 4).tolist(), yf, np.dtype(dt),
                                                        y.strides, e)
    keep = y.tobytes()
    a = model.loss_augmented_inference(inst.x, y, w)
    b = model.loss_augmented_inference(inst.x, y0, w)
    obs.ev("model-augment")
    obs.check(y.tobytes() == keep, "labels-changed", d)
    obs.check(np.array_equal(a, b) and inst.ok_labels(a), "augment-depends-on-type", lambda: d("%r %r" % (a, b)))
    obs.nontrivial(inst.describe(), np.round(w, 3).tolist(), np.dtype(dt).name)


def model_joint_feature(rng, obs):
    inst = FAMS["multiclass"](rng)
    model = inst.make()
    n = int(rng.choice([1, 2, 5, 12]))
    S, F = inst.n_states, inst.F
    X, Y = rng.normal(size=(n, F)), rng.integers(0, S, size=n)
    T = rng.integers(0, S, size=n)
    gX = Guarded(rng, X, obs)
    dt = ALL_DTYPES[int(rng.integers(len(ALL_DTYPES)))]
    if Y.max() > 1 and dt is np.bool_:
        dt = np.uint16
    args = (relabel(rng, Y, dt),) + ((relabel(rng, T, np.int64),) if inst.rescale else ())
    got = model.batch_joint_feature(gX.view, *args)
    obs.ev("model-joint-feature")
    ref = np.zeros((S, F))
    for i in range(n):
        ref[Y[i]] += X[i] * (1. if not inst.rescale or inst.class_weight is None else inst.class_weight[T[i]])
    d = lambda e="": "%s X strides %r Y=%r %s\n%s" % (inst.describe(), gX.view.strides, Y, np.dtype(dt), e)
    obs.check(gX.unchanged(), "batch-writes-inputs", d)
    obs.check(np.allclose(got, ref.ravel(), rtol=1e-10, atol=1e-12), "batch-joint-feature", lambda: d("%r %r" % (
        got, ref)))
    # integer and single precision inputs
    Xi = rng.integers(-3, 4, size=(n, F))
    for t in (np.float32, np.int64, np.int8):
        got = model.batch_joint_feature(Xi.astype(t), *args)
        ref[:] = 0
        for i in range(n):
            ref[Y[i]] += Xi[i] * (1. if not inst.rescale or inst.class_weight is None else inst.class_weight[T[i]])
        obs.check(np.allclose(got, ref.ravel()), "batch-joint-feature-type", lambda: d("%r %r %r" % (t, got, ref)))
    obs.nontrivial("mc", n, S, F, np.dtype(dt).name, gX.view.strides)


def chain_inference(rng, obs):
    """max-product on chains of any size and input type through the dispatcher"""
    from pystruct.inference import inference_dispatch
    from pystruct.inference.maxprod import inference_max_product
    n = int(rng.choice([1, 2, 3, 10]))
    S = int(rng.choice([1, 2, 4]))
    U, P = rng.normal(size=(n, S)) * 3, rng.normal(size=(n - 1, S, S)) * 3
    dt = [np.float64, np.float32, np.int64, np.int8][int(rng.integers(4))]
    gU, gP = Guarded(rng, U.astype(dt), obs), Guarded(rng, P.astype(dt), obs)
    edges = np.c_[np.arange(n - 1), np.arange(1, n)].astype([np.int64, np.int32][int(rng.integers(2))])
    f = (lambda *a: inference_dispatch(*a, inference_method="max-product")) if rng.random() < .5 else inference_max_product
    y = np.asarray(f(gU.view, gP.view, edges))
    obs.ev("chain-inference")
    d = lambda e="": "U=%r P=%r y=%r %s" % (gU.view, gP.view, y, e)
    obs.check(gU.unchanged() and gP.unchanged(), "potentials-changed", d)
    if obs.check(y.shape == (n,) and y.min() >= 0 and y.max() < S, "path", d):
        u, p = gU.view.astype(float), gP.view.astype(float)
        opt = forest_opt(u, p, edges)
        obs.check(pair_score(u, p, edges, y) >= opt - 1e-5 * (1 + abs(opt)), "chain-value", d)


def rejected(obs, key, f, d):
    obs.ev("rejected")
    try:
        r = f()
    except (ValueError, IndexError, TypeError, AssertionError, OverflowError) as e:
        return
    obs.fail(key, d("accepted, result %r" % (r,)))


def bad_labels(rng, obs):
    # (the latent families do not hand the labels of the caller to the kernels)
    fam = KERNEL_FAMS[int(rng.integers(len(KERNEL_FAMS)))]
    obs.ev("fam:" + fam)
    inst = FAMS[fam](rng, maxlab=300)
    model = inst.make("max-product" if fam != "typed" else "ad3")
    w = inst.rand_w(rng)
    yf = inst.rand_flat(rng)
    if not len(yf):
        return
    # the number of states the kernel knows about
    top = 2 if fam == "multilabel" else int(sum(inst.lS)) if fam == "typed" else inst.S()
    r = rng.random()
    y = np.array(yf, np.int64)
    k = int(rng.integers(len(y)))
    if r < .65:
        y[k] = int(rng.choice([-1, -2, top, top + 1, -top - 1, 127, 255, -128, 30000, 2 ** 31 - 1, -2 ** 31, 2 ** 40, 10 ** 6]))
        if fam == "typed" and rng.random() < .5:
            t = int(np.searchsorted(np.cumsum(inst.ln), k, side="right"))
            y[k] = inst.start[t] + inst.lS[t] if rng.random() < .5 else inst.start[t] - 1
        obs.ev("out-of-range")
        fits = [t for t in (np.int64, np.int32, np.int16, np.int8, np.uint8, np.uint16, np.uint32, np.uint64)
                if np.iinfo(t).min <= y.min() and y.max() <= np.iinfo(t).max]
        y = y.astype(fits[int(rng.integers(len(fits)))])
        y = y.reshape(inst.shape)
    elif r < .9:
        obs.ev("wrong-length")
        if inst.grid:
            y = y.reshape(inst.shape)
            y = np.concatenate([y, y[:1]]) if rng.random() < .5 else y[:-1]
        elif rng.random() < .5:
            y = y[:-1]
        else:
            y = np.hstack([y, y[:int(rng.integers(1, 3))]])
    else:
        obs.ev("float-labels")
        y = y + .5
        y = y.reshape(inst.shape)
    d = lambda e="": "%s y=%r\n%s" % (inst.describe(), y, e)
    rejected(obs, "accepted:" + fam, lambda: model.loss_augmented_inference(inst.x, y, w), d)
    obs.nontrivial(inst.describe(), y.tolist())


def bad_classes(rng, obs):
    inst = FAMS["multiclass"](rng)
    model = inst.make()
    n, S = int(rng.integers(1, 6)), inst.n_states
    X, Y = rng.normal(size=(n, inst.F)), rng.integers(0, S, size=n)
    Y[int(rng.integers(n))] = int(rng.choice([-1, S, S + 5, 1000, -S - 1, 2 ** 33]))
    if inst.rescale:
        return
    obs.ev("out-of-range")
    d = lambda e="": "%s Y=%r\n%s" % (inst.describe(), Y, e)
    rejected(obs, "accepted:multiclass", lambda: model.batch_joint_feature(X, Y), d)
    obs.ev("wrong-length")
    rejected(obs, "accepted:multiclass-length", lambda: model.batch_joint_feature(X, Y[:-1]), d)
    rejected(obs, "accepted:multiclass-features", lambda: model.batch_joint_feature(X[:, :-1], np.abs(Y) % S), d)


def degenerate(rng, obs):
    """edgeless, empty and one-state problems end in a result or an exception, never in foreign memory"""
    from pystruct.inference import inference_dispatch
    obs.ev("empty")
    n, S = int(rng.choice([0, 0, 1, 2])), int(rng.choice([0, 1, 2]))
    m = str(rng.choice(["max-product", "lp", "unary"]))
    if n == 0 and m == "lp":
        m = "max-product"
    if S == 0 and m == "lp":
        m = "unary"
    U, P, E = np.zeros((n, S)), np.zeros((0, S, S)), np.zeros((0, 2), int)
    try:
        y = np.asarray(inference_dispatch(U, P, E, m))
    except Exception:
        obs.ev("rejected")
        return
    obs.check(y.shape == (n,), "degenerate-shape", lambda: "n=%d S=%d %s: %r" % (n, S, m, y))


KINDS = [joint_feature_kernel, augment_kernel, viterbi_kernel, model_augment, model_joint_feature, chain_inference,
         bad_labels, bad_labels, bad_classes, degenerate]


def case(rng, i, obs, tier):
    KINDS[i % len(KINDS)](rng, obs)
