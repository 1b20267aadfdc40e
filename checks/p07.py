"""Batch and parallel evaluation against single-sample calls and the reference semantics."""
import numpy as np
import joblib
from vlib.inst import FAM_LIST, FAMS, close
from vlib.data import Dataset
from vlib.history import history
from vlib.learn import several

CASES = {"quick": 4600, "thorough": 60000}
MIN_EVENTS = {"history:batch_inference": 300, "history:batch_lai": 300, "batch_inference": 8000, "batch_lai": 8000, "batch_jf": 4000, "parallel_predict": 600, "relaxed": 600,
              "fit_threads": 100, "fit_processes": 6, "mixed_shapes": 500}
RULE = ("A data set of 1-6 samples (mixed sizes) of one of 14 families x weights x solver: batch (loss-augmented) "
        "inference, batch joint features and losses per sample against the single calls; predict, score and fitted "
        "weights with n_jobs 1 against 2-3 (threads, some real worker processes). Non-trivial: at least two samples "
        "with different optima; distinct by data and weights.")
BB = ("ad3", {"branch_and_bound": True})


def flatten(inst, res):
    return np.asarray(inst.unfmt(res)).astype(int)


def objective(inst, model, w, x, res, y=None, exact_y=None):
    """score (+ loss) of a result, by the model's own features for marginals"""
    if isinstance(res, tuple):
        s = float(np.dot(w, model.joint_feature(x, res)))
        return s + (float(model.loss(inst.fmt(y), res)) if y is not None else 0.)
    f = flatten(inst, res)
    s = inst.score(w, f)
    if inst.fam == "multiclass" and y is not None and inst.rescale and inst.class_weight is not None:
        s *= float(inst.class_weight[int(y[0])])
    return s + (inst.loss(y, f) if y is not None else 0.)


def same(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)):
            return False
        return all(same_marg(p, q) for p, q in zip(a, b))
    return np.array_equal(a, b)


def same_marg(p, q):
    if isinstance(p, (list, tuple)):
        return len(p) == len(q) and all(same_marg(a, b) for a, b in zip(p, q))
    return np.allclose(p, q, atol=1e-9)


def parallel(rng, obs, procs):
    return joblib.parallel_backend("loky" if procs else "threading", n_jobs=2)


def case(rng, i, obs, tier):
    if i % 11 == 10:
        history(rng, obs, FAM_LIST[int(rng.integers(len(FAM_LIST)))], ["batch_inference", "batch_lai"])
        return
    if i % 24 == 5:
        return fit_case(rng, i, obs, procs=(i // 24) % 16 == 0)
    fam = FAM_LIST[i % len(FAM_LIST)]
    ds = Dataset(rng, fam, several(rng, 7), same_shape=bool(rng.random() < .3))
    first = ds.first
    if len({tuple(np.shape(f)) for f in ds.flats}) > 1:
        obs.ev("mixed_shapes")
    w = first.rand_w(rng)
    if first.scalar:
        model, mn = ds.make(), "argmax"
    else:
        ms = [BB, "ad3", "lp", "max-product"] if fam != "typed" else [BB, "ad3", "ad3+", BB]
        m = ms[rng.choice(4, p=[.4, .2, .2, .2])]
        model, mn = ds.make(m), m if isinstance(m, str) else "bb"
    key = "%s:%s" % (fam, mn)
    X, Y = ds.X("array" if rng.random() < .5 else None), ds.Y()
    d = lambda e="": "%s method=%s w=%s\n%s" % (ds.describe(), mn, np.round(w, 5).tolist(), e)
    relaxed = mn in ("ad3", "lp", "ad3+") and rng.random() < .6
    opts = {}
    if relaxed:
        obs.ev("relaxed")
    if relaxed or rng.random() < .3:
        opts["relaxed"] = relaxed
    # --- inference
    b = model.batch_inference(X, w, **opts)
    s = [model.inference(x, w, **opts) for x in X]
    obs.ev("batch_inference", ds.n)
    if not obs.check(len(b) == ds.n, "batch-length:" + key, lambda: d("%r" % (b,))):
        return
    for inst, x, p, q in zip(ds.insts, X, b, s):
        oa, ob = objective(inst, model, w, x, p), objective(inst, model, w, x, q)
        tol = 1e-7 * (1 + abs(ob))
        obs.check(abs(oa - ob) <= tol, "batch-inference:" + key, lambda: d("batch %r (%r) single %r (%r)" % (
            p, oa, q, ob)))
        if inst.scalar:  # (ties may be decided differently)
            obs.check(inst.ok_labels(p) and inst.ok_labels(q), "batch-inference-label:" + key, lambda: d("%r %r" % (p, q)))
        else:
            obs.check(same(p, q), "batch-inference-differs:" + key, lambda: d("batch %r single %r" % (p, q)))
    # --- loss augmented
    b2 = model.batch_loss_augmented_inference(X, Y, w, **opts)
    s2 = [model.loss_augmented_inference(x, y, w, **opts) for x, y in zip(X, Y)]
    obs.ev("batch_lai", ds.n)
    if not obs.check(len(b2) == ds.n, "batch-lai-length:" + key, lambda: d("%r" % (b2,))):
        return
    for inst, x, p, q, y in zip(ds.insts, X, b2, s2, ds.flats):
        oa, ob = objective(inst, model, w, x, p, y), objective(inst, model, w, x, q, y)
        tol = 1e-7 * (1 + abs(ob))
        obs.check(abs(oa - ob) <= tol, "batch-lai:" + key, lambda: d("y=%r batch %r (%r) single %r (%r)" % (
            y, p, oa, q, ob)))
        if inst.scalar:
            obs.check(inst.ok_labels(p) and inst.ok_labels(q), "batch-lai-label:" + key, lambda: d("%r %r" % (p, q)))
        else:
            obs.check(same(p, q), "batch-lai-differs:" + key, lambda: d("batch %r single %r" % (p, q)))
    # --- joint feature and loss of what came back
    resc = fam == "multiclass" and first.rescale
    args = (Y,) if resc or rng.random() < .3 else ()
    got = model.batch_joint_feature(X, Y, *args)
    cw = lambda inst, y: float(inst.class_weight[int(y[0])]) if resc and inst.class_weight is not None else 1.
    ref = sum(inst.psi(y) * cw(inst, y) for inst, y in zip(ds.insts, ds.flats))
    obs.ev("batch_jf")
    obs.check(close(got, ref, atol=1e-7), "batch-jf:" + fam, lambda: d("got %r expected %r" % (got, ref)))
    Yh = b2
    got = model.batch_joint_feature(X, Yh, *args)
    if resc:
        one = sum(model.joint_feature(x, y, t) for x, y, t in zip(X, Yh, Y))
    else:
        one = sum(model.joint_feature(x, y) for x, y in zip(X, Yh))
    obs.check(close(got, one, atol=1e-7), "batch-jf-single:" + fam, lambda: d("got %r expected %r" % (got, one)))
    bl = np.asarray(model.batch_loss(Y, Yh), float)
    sl = np.array([model.loss(y, h) for y, h in zip(Y, Yh)], float)
    obs.check(close(bl, sl), "batch-loss-single:" + fam, lambda: d("%r %r" % (bl, sl)))
    # --- learner: predict and score do not depend on n_jobs
    if rng.random() < .3:
        from pystruct import learners as L
        cls = [L.OneSlackSSVM, L.NSlackSSVM, L.SubgradientSSVM][rng.integers(3)]
        a, c = cls(model), cls(model, n_jobs=2)
        a.w = c.w = w
        with parallel(rng, obs, False):
            p1, p2 = a.predict(X), c.predict(X)
            s1, s2_ = a.score(X, Y), c.score(X, Y)
        obs.ev("parallel_predict")
        obs.check(len(p1) == len(p2) == ds.n and all(
            abs(objective(inst, model, w, x, p) - objective(inst, model, w, x, q)) <= 1e-7 * (1 + abs(
                objective(inst, model, w, x, q))) for inst, x, p, q in zip(ds.insts, X, p1, p2)),
            "predict-njobs:" + key, lambda: d("n_jobs=1 %r n_jobs=2 %r" % (p1, p2)))
        if not first.scalar:
            obs.check(abs(s1 - s2_) < 1e-9, "score-njobs:" + key, lambda: d("%r %r" % (s1, s2_)))
    if ds.n > 1 and len({tuple(np.ravel(np.asarray(inst.unfmt(q)))) for inst, q in zip(ds.insts, s)
                         if not isinstance(q, tuple)}) > 1:
        obs.nontrivial(ds.describe(), np.round(w, 4).tolist(), mn)
        obs.sample(d("batch %r" % (b,)))


def fit_case(rng, i, obs, procs):
    """weights fitted with n_jobs 1 and with several jobs"""
    from pystruct import learners as L
    fam = ["graph", "chain", "grid", "edgefeat", "multilabel", "multiclass", "dirgrid"][rng.integers(7)]
    ds = Dataset(rng, fam, int(rng.integers(2, 6)), maxlab=200, feat="normal", truth="random")
    C = float(10 ** rng.uniform(-2, 0))
    kind = ["one", "n", "perc"][rng.integers(3)]

    def make(nj):
        m = ds.make() if ds.first.scalar else ds.make(BB)
        if kind == "one":
            return L.OneSlackSSVM(m, C=C, n_jobs=nj, max_iter=60, tol=1e-4)
        if kind == "n":
            return L.NSlackSSVM(m, C=C, n_jobs=nj, max_iter=20, batch_size=bs)
        return L.StructuredPerceptron(m, max_iter=6, n_jobs=nj, batch=True, average=av)
    bs = int(rng.choice([100, 2, -1]))
    av = bool(rng.random() < .5)
    X, Y = ds.X(), ds.Y()
    # n_states inferred: every model is constructed with its sizes; the data must contain all labels
    if fam != "multilabel" and len(np.unique(np.hstack([np.ravel(f) for f in ds.flats]))) != ds.first.n_states:
        return
    if kind == "perc" and fam == "multiclass" and ds.first.rescale:
        return
    w = make(1).fit(X, Y).w
    nj = int(rng.choice([2, 3]))
    with parallel(rng, obs, procs):
        w2 = make(nj).fit(X, Y).w
    obs.ev("fit_processes" if procs else "fit_threads")
    obs.check(close(w, w2, rtol=1e-5, atol=1e-6), "fit-njobs:%s" % kind, lambda: "%s C=%r n_jobs=%d bs=%r\n%r\n%r" % (
        ds.describe(), C, nj, bs, w, w2))
    obs.nontrivial(ds.describe(), kind, nj, procs)
