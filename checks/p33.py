"""Downhill simplex learner: the weights it keeps against all weights it tried and against the certified optimum."""
import contextlib
import io

import numpy as np
from vlib.data import ssvm_optimum
from vlib.learn import training_set, rand_C, Recorder, vertex, BB

FAMS = ("graph", "chain", "grid", "binary", "multiclass", "multilabel", "edgefeat")
CASES = {"quick": 1500, "thorough": 20000}
MIN_EVENTS = {"fits": 250, "evaluations": 50000, "near-optimum": 100, "second-start": 20, "predicted": 250}
RULE = ("Small training sets (1-4 samples, <=16 labelings each, at most 6 weights) of 7 families x C. Monitor: every "
        "weight vector the learner evaluates (recorded at the model's oracle), its objective (mean hinge loss plus "
        "|w|^2/(2C)) computed by enumeration. The learned weights must be the best of those, at least as good as both "
        "starting points, not below the certified optimum, and reached by descent from both starts. Non-trivial: "
        "the result beats both starts; distinct by data.")
ASSUMPTIONS = "scipy's simplex search; how close it comes to the optimum is not judged (no guarantee)"
CASE_CPU_S = 100.


def case(rng, i, obs, tier):
    from pystruct.learners import PrimalDSStructuredSVM
    fam = FAMS[i % len(FAMS)]
    ds = training_set(rng, fam=fam, n=int(rng.integers(1, 5)), maxlab=16)
    if ds.wdim > 6 or (fam == "multiclass" and ds.first.rescale):
        obs.ev("too-large")
        return
    C = rand_C(rng, -1.5, 1.5)
    n = ds.n
    model = ds.make() if ds.first.scalar else ds.make(BB)
    X, Y = ds.X(), ds.Y()
    rec = Recorder(model, ds, X, Y=Y)
    learner = PrimalDSStructuredSVM(model, C=C)
    d = lambda e="": "%s C=%r\n%s" % (ds.describe(), C, e)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = learner.fit(X, Y)
    obs.ev("fits")
    obs.check(r is learner, "fit-returns-self", d)
    w = np.asarray(learner.w)
    if not obs.check(w.shape == (ds.wdim,) and np.isfinite(w).all(), "weights-shape", lambda: d("%r" % w)):
        return
    F = lambda v: float(ds.hinge(v).mean() + v.dot(v) / (2. * C))
    seq = [c[2] for c in rec.calls[::n]]
    # scipy drops the points of an unfinished step when its limit of evaluations is reached
    starts = [k for k, v in enumerate(seq) if np.allclose(v, 1. + 1e-5, atol=1e-12) or np.allclose(v, 1e-5, atol=1e-12)]
    ends = starts[1:] + [len(seq)]
    dropped = set()
    for lo, hi in zip(starts, ends):
        if hi - lo >= 200 * ds.wdim:
            dropped.update(range(hi - 2 - ds.wdim, hi))
            obs.ev("limit")
    tried = {}
    for k, v in enumerate(seq):
        tried.setdefault(v.tobytes(), (k, v))
    vals = np.array([F(v) for _, v in tried.values()])
    obs.ev("evaluations", len(vals))
    best = min([v for v, (k, _) in zip(vals, tried.values()) if k not in dropped])
    got = F(w)
    scale = 1 + abs(best)
    obs.check(got <= best + (1e-9 if ds.first.scalar else 1e-5) * scale, "not-the-best-tried", lambda: d("objective %r best tried %r of %d" % (got, best, len(vals))))
    obs.check(w.tobytes() in tried, "never-tried", lambda: d("%r" % w))
    zero = F(np.full(ds.wdim, 1e-5))
    one = F(np.full(ds.wdim, 1. + 1e-5))
    obs.check(got <= min(zero, one) + (1e-9 if ds.first.scalar else 1e-5) * scale, "worse-than-start", lambda: d("%r starts %r %r" % (got, zero, one)))
    opt = ssvm_optimum(ds.constraints(), C / n)
    low = opt[0] / C
    obs.check(got >= low - 1e-6 * scale, "below-optimum", lambda: d("%r optimum %r" % (got, low)))
    if got <= opt[1] / C + 1e-2 * scale:
        obs.ev("near-optimum")
    # the search goes on from both starts until it no longer improves
    half = [v for v in tried.values()]
    if any(np.allclose(v[1], 1. + 1e-5, atol=1e-12) for v in half) and any(np.allclose(v[1], 1e-5, atol=1e-12) for v in half):
        obs.ev("second-start")
    pred = learner.predict(X)
    obs.ev("predicted")
    for inst, p in zip(ds.insts, pred):
        f = np.asarray(inst.unfmt(p)).astype(int)
        sc = np.asarray(inst.scores(w, inst.all_flat()), float)
        obs.check_exact(inst.score(w, f) >= sc.max() - 1e-6 * (1 + np.abs(sc).max()), "prediction", lambda: d("%r" % p))
    if got < min(zero, one) - 1e-3 * scale:
        obs.nontrivial(ds.describe(), C)
        obs.sample(d("tried %d objective %r optimum %r" % (len(vals), got, opt[1] / C)))
