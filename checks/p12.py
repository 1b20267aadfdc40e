"""One-slack cutting-plane training against a certified optimum of the structured SVM and the recorded trace."""
import numpy as np
from vlib.data import ssvm_optimum
from vlib.learn import hard_set, training_set, rand_C, rescaled, can_initialize, Recorder, planes_valid, BB, PLAIN, LATENT

CASES = {"quick": 2600, "thorough": 40000}
MIN_EVENTS = {"long-run": 10, "units": 60, "converged": 1200, "optimum": 1200, "dual_values": 8000, "primal_values": 8000, "planes": 8000,
              "latent": 300, "threads": 100, "max_iter": 50, "relaxed": 100}
MIN_EVENTS.update({"fam:" + f: 50 for f in PLAIN + LATENT})
RULE = ("Small training sets (1-5 samples, <=60 labelings each) of all 14 families x C x tol x options; certified "
        "optimum by a QP over all labelings. Monitors: recorded dual/primal values against the optimum, against each "
        "other and against the true risk of the weights of that iteration, validity of every cutting plane, weights = "
        "dual combination, final risk within C*n*tol. Non-trivial: at least 3 cutting planes; distinct by data.")
ASSUMPTIONS = "cvxopt QP accuracy (relative 1e-5 of the objective scale) is granted to the learner"
CASE_CPU_S = 100.


def switch_case(rng, obs):
    """Training that starts with a weak inference method and switches to an exact one once it has stalled."""
    from pystruct.learners import OneSlackSSVM
    ds = training_set(rng, fam=str(rng.choice(["graph", "grid", "edgefeat", "dirgrid", "multilabel"])))
    n = ds.n
    if sum(len(l) for _, l in ds.constraints()) >= 1500:
        return
    C = rand_C(rng)
    weak = str(rng.choice(["unary", "max-product"]))
    model = ds.make(weak)
    kw = dict(tol=float(rng.choice([1e-1, 1e-2, 1e-3])), max_iter=2000)
    if rng.random() < .3:
        kw["inference_cache"] = int(rng.choice([1, 3, 50]))
        kw["cache_tol"] = str(rng.choice(["auto", "0.1"]))
        if kw["cache_tol"] != "auto":
            kw["cache_tol"] = .1
    learner = OneSlackSSVM(model, C=C, switch_to=BB, **kw)
    X, Y = ds.X(), ds.Y()
    d = lambda e="": "%s %s -> %r C=%r kw=%r\n%s" % (ds.describe(), weak, BB, C, kw, e)
    methods = []
    orig = model.loss_augmented_inference

    def lai(*a, **k):
        methods.append(model.inference_method)
        return orig(*a, **k)
    model.loss_augmented_inference = lai
    try:
        learner.fit(X, Y, initialize=can_initialize(ds))
    except ValueError as e:
        if "QP solver failed" in str(e):
            obs.ev("qp-failed")
            return
        raise
    w = learner.w
    opt = ssvm_optimum(ds.constraints(), C)
    scale = 1 + opt[1]
    eps = 2e-5 * scale
    r = ds.risk(w, C)
    dual = np.array(learner.objective_curve_, float)
    obs.ev("switch")
    obs.check(methods[0] == weak, "switch-early", lambda: d(repr(methods)))
    obs.check(np.all(dual <= opt[1] + eps), "switch-dual-above-optimum", lambda: d("%r > %r" % (dual.tolist(), opt[1])))
    if methods[-1] == BB:
        k = methods.index(BB)
        obs.check(all(m == BB for m in methods[k:]), "switch-back", lambda: d(repr(methods)))
        obs.check(abs(learner.primal_objective_curve_[-1] - r) <= 1e-5 * (1 + abs(r) + C * n), "switch-final-primal",
                  lambda: d("recorded %r true %r" % (learner.primal_objective_curve_[-1], r)))
    passes = len(methods) // n
    if passes < kw["max_iter"]:
        obs.ev("switch-converged")
        obs.check(methods[-1] == BB and methods[-1 - n] == BB, "never-switched", lambda: d(repr(methods)))
        obs.check(r <= opt[1] + C * n * kw["tol"] + eps, "switch-not-optimal", lambda: d("risk %r optimum %r" % (r, opt[1])))


def case(rng, i, obs, tier):
    if i % 10 == 7:
        switch_case(rng, obs)
        return
    import cvxopt
    from pystruct.learners import OneSlackSSVM
    fams = PLAIN + LATENT
    fam = fams[i % len(fams)]
    hard = i % 26 == 12
    ds = hard_set(rng) if hard else training_set(rng, fam=fam)
    fam = ds.fam
    n = ds.n
    obs.ev("fam:" + fam)
    if fam in LATENT:
        obs.ev("latent")
    C = rescaled(rng, ds, rand_C(rng))
    obs.ev("units", hasattr(ds, "units"))
    tol = float(rng.choice([1e-1, 1e-2, 1e-3, 1e-5]))
    relaxed = fam in ("graph", "grid", "edgefeat", "dirgrid", "multilabel") and rng.random() < .15
    model = ds.make() if ds.first.scalar else ds.make("lp" if relaxed else BB)
    if relaxed:
        obs.ev("relaxed")
    X, Y = ds.X(), ds.Y()
    rec = Recorder(model, ds, X)
    if hard:
        C, tol = float(rng.choice([1., 10., 100.])), float(rng.choice([1e-2, 1e-3]))
    kw = dict(C=C, tol=tol, max_iter=int(rng.choice([2000, 2000, 2000, 3, 8])))
    if hard:
        kw["max_iter"] = 2000
    if rng.random() < .25:
        kw["check_constraints"] = True
    if rng.random() < .15:
        kw["show_loss_every"] = int(rng.integers(1, 4))
    if rng.random() < .1 and fam != "typed":
        kw["n_jobs"] = 2
        obs.ev("threads")
    if rng.random() < .3:
        kw["inactive_threshold"] = float(rng.choice([1e-5, 1e-3, 1e-8]))
        kw["inactive_window"] = int(rng.choice([0, 3, 10, 50]))
    learner = OneSlackSSVM(model, **kw)
    d = lambda e="": "%s method=%s kw=%r\n%s" % (ds.describe(), getattr(model, "inference_method", ""), kw, e)
    ws = []

    def logger(l, it):
        ws.append((it, l.w.copy(), [(np.array(a), float(b)) for a, b in l.constraints_]
                   if hasattr(l, "constraints_") else [], [list(a[-1:]) for a in l.alphas]))
    learner.logger = logger
    import joblib
    try:
        with joblib.parallel_backend("threading"):
            learner.fit(X, Y, initialize=can_initialize(ds))
    except ValueError as e:
        if "QP solver failed" in str(e):
            obs.ev("qp-failed")
            return
        raise
    w = learner.w
    dual = np.array(learner.objective_curve_, float)
    prim = np.array(learner.primal_objective_curve_, float)
    obs.check(w.shape == (ds.wdim,) and np.all(np.isfinite(w)), "weights-shape", lambda: d("%r" % w))
    obs.check(len(dual) == len(prim) == len(ws) == len(learner.timestamps_) - 1, "curve-lengths", lambda: d(
        "%d %d %d" % (len(dual), len(prim), len(ws))))
    opt = None
    if sum(len(l) for _, l in ds.constraints()) < 1500:
        opt = ssvm_optimum(ds.constraints(), C)
    scale = 1 + (opt[1] if opt else abs(dual).max())
    eps = 2e-5 * scale
    # the true risk of the weights of every iteration
    wprev = np.zeros(ds.wdim)
    # pruning may cost as much as the pruned dual variables contributed
    thr = kw.get("inactive_threshold", 1e-5) if kw.get("inactive_window", 50) else 0.
    for k, (it, wk, cons, al) in enumerate(ws):
        if it == "final":
            continue
        obs.ev("primal_values")
        obs.ev("dual_values")
        r = ds.risk(wprev, C)
        if not relaxed:
            obs.check(abs(prim[k] - r) <= 1e-5 * (1 + abs(r) + C * n), "recorded-primal", lambda: d(
                "iteration %d: recorded %r true risk %r" % (k, prim[k], r)))
        else:
            obs.check(prim[k] >= r - 1e-3 * (1 + abs(r)), "recorded-primal-relaxed", lambda: d(
                "iteration %d: recorded %r true risk %r" % (k, prim[k], r)))
        obs.check(prim[k] >= dual[k] - eps, "primal-below-dual", lambda: d("%d: %r %r" % (k, prim[k], dual[k])))
        if k:
            obs.check(dual[k] >= dual[k - 1] - eps - 10 * thr * scale, "dual-decreases", lambda: d("%d %r" % (k, dual.tolist())))
        if opt and not relaxed:
            obs.check(dual[k] <= opt[1] + eps, "dual-above-optimum", lambda: d("%d: %r > %r" % (k, dual[k], opt[1])))
        # weights from the stored duals
        comb = np.zeros(ds.wdim)
        amax = max([a[-1] for a in al if len(a)] or [0])
        for (dj, l), a in zip(cons, al):
            comb += a[-1] * dj
        fs = max([np.abs(c[0]).max() for c in cons] + [1e-9])
        room = 1e-9 * (1 + np.abs(wk).max()) + 3 * thr * C * n * (fs + feature_scale(ds))
        obs.check(len(cons) == len(al) and np.abs(comb - wk).max() <= room, "weights-combination", lambda: d(
            "iteration %d: w %r combination %r" % (k, wk, comb)))
        wprev = wk
    if ws and len(ws) > 1:
        cons = ws[-2][2]
        if not relaxed:
            obs.ev("planes", len(cons) * 4)
            bad = planes_valid(ds, [w, np.zeros(ds.wdim), rng.normal(size=ds.wdim), -w], cons)
            obs.check(not bad, "invalid-cutting-plane", lambda: d("%r" % bad[:5]))
    # final values
    r = ds.risk(w, C)
    if relaxed:
        obs.check(prim[-1] >= r - 1e-3 * (1 + abs(r)), "final-primal-relaxed", lambda: d("%r %r" % (prim[-1], r)))
    else:
        obs.check(abs(prim[-1] - r) <= 1e-5 * (1 + abs(r) + C * n), "final-primal", lambda: d("recorded %r true %r" % (
            prim[-1], r)))
    iters = len(ws) - 1
    if iters >= 60:
        obs.ev("long-run")
    if iters < kw["max_iter"]:
        obs.ev("converged")
        gap = C * n * tol + eps
        obs.check(prim[-1] - dual[-1] <= gap, "gap-after-stop", lambda: d("gap %r allowed %r" % (
            prim[-1] - dual[-1], gap)))
        if opt and not relaxed:
            obs.ev("optimum")
            obs.check(r <= opt[1] + gap, "not-optimal", lambda: d("risk %r optimum %r allowed excess %r" % (
                r, opt[1], gap)))
    else:
        obs.ev("max_iter")
    if iters >= 3:
        obs.nontrivial(ds.describe(), C, tol, kw)
        obs.sample(d("iterations %d dual %r primal %r optimum %r" % (iters, dual[-1], prim[-1], opt and opt[:2])))


def feature_scale(ds):
    return max(np.abs(D).max() for D, _ in ds.constraints())
