"""n-slack cutting-plane training against a certified optimum of the structured SVM and the recorded trace."""
import numpy as np
from vlib.data import ssvm_optimum
from vlib.learn import several, training_set, rand_C, rescaled, can_initialize, Recorder, flat_of, BB, PLAIN, LATENT

CASES = {"quick": 5600, "thorough": 60000}
MIN_EVENTS = {"units": 150, "converged": 900, "optimum": 900, "tol-stop": 40, "max-iter": 50, "dual_values": 4000, "planes": 8000,
              "latent": 300, "threads": 50, "relaxed": 100, "relaxed-converged": 40}
MIN_EVENTS.update({"fam:" + f: 50 for f in PLAIN + LATENT})
RULE = ("Small training sets (1-6 samples, <=60 labelings each) of all 14 families x C x tol x batch size x pruning "
        "x workers; certified optimum by a QP over all labelings. Monitors: every oracle call made by fit (was the "
        "last pass complete and made at one weight vector, does any sample still have a violated constraint), risk of "
        "the final weights, dual values against the optimum and each other, constraint triples in the working set "
        "(delta and loss belong to y_hat). Non-trivial: at least two passes; distinct by data and parameters.")
ASSUMPTIONS = "cvxopt QP accuracy (relative 2e-5 of the objective scale) is granted to the learner"
CASE_CPU_S = 100.


def switch_case(rng, obs):
    """Training that starts with a weak inference method and switches to an exact one once it has stalled."""
    from pystruct.learners import NSlackSSVM
    ds = training_set(rng, fam=str(rng.choice(["graph", "grid", "edgefeat", "dirgrid", "multilabel"])))
    n = ds.n
    if sum(len(l) for _, l in ds.constraints()) >= 1500:
        return
    C = rand_C(rng)
    weak = str(rng.choice(["unary", "max-product"]))
    model = ds.make(weak)
    kw = dict(tol=float(rng.choice([-10, -10, 1e-3])), max_iter=300, batch_size=int(rng.choice([1, 2, 100])))
    learner = NSlackSSVM(model, C=C, switch_to=BB, **kw)
    X, Y = ds.X(), ds.Y()
    d = lambda e="": "%s %s -> %r C=%r kw=%r\n%s" % (ds.describe(), weak, BB, C, kw, e)
    methods = []
    orig = model.loss_augmented_inference

    def lai(*a, **k):
        methods.append(model.inference_method)
        return orig(*a, **k)
    model.loss_augmented_inference = lai
    try:
        learner.fit(X, Y, initialize=can_initialize(ds))
    except ValueError as e:
        if "QP solver failed" in str(e):
            obs.ev("qp-failed")
            return
        raise
    w = learner.w
    opt = ssvm_optimum(ds.constraints(), C)
    scale = 1 + opt[1]
    eps = 2e-5 * scale
    r = ds.risk(w, C)
    dual = np.array(learner.objective_curve_, float)
    obs.ev("switch")
    obs.check(methods[0] == weak, "switch-early", lambda: d(repr(methods)))
    obs.check(np.all(dual <= opt[1] + eps), "switch-dual-above-optimum", lambda: d("%r > %r" % (dual.tolist(), opt[1])))
    if methods[-1] == BB:
        k = methods.index(BB)
        obs.check(all(m == BB for m in methods[k:]), "switch-back", lambda: d(repr(methods)))
        obs.check(abs(learner.primal_objective_curve_[-1] - r) <= 1e-5 * (1 + abs(r) + C * n), "switch-final-primal",
                  lambda: d("recorded %r true %r" % (learner.primal_objective_curve_[-1], r)))
    passes = len(dual) - 1
    if passes < kw["max_iter"]:
        obs.ev("switch-converged")
        obs.check(methods[-1] == BB and methods[-1 - n] == BB, "never-switched", lambda: d(repr(methods)))
        obs.check(r <= opt[1] + C * n * 3e-5 + eps + lossprune(1e-5, C, n, scale) + (0 if kw["tol"] < 0 else np.inf), "switch-not-optimal", lambda: d("risk %r optimum %r" % (r, opt[1])))


def case(rng, i, obs, tier):
    if i % 10 == 7:
        switch_case(rng, obs)
        return
    from pystruct.learners import NSlackSSVM
    import joblib
    fams = PLAIN + LATENT
    fam = fams[i % len(fams)]
    ds = training_set(rng, fam=fam, n=several(rng, 7))
    n = ds.n
    obs.ev("fam:" + fam)
    if fam in LATENT:
        obs.ev("latent")
    C = rescaled(rng, ds, rand_C(rng))
    obs.ev("units", hasattr(ds, "units"))
    relaxed = fam in ("graph", "grid", "edgefeat", "dirgrid", "multilabel") and rng.random() < .2
    model = ds.make() if ds.first.scalar else ds.make("lp" if relaxed else BB)
    if relaxed:
        obs.ev("relaxed")
    tol = float(rng.choice([-10, -10, -10, 1e-3, 1e-2, .3]))
    kw = dict(C=C, tol=tol, max_iter=int(rng.choice([300, 300, 300, 2, 4])),
              batch_size=int(rng.choice([1, 2, 3, 100, -1])), check_constraints=bool(rng.random() < .6))
    if relaxed:
        # relaxed solutions repeat up to solver noise only
        kw["max_iter"] = 12
    if rng.random() < .15:
        kw["show_loss_every"] = int(rng.integers(1, 4))
    if rng.random() < .1 and fam != "typed":
        kw["n_jobs"] = 2
        obs.ev("threads")
    thr = 0.
    if rng.random() < .3:
        kw["inactive_threshold"] = thr = float(rng.choice([1e-5, 1e-3, 1e-8]))
        kw["inactive_window"] = int(rng.choice([0, 2, 5, 10, 50]))
        if not kw["inactive_window"]:
            thr = 0.
    else:
        thr = 1e-5
    X, Y = ds.X(), ds.Y()
    rec = Recorder(model, ds, X, Y=Y)
    learner = NSlackSSVM(model, **kw)
    d = lambda e="": "%s method=%s kw=%r\n%s" % (ds.describe(), getattr(model, "inference_method", ""), kw, e)
    snaps, pruned = [], [0]
    orig_prune = learner.prune_constraints

    def prune(constraints, a):
        before = sum(len(s) for s in constraints)
        orig_prune(constraints, a)
        pruned[0] += before - sum(len(s) for s in constraints)
    learner.prune_constraints = prune
    learner.logger = lambda l, it: snaps.append((it, l.w.copy(), pruned[0]))
    try:
        with joblib.parallel_backend("threading"):
            learner.fit(X, Y, initialize=can_initialize(ds))
    except ValueError as e:
        if "QP solver failed" in str(e):
            obs.ev("qp-failed")
            return
        raise
    w = learner.w
    dual = np.array(learner.objective_curve_, float)
    prim = np.array(learner.primal_objective_curve_, float)
    obs.check(w.shape == (ds.wdim,) and np.all(np.isfinite(w)), "weights-shape", lambda: d("%r" % w))
    passes = len(dual) - 1
    obs.check(len(prim) == passes + 1 and len(learner.timestamps_) == passes + 2 and snaps[-1][0] == "final",
              "curve-lengths", lambda: d("%d %d %d" % (len(dual), len(prim), len(learner.timestamps_))))
    obs.check(passes <= kw["max_iter"], "max-iter", lambda: d("%d passes" % passes))
    # passes as seen by the oracle (the last n calls are the final objective)
    lai = [c for c in rec.calls if c[0] == "lai"]
    obs.check(len(lai) == n * (passes + 1), "oracle-calls", lambda: d("%d calls, %d passes" % (len(lai), passes)))
    opt = None
    if sum(len(l) for _, l in ds.constraints()) < 1500:
        opt = ssvm_optimum(ds.constraints(), C)
    scale = 1 + (opt[1] if opt else abs(dual).max())
    eps = 2e-5 * scale
    r = ds.risk(w, C)
    if relaxed:
        obs.check(prim[-1] >= r - 1e-3 * (1 + abs(r)), "final-primal-relaxed", lambda: d("%r %r" % (prim[-1], r)))
    else:
        obs.check(abs(prim[-1] - r) <= 1e-5 * (1 + abs(r) + C * n), "final-primal", lambda: d("recorded %r true %r" % (
            prim[-1], r)))
    bysnap = {s[0]: s[2] for s in snaps}
    for k in range(len(dual)):
        obs.ev("dual_values")
        if opt and not relaxed:
            obs.check(dual[k] <= opt[1] + eps, "dual-above-optimum", lambda: d("%d: %r > %r" % (k, dual.tolist(), opt[1])))
        if k:
            lost = bysnap.get(k, pruned[0])
            if not lost:
                obs.check(dual[k] >= dual[k - 1] - eps, "dual-decreases", lambda: d("%d %r" % (k, dual.tolist())))
    # working set: consistent triples
    for k, sample in enumerate(learner.constraints_):
        for y_hat, dj, loss in sample:
            if isinstance(y_hat, tuple):
                continue
            obs.ev("planes")
            f = flat_of(ds, k, y_hat)
            inst = ds.insts[k]
            want = inst.psi(ds.flats[k]) - inst.psi(f)
            if inst.fam == "multiclass" and inst.rescale and inst.class_weight is not None:
                want = want * float(inst.class_weight[int(ds.flats[k][0])])
            L = inst.losses(ds.flats[k], [f])[0]
            obs.check(np.allclose(dj, want, atol=1e-8 * (1 + np.abs(want).max())) and abs(loss - L) < 1e-8 * (1 + L),
                      "constraint-triple", lambda: d("sample %d y_hat %r\n%r %r\n%r %r" % (k, y_hat, dj, loss, want, L)))
            obs.check(loss > 0, "zero-loss-constraint", lambda: d("%r" % (y_hat,)))
    sizes = [len(s) for s in learner.constraints_]
    obs.check(len(sizes) == n, "constraints-per-sample", lambda: d("%r" % sizes))
    if not pruned[0] and passes:
        # the weights solve the QP over the working set
        risk = .5 * w.dot(w) + C * sum(max([l - np.dot(w, dj) for _, dj, l in s] + [0]) for s in learner.constraints_)
        obs.check(abs(risk - dual[-1]) <= 2 * eps, "working-set-optimum", lambda: d("risk %r dual %r" % (risk, dual[-1])))
    # why did it stop?
    last = lai[n * (passes - 1):n * passes]
    same_w = all(np.array_equal(c[2], w) for c in last)
    if passes >= 2 or passes < kw["max_iter"]:
        by_tol = passes > 2 and dual[-2] - dual[-3] < tol
        if same_w:
            # no QP was solved during the last pass: nothing was added in it
            if relaxed:
                obs.ev("relaxed-converged")
                room = C * n * 2e-4 * (1 + np.abs(w).max()) + eps + 1e-3 * (1 + abs(r))
                if not kw["check_constraints"]:
                    obs.check(prim[-1] - dual[-1] <= room + lossprune(thr, C, n, scale), "relaxed-gap", lambda: d(
                        "primal %r dual %r" % (prim[-1], dual[-1])))
            else:
                obs.ev("converged")
                # a whole pass at the final weights: its recorded primal is their risk
                obs.check(abs(prim[-2] - r) <= 1e-5 * (1 + abs(r) + C * n), "pass-primal", lambda: d(
                    "recorded %r true %r" % (prim.tolist(), r)))
                allowed = C * n * 3e-5 + eps + lossprune(thr, C, n, scale)
                if opt and not zero_loss(ds, rec, lai[-n:]):
                    obs.ev("optimum")
                    obs.check(r <= opt[1] + allowed, "not-optimal", lambda: d(
                        "risk %r optimum %r allowed excess %r" % (r, opt[1], allowed)))
                # by sample: what inference finds is no worse than the working set (labelings without loss are
                # no constraints for this learner: completions of the true labels of latent models)
                for c in lai[-n:]:
                    k = c[1]
                    f = flat_of(ds, k, c[3])
                    if ds.insts[k].losses(ds.flats[k], [f])[0] <= 0:
                        continue
                    have = max([l - np.dot(w, dj) for _, dj, l in learner.constraints_[k]] + [0])
                    h = ds.hinge(w)[k]
                    obs.check(h <= have + 5e-5 * (1 + abs(h)) + lossprune(thr, C, n, scale), "violated-left", lambda: d(
                        "sample %d hinge %r working set %r" % (k, h, have)))
        elif by_tol:
            obs.ev("tol-stop")
        elif passes < kw["max_iter"]:
            obs.check(False, "stopped-early", lambda: d("passes %d duals %r" % (passes, dual.tolist())))
        else:
            obs.ev("max-iter")
    if passes >= 3:
        obs.nontrivial(ds.describe(), kw)
        obs.sample(d("passes %d constraints %d dual %r primal %r optimum %r" % (
            passes, sum(sizes), dual[-1], prim[-1], opt and opt[:2])))


def zero_loss(ds, rec, calls):
    return any(ds.insts[c[1]].losses(ds.flats[c[1]], [flat_of(ds, c[1], c[3])])[0] <= 0
               and not np.array_equal(flat_of(ds, c[1], c[3]), ds.flats[c[1]]) for c in calls)


def lossprune(thr, C, n, scale):
    """constraints with dual variables below the threshold may have been thrown away"""
    return 20 * thr * scale
