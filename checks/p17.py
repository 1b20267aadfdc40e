"""Latent structured SVM: recorded completions and base fits; optimality for the last completion; predict and score."""
import numpy as np
from vlib.data import ssvm_optimum
from vlib.learn import several, training_set, rand_C, Recorder, flat_of, Fractional, BB, LATENT

CASES = {"quick": 2600, "thorough": 40000}
MIN_EVENTS = {"fits": 3000, "completions": 4000, "completion-optimal": 2000, "optimum-checked": 500, "stopped": 150,
              "limit": 150, "one-slack": 300, "n-slack": 300, "subgradient": 150, "cache": 80, "h-init": 300,
              "own-init": 100, "predictions": 3000, "refit": 100, "n-slack-warm": 100}
MIN_EVENTS.update({"fam:" + f: 100 for f in LATENT})
RULE = ("Small training sets of the five latent families x base learners (1-slack with and without inference cache, "
        "n-slack, subgradient) x iteration limits x given or model-made initial completions x refits. Monitors: every "
        "call of base fit (its completion, weights) and of model.latent; consistency and optimality of completions, "
        "stop condition, risk of the final weights for the last completion against a certified optimum, validity of "
        "the base learner's constraints for that completion, predict/predict_latent/score. Non-trivial: at least two "
        "base fits; distinct by data and parameters.")
ASSUMPTIONS = "cvxopt QP accuracy (relative 2e-5 of the objective scale) is granted to the base learners"
CASE_CPU_S = 100.


def case(rng, i, obs, tier):
    from pystruct.learners import LatentSSVM, OneSlackSSVM, NSlackSSVM, SubgradientSSVM
    fam = LATENT[i % len(LATENT)]
    ds = training_set(rng, fam=fam, n=several(rng, 6))
    if any(len(inst.visible_labels(f)) == 0 for inst, f in zip(ds.insts, ds.flats)):
        return
    n, dim = ds.n, ds.wdim
    obs.ev("fam:" + fam)
    C = rand_C(rng, -2.5, 1)
    model = ds.make(BB)
    X, Y = ds.X(), ds.visible()
    kind = str(rng.choice(["one-slack", "n-slack", "subgradient"], p=[.45, .4, .15]))
    obs.ev(kind)
    tol = float(rng.choice([1e-2, 1e-3, 1e-4]))
    bkw = {}
    if kind == "one-slack":
        bkw = dict(C=C, tol=tol, max_iter=3000)
        if rng.random() < .3:
            bkw["inference_cache"] = int(rng.choice([1, 3, 20]))
            obs.ev("cache")
        base = OneSlackSSVM(model, **bkw)
    elif kind == "n-slack":
        bkw = dict(C=C, tol=float(rng.choice([-10, 1e-3])), max_iter=300, batch_size=int(rng.choice([1, 2, 100, -1])),
                   check_constraints=bool(rng.random() < .5))
        base = NSlackSSVM(model, **bkw)
    else:
        C = min(C, 1.)
        bkw = dict(C=C, max_iter=int(rng.integers(1, 6)))
        base = SubgradientSSVM(model, **bkw)
    limit = int(rng.choice([1, 2, 3, 6, 12]))
    learner = LatentSSVM(base, latent_iter=limit)
    H0 = None
    init = False
    if rng.random() < .35 and initable(ds):
        init = True
        obs.ev("own-init")
        if ds.first.grid:
            X, Y = np.array(X), np.array(Y)
    else:
        H0 = [inst.fmt(f) for inst, f in zip(ds.insts, ds.flats)]
        obs.ev("h-init")
    d = lambda e="": "%s base=%s %r latent_iter=%d init=%r\n%s" % (ds.describe(), kind, bkw, limit, init, e)
    rec = Recorder(model, ds, X if not init or not ds.first.grid else None)
    fits = []
    orig = base.fit

    def fit(X_, H, *a, **kw):
        k = len(rec.calls)
        r = orig(X_, H, *a, **kw)
        fits.append(([np.array(h) for h in H], np.array(base.w), k, kw.get("constraints") is not None))
        return r
    base.fit = fit
    rounds = 1
    if rng.random() < .12:
        rounds = 2
        obs.ev("refit")
    for r in range(rounds):
        fits[:] = []
        rec.calls[:] = []
        try:
            learner.fit(X, Y, H_init=H0, initialize=init)
        except ValueError as e:
            if "QP solver failed" in str(e):
                obs.ev("qp-failed")
                return
            raise
        try:
            check(rng, obs, d, ds, rec, learner, base, fits, limit, kind, bkw, X, Y, H0)
        except Fractional:
            obs.ev("fractional")
            return
    if len(fits) > 1:
        obs.nontrivial(ds.describe(), bkw, limit)
        obs.sample(d("%d base fits" % len(fits)))


def initable(ds):
    Y = ds.visible()
    lab = np.hstack([np.ravel(y) for y in Y])
    first = ds.first
    if len(np.unique(lab)) != first.n_labels:
        return False
    if ds.fam.endswith("node"):
        if sum(i.nh for i in ds.insts) < first.n_hidden_states:
            return False
        return not any(not len(i.edges) or i.edges.max() != len(i.doms) - 1 for i in ds.insts)
    if first.grid and len({np.shape(i.x) for i in ds.insts}) > 1:
        return False
    if ds.fam == "latgraph" and len({np.shape(i.x[0]) for i in ds.insts}) > 1:
        return False
    return not any(np.sum(lab == l) < first.per[l] for l in np.unique(lab))


def check(rng, obs, d, ds, rec, learner, base, fits, limit, kind, bkw, X, Y, H0):
    n, C, dim = ds.n, bkw["C"], ds.wdim
    vis = [inst.visible_labels(f) for inst, f in zip(ds.insts, ds.flats)]
    obs.check(1 <= len(fits) <= limit, "fits", lambda: d("%d" % len(fits)))
    latent = [c for c in rec.calls if c[0] == "latent"]
    rounds = [latent[k:k + n] for k in range(0, len(latent), n)]
    obs.check(len(latent) % n == 0, "latent-calls", lambda: d("%d" % len(latent)))
    # every completion trained on is consistent with the labels, and is the one latent inference gave
    for t, (H, w, _, constr) in enumerate(fits):
        obs.ev("fits")
        if constr:
            obs.ev("n-slack-warm")
        obs.check(len(H) == n, "completion-count", lambda: d("%d" % len(H)))
        for k, h in enumerate(H):
            obs.ev("completions")
            inst = ds.insts[k]
            if not obs.check(inst.ok_labels(h), "completion-invalid", lambda: d("fit %d sample %d %r" % (t, k, h))):
                return
            hf = inst.unfmt(h)
            obs.check(np.array_equal(inst.visible_labels(hf), vis[k]), "completion-inconsistent", lambda: d(
                "fit %d sample %d labels %r completion %r" % (t, k, vis[k].tolist(), h)))
            if t == 0 and H0 is not None:
                obs.check(np.array_equal(h, H0[k]), "initial-completion", lambda: d("%r %r" % (h, H0[k])))
            if t > 0:
                wprev = fits[t - 1][1]
                import itertools
                comp = inst.completions(vis[k])
                if np.prod([len(c) for c in comp]) <= 300:
                    al = np.array(list(itertools.product(*comp)), dtype=int)
                    obs.ev("completion-optimal")
                    best = inst.scores(wprev, al).max()
                    total = np.abs(wprev).sum() * max(1., np.abs(inst.psi(hf)).max()) + 1
                    obs.check(inst.score(wprev, hf) >= best - 1e-5 * (1 + total), "completion-suboptimal", lambda: d(
                        "fit %d sample %d: %r, best %r" % (t, k, inst.score(wprev, hf), best)))
    # stop
    same = lambda A, B: all(np.array_equal(a, b) for a, b in zip(A, B))
    for t in range(1, len(fits)):
        obs.check(not same(fits[t][0], fits[t - 1][0]), "trained-again", lambda: d("fit %d" % t))
    if len(fits) < limit:
        obs.ev("stopped")
        obs.check(len(rounds) == len(fits) and same([c[3] for c in rounds[-1]], fits[-1][0]), "stopped-early", lambda: d(
            "%d fits, %d completions" % (len(fits), len(rounds))))
    else:
        obs.ev("limit")
        obs.check(len(rounds) == limit - 1, "completions-made", lambda: d("%d" % len(rounds)))
    for t, g in enumerate(rounds):
        obs.check(all(np.array_equal(c[2], fits[t][1]) for c in g), "completion-weights", lambda: d("round %d" % t))
    w = np.array(learner.w)
    obs.check(np.array_equal(w, fits[-1][1]) and w.shape == (dim,) and np.all(np.isfinite(w)), "weights", lambda: d("%r" % w))
    # the last problem
    H = fits[-1][0]
    old = ds.flats
    ds.flats = [np.asarray(inst.unfmt(h)).astype(int) for inst, h in zip(ds.insts, H)]
    if hasattr(ds, "_cons"):
        del ds._cons
    try:
        cons = ds.constraints()
        opt = ssvm_optimum(cons, C) if kind != "subgradient" and sum(len(l) for _, l in cons) < 1500 else None
        r = ds.risk(w, C)
        scale = 1 + abs(r)
        eps = 2e-5 * scale
        obs.check(abs(base.objective_curve_[-1 if kind == "subgradient" else 0] - r) <= 1e-5 * (1 + r + C * n)
                  or kind != "subgradient", "objective", lambda: d("%r %r" % (base.objective_curve_[-1], r)))
        if kind != "subgradient":
            prim = base.primal_objective_curve_[-1]
            obs.check(abs(prim - r) <= 1e-5 * (1 + r + C * n), "objective", lambda: d("%r %r" % (prim, r)))
        if opt and kind == "one-slack":
            obs.ev("optimum-checked")
            gap = C * n * bkw["tol"] + eps + 1e-4 * scale
            obs.check(r <= opt[1] + gap, "not-optimal", lambda: d("risk %r optimum %r allowed %r" % (r, opt[1], gap)))
            obs.check(base.objective_curve_[-1] <= opt[1] + eps, "dual-above-optimum", lambda: d("%r %r" % (
                base.objective_curve_[-1], opt[:2])))
        if opt and kind == "n-slack":
            obs.check(base.objective_curve_[-1] <= opt[1] + eps, "dual-above-optimum", lambda: d("%r %r" % (
                base.objective_curve_[-1], opt[:2])))
            for k, sample in enumerate(base.constraints_):
                for y_hat, dj, loss in sample:
                    f = flat_of(ds, k, y_hat)
                    want = ds.insts[k].psi(ds.flats[k]) - ds.insts[k].psi(f)
                    L = ds.insts[k].losses(ds.flats[k], [f])[0]
                    obs.check(np.allclose(dj, want, atol=1e-8 * (1 + np.abs(want).max())) and abs(loss - L) < 1e-8 * (
                        1 + L), "constraint-triple", lambda: d("sample %d y_hat %r\n%r %r\n%r %r" % (
                            k, y_hat, dj, loss, want, L)))
            lai = [c for c in rec.calls[fits[-1][2]:] if c[0] == "lai"]
            passes = len(lai) // n - 1
            if passes >= 1 and all(np.array_equal(c[2], w) for c in lai[-2 * n:]) and ds_known(lai):
                # converged: nothing found by inference violates more than the working set
                obs.ev("optimum-checked")
                for c in lai[-n:]:
                    k = c[1]
                    if ds.insts[k].losses(ds.flats[k], [flat_of(ds, k, c[3])])[0] <= 0:
                        continue
                    have = max([l - np.dot(w, dj) for _, dj, l in base.constraints_[k]] + [0])
                    h = ds.hinge(w)[k]
                    obs.check(h <= have + 5e-5 * (1 + abs(h)) + 5e-4 * scale, "violated-left", lambda: d(
                        "sample %d hinge %r working set %r" % (k, h, have)))
        # predictions
        P, Q = learner.predict_latent(X), learner.predict(X)
        total = mx = 0.
        for k, (h, y) in enumerate(zip(P, Q)):
            obs.ev("predictions")
            inst = ds.insts[k]
            if not obs.check(inst.ok_labels(h), "latent-prediction-invalid", lambda: d("%r" % h)):
                return
            v = inst.visible_labels(inst.unfmt(h)).reshape(inst.visible_shape())
            obs.check(np.shape(y) == v.shape and np.array_equal(y, v), "prediction", lambda: d("%r latent %r" % (y, h)))
            total += inst.losses(old[k], [inst.unfmt(h)])[0]
            mx += inst.max_loss(old[k])
        if mx > 0:
            s = learner.score(X, Y)
            obs.check(abs(s - (1 - total / mx)) < 1e-9, "score", lambda: d("%r expected %r" % (s, 1 - total / mx)))
    finally:
        ds.flats = old
        del ds._cons


def ds_known(calls):
    return all(c[1] is not None for c in calls)
