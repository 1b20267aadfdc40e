"""Objective helpers, exhaustive helpers, scores, training-loss curves and plots against independent computation."""
import os
import sys
import tempfile

import numpy as np
from vlib.data import Dataset
from vlib.learn import training_set, plan, rand_C, flat_of, can_initialize, Fractional, BB, PLAIN, LATENT
from vlib.runner import HarnessError

CASES = {"quick": 5760, "thorough": 80000}
KINDS = ("one-slack", "n-slack", "subgradient", "subgradient-latent", "fw", "fw-batch", "perceptron", "latent-one",
         "latent-n", "latent-sub")
MIN_EVENTS = {"exhaustive-large": 25, "constraint-latent-relaxed": 100, "objective": 1500, "threads": 200, "constraint": 3000, "constraint-given": 1000, "no-difference": 400,
              "constraint-latent": 300, "relaxed": 300, "exhaustive": 400, "exhaustive-lai": 400, "score": 700,
              "loss-values": 800, "plots": 500, "plot-lines": 800, "plot-cli": 8, "plot-grid": 100, "rescale": 20}
MIN_EVENTS.update({"fam:" + f: 100 for f in PLAIN + LATENT})
MIN_EVENTS.update({"plot:" + k: 15 for k in KINDS})
RULE = ("14 families, random weights (normal, integer with ties, zero): primal objective in both variants and with "
        "threads, most violated and given constraints, latent constraints, relaxed inference, exhaustive helpers "
        "against full enumeration. Trained learners of all kinds: score() against the losses of predict(), training "
        "losses against the (set of possible) losses of the weights of that iteration, every line of the learning "
        "plot against the recorded curves, also from a saved file through the command line entry. Non-trivial: at least "
        "two labelings; distinct by data and weights.")
ASSUMPTIONS = ""
CASE_CPU_S = 100.


def large(rng, obs):
    """the exhaustive helpers on larger problems"""
    from pystruct import utils
    fam = ("graph", "chain", "grid", "dirgrid", "edgefeat")[int(rng.integers(5))]
    ds = Dataset(rng, fam, 1, maxlab=1000)
    inst, f = ds.first, ds.flats[0]
    al = inst.all_flat()
    if len(al) <= 60:
        return
    obs.ev("exhaustive-large")
    w = rng.integers(-2, 3, size=ds.wdim).astype(float) if rng.random() < .2 else rng.normal(size=ds.wdim)
    model, x, y = ds.make(), ds.X()[0], ds.Y()[0]
    sc = np.asarray(inst.scores(w, al), float)
    for name, g, a in (("exhaustive", lambda: utils.exhaustive_inference(model, x, w), sc),
                       ("exhaustive-lai", lambda: utils.exhaustive_loss_augmented_inference(model, x, y, w),
                        sc + inst.losses(f, al))):
        e = g()
        v = a[index(al, inst.unfmt(e))]
        obs.check(np.shape(e) == np.shape(y) and v >= a.max() - 1e-9 * (1 + np.abs(a).max()), name, lambda: (
            "%s w=%r: %r has value %r, best %r" % (ds.describe(), w.tolist(), e, v, a.max())))
    obs.nontrivial(ds.describe(), w.tobytes())


def case(rng, i, obs, tier):
    if i % 37 == 36:
        return large(rng, obs)
    if i % 4 == 3:
        learners(rng, i // 4, obs)
    else:
        helpers(rng, i, obs)


def helpers(rng, i, obs):
    from pystruct import utils
    import joblib
    fams = PLAIN + LATENT
    fam = fams[(i - i // 4) % len(fams)]
    ds = training_set(rng, fam=fam, n=int(rng.integers(1, 5)))
    obs.ev("fam:" + fam)
    u = rng.random()
    w = (np.zeros(ds.wdim) if u < .08 else rng.integers(-2, 3, size=ds.wdim).astype(float) if u < .3 else
         rng.normal(size=ds.wdim) * float(rng.choice([.2, 1, 5])))
    if hasattr(ds.first, "project") and rng.random() < .3:
        w = ds.first.project(w)
    C = rand_C(rng)
    model = ds.make() if ds.first.scalar else ds.make(BB)
    X, Y = ds.X(), ds.Y()
    d = lambda t="": "%s w=%r %s" % (ds.describe(), w.tolist(), t)
    rescale = bool(getattr(ds.first, "rescale", False))
    obs.ev("rescale", rescale and ds.first.class_weight is not None)
    h = ds.hinge(w)
    big = 1 + np.abs(h).max()
    # objective
    want = .5 * w.dot(w) + C * np.maximum(h, 0).sum()
    kw = {}
    if rng.random() < .25 and fam != "typed":
        kw["n_jobs"] = 2
        obs.ev("threads")
    variant = str(rng.choice(["n_slack", "one_slack"]))
    if rng.random() < .8:
        kw["variant"] = variant
    with joblib.parallel_backend("threading"):
        got = utils.objective_primal(model, w, X, Y, C, **kw)
    obs.ev("objective")
    obs.check_exact(abs(got - want) <= 1e-5 * (1 + abs(want) + C * big * ds.n), "objective", lambda: d(
        "%r C=%r: %r, half squared norm plus C times slacks %r" % (kw, C, got, want)))
    # constraints
    k = int(rng.integers(ds.n))
    inst, f = ds.insts[k], ds.flats[k]
    x, y = X[k], Y[k]
    D, L = ds.constraints()[k]
    al = inst.all_flat()
    yh, dj, slack, loss = utils.find_constraint(model, x, y, w, **({} if rng.random() < .5 else {"relaxed": False}))
    obs.ev("constraint")
    try:
        j = index(al, flat_of(ds, k, yh))
    except Fractional:
        raise HarnessError("fractional")
    dd = lambda t="": d("sample %d y_hat=%r %s" % (k, yh, t))
    obs.check(close(dj, D[j]), "constraint-difference", lambda: dd("%r %r" % (dj, D[j])))
    obs.check(abs(loss - L[j]) <= 1e-8 * (1 + L[j]), "constraint-loss", lambda: dd("%r %r" % (loss, L[j])))
    obs.check(abs(slack - max(L[j] - D[j].dot(w), 0)) <= 1e-7 * (1 + np.abs(w).sum() * np.abs(D).max()), "constraint-slack",
              lambda: dd("%r %r" % (slack, L[j] - D[j].dot(w))))
    obs.check_exact(L[j] - D[j].dot(w) >= h[k] - 1e-5 * big, "constraint-most-violated", lambda: dd("%r %r" % (
        L[j] - D[j].dot(w), h[k])))
    # given labeling
    j = int(rng.integers(len(al)))
    g = inst.fmt(al[j])
    yh, dj, slack, loss = utils.find_constraint(model, x, y, w, y_hat=g)
    obs.ev("constraint-given")
    obs.check(np.array_equal(np.ravel(np.asarray(yh)), np.ravel(np.asarray(g))) and close(dj, D[j]) and
              abs(loss - L[j]) <= 1e-8 * (1 + L[j]) and slack >= 0 and
              abs(slack - max(L[j] - D[j].dot(w), 0)) <= 1e-7 * (1 + np.abs(w).sum() * np.abs(D).max()),
              "constraint-given", lambda: d("sample %d labeling %r: %r %r %r, expected %r %r" % (
                  k, g, dj, slack, loss, D[j], L[j])))
    if rng.random() < .4:
        obs.ev("no-difference")
        r = utils.find_constraint(model, x, y, w, y_hat=g, compute_difference=False)
        scale = 1.
        if rescale and inst.class_weight is not None:
            scale = float(inst.class_weight[int(f[0])])
        want = -inst.psi(al[j]) * scale
        obs.check(close(r[1], want), "constraint-no-difference", lambda: d("%r: %r expected %r" % (g, r[1], want)))
    # relaxed inference gives a slack at least as large
    if fam in ("graph", "grid", "edgefeat", "dirgrid") and rng.random() < .5 and np.abs(w).max() < 20:
        obs.ev("relaxed")
        m2 = ds.make("lp")
        yh, dj, slack, loss = utils.find_constraint(m2, x, y, w, relaxed=True)
        obs.check(slack >= max(h[k], 0) - 1e-3 * big, "relaxed-slack", lambda: d("%r %r %r" % (yh, slack, h[k])))
        obs.check(abs(slack - max(loss - np.dot(w, dj), 0)) <= 1e-7 * (1 + np.abs(w).sum() * np.abs(D).max()),
                  "relaxed-slack-value", lambda: d("%r" % slack))
    if fam in LATENT and not any(len(s.visible_labels(t)) == 0 for s, t in zip(ds.insts, ds.flats)):
        latent_constraint(rng, obs, ds, model, w, k, d)
    if fam in ("graph", "chain", "grid", "dirgrid", "edgefeat"):
        sc = np.asarray(inst.scores(w, al), float)
        e = utils.exhaustive_inference(model, x, w)
        obs.ev("exhaustive")
        j = index(al, inst.unfmt(e))
        obs.check(np.shape(e) == np.shape(y) and sc[j] >= sc.max() - 1e-9 * (1 + np.abs(sc).max()), "exhaustive", lambda: d(
            "%r %r %r" % (e, sc[j], sc.max())))
        e = utils.exhaustive_loss_augmented_inference(model, x, y, w)
        obs.ev("exhaustive-lai")
        j = index(al, inst.unfmt(e))
        a = sc + L
        obs.check(np.shape(e) == np.shape(y) and a[j] >= a.max() - 1e-9 * (1 + np.abs(a).max()), "exhaustive-lai", lambda: d(
            "%r %r %r" % (e, a[j], a.max())))
    if len(al) > 1:
        obs.nontrivial(ds.describe(), w.tobytes())
        obs.sample(d("objective %r hinge %r" % (got, h.tolist())))
    if i % 40 == 1:
        grid_plot(rng, obs)


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.abs(a - b).max() <= 1e-8 * (1 + np.abs(b).max())


def index(al, f):
    k = np.where((al == np.asarray(f).reshape(-1)).all(axis=1))[0]
    if not len(k):
        raise AssertionError("not a labeling: %r" % (f,))
    return int(k[0])


def latent_constraint(rng, obs, ds, model, w, k, d):
    from pystruct import utils
    inst = ds.insts[k]
    x, y = ds.X()[k], ds.visible()[k]
    obs.ev("constraint-latent")
    hh, dj, slack, loss = utils.find_constraint_latent(model, x, y, w)
    al = inst.all_flat()
    j = index(al, flat_of(ds, k, hh))
    vis = inst.visible_labels_many(al)
    mine = inst.visible_labels(ds.flats[k])
    sc = np.asarray(inst.scores(w, al), float)
    psi = np.array([inst.psi(f) for f in al])
    good = (vis == mine).all(axis=1)
    best = sc[good].max()
    L = inst.losses(ds.flats[k], al)
    big = 1 + np.abs(sc).max() + L.max()
    # the completion used is one of the best ones: recovered from the difference
    comp = [g for g in np.where(good)[0] if close(dj, psi[g] - psi[j])]
    obs.check(len(comp) > 0, "latent-difference", lambda: d("sample %d h_hat %r %r" % (k, hh, dj)))
    obs.check_exact(not comp or max(sc[g] for g in comp) >= best - 1e-5 * big, "latent-completion", lambda: d(
        "sample %d completion of score %r best %r" % (k, [sc[g] for g in comp], best)))
    obs.check(abs(loss - L[j]) <= 1e-8 * (1 + L[j]), "latent-loss", lambda: d("%r %r" % (loss, L[j])))
    obs.check_exact(abs(slack - max((sc + L).max() - best, 0)) <= 1e-5 * big, "latent-slack", lambda: d(
        "slack %r, best augmented %r best completion %r" % (slack, (sc + L).max(), best)))
    if np.abs(w).max() < 20:
        # a relaxed search can only find a larger violation
        obs.ev("constraint-latent-relaxed")
        m2 = ds.make("lp")
        kw = {} if rng.random() < .5 else {"relaxed": True}
        hh, dj, slack, loss = utils.find_constraint_latent(m2, x, y, w, **kw)
        obs.check(slack >= max((sc + L).max() - best, 0) - 1e-3 * big, "latent-relaxed-slack", lambda: d(
            "slack %r, best augmented %r best completion %r" % (slack, (sc + L).max(), best)))
        obs.check(abs(slack - max(loss - np.dot(w, dj), 0)) <= 1e-7 * (1 + np.abs(w).sum() * np.abs(psi).max()),
                  "latent-relaxed-slack-value", lambda: d("%r" % slack))


def loss_range(ds, w, tol=1e-7):
    """smallest and largest total loss of maximal labelings"""
    lo = hi = 0.
    for inst, f in zip(ds.insts, ds.flats):
        al = inst.all_flat()
        sc = np.asarray(inst.scores(w, al), float)
        L = inst.losses(f, al)
        m = L[sc >= sc.max() - tol * (1 + np.abs(sc).max())]
        lo += m.min()
        hi += m.max()
    return lo, hi


def learners(rng, i, obs):
    import joblib
    fams = PLAIN + LATENT
    ds = training_set(rng, fam=fams[i % len(fams)])
    P = plan(rng, ds, iters=int(rng.choice([1, 2, 5, 30])))
    every = 0
    if rng.random() < .6 and P.kind not in ("perceptron", "subgradient-latent") and not P.kind.startswith("latent"):
        every = P.kw["show_loss_every"] = int(rng.integers(1, 4))
    else:
        P.kw.pop("show_loss_every", None)
    if P.kind == "subgradient":
        P.kw.pop("n_jobs", None)
    X, Y = P.data()
    ws = []
    learner = P.make(logger=lambda l, it: ws.append((it, np.array(l.w))))
    try:
        with joblib.parallel_backend("threading"):
            P.fit(learner, X, Y)
    except ValueError as e:
        if "QP solver failed" in str(e):
            obs.ev("qp-failed")
            return
        raise
    d = lambda t="": "%s %s" % (P.describe(), t)
    obs.ev("fam:" + ds.fam)
    # score
    core = learner.base_ssvm if P.kind.startswith("latent") else learner
    pred = learner.predict(X)
    total = float(sum(inst.max_loss(f) for inst, f in zip(ds.insts, ds.flats)))
    visible = P.kind.startswith("latent") or P.kind == "subgradient-latent"
    if total > 0:
        losses = []
        for inst, f, p in zip(ds.insts, ds.flats, pred):
            if visible:
                v = inst.visible_labels(f)
                p = np.asarray(p).reshape(-1)
                cw = 1. if inst.class_weight is None else np.asarray(inst.class_weight)[v]
                losses.append(float(np.sum(cw * (p[:len(v)] != v))))
            else:
                losses.append(float(inst.losses(f, [np.asarray(inst.unfmt(p)).astype(int)])[0]))
        obs.ev("score")
        s = learner.score(X, Y)
        obs.check(abs(s - (1 - sum(losses) / total)) <= 1e-9, "score", lambda: d("%r, from the predictions %r" % (
            s, 1 - sum(losses) / total)))
        lo, hi = loss_range(ds, P.weights(learner))
        if not visible:
            obs.check_exact(lo - 1e-6 * (1 + lo) <= (1 - s) * total <= hi + 1e-6 * (1 + hi), "score-of-weights", lambda: d(
                "loss %r, of maximal labelings %r to %r" % ((1 - s) * total, lo, hi)))
    # loss curve
    if every and total > 0:
        curve = getattr(core, "loss_curve_", [])
        logged = [(it, w) for it, w in ws if it != "final"]
        want = -(-len(logged) // every)
        obs.check(abs(len(curve) - want) <= 1 and (len(curve) or len(logged) < 2), "loss-curve-length", lambda: d(
            "%d entries, every %d of %d iterations" % (len(curve), every, len(logged))))
        final = [w for it, w in ws if it == "final"]
        for j, v in enumerate(curve):
            it = j * every
            cand = [w for t, w in logged if t in (it, it - 1)] + ([np.zeros(ds.wdim)] if it == 0 else [])
            if it >= len(logged) or P.kind == "n-slack":
                cand += final
            obs.ev("loss-values")
            rs = [loss_range(ds, w) for w in cand]
            obs.check_exact(any(lo - 1e-6 * (1 + lo) <= v * total <= hi + 1e-6 * (1 + hi) for lo, hi in rs), "loss-curve",
                            lambda: d("entry %d (iteration %d) %r of %r: %r" % (j, it, v * total, total, rs)))
    obs.nontrivial(P.describe())
    obs.sample(d("score %r" % (learner.score(X, Y) if total else None)))
    plots(rng, i, obs, P, learner, core, d)


def plots(rng, i, obs, P, learner, core, d):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from pystruct import plot_learning as pl
    if not hasattr(core, "objective_curve_"):
        obs.ev("no-objective-curve")
    time = bool(rng.random() < .6)
    plt.close("all")
    shown = []
    orig = plt.show
    plt.show = lambda *a, **kw: shown.append(1)
    learner.logger = None
    core.logger = None
    cli = i % 60 == 5
    try:
        if cli:
            obs.ev("plot-cli")
            from pystruct.utils import SaveLogger
            with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_SCRATCH")) as td:
                name = os.path.join(td, "model.pickle")
                SaveLogger(name).save(learner, name)
                argv = sys.argv
                sys.argv = ["plot_learning", name]
                try:
                    pl.main()
                finally:
                    sys.argv = argv
            time = True
        else:
            pl.plot_learning(learner, time=time)
        fig = plt.gcf()
        obs.ev("plots")
        obs.ev("plot:" + P.kind)
        axes = fig.axes
        obs.check(len(shown) == 1, "plot-not-shown", d)
        lines = {}
        for l in axes[0].get_lines():
            lines[l.get_label()] = (np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float))
        ours = {}
        if hasattr(core, "objective_curve_"):
            ours["dual"] = core.objective_curve_
        prim = getattr(core, "primal_objective_curve_", None)
        if prim is not None:
            cached = hasattr(core, "cached_constraint_")
            ours["cached primal" if cached else "primal"] = prim
            if cached:
                run = ~np.array(core.cached_constraint_, dtype=bool)
                ours["primal"] = np.asarray(prim)[run] if len(run) == len(prim) else None
        for name, y in ours.items():
            if y is None:
                continue
            obs.ev("plot-lines")
            obs.check(name in lines and np.array_equal(lines[name][1], np.asarray(y, float)), "plot-line", lambda: d(
                "%s: %r recorded %r" % (name, lines.get(name), y)))
            if name in lines:
                xs = lines[name][0]
                obs.check(len(xs) == len(lines[name][1]) and np.all(np.diff(xs) >= 0) and np.all(np.isfinite(xs)),
                          "plot-axis", lambda: d("%s %r" % (name, xs)))
                ts = np.append(np.asarray(core.timestamps_[1:], float) / 60., 0.)
                if "min" in axes[0].get_xlabel():
                    obs.ev("plot-minutes")
                    obs.check(time and np.isin(xs, ts).all(), "plot-minutes", lambda: d("%s %r of %r" % (name, xs, ts)))
                else:
                    obs.check(not time and name == "primal" or np.array_equal(xs, np.arange(len(xs))), "plot-iterations",
                              lambda: d("%s %r" % (name, xs)))
        if getattr(core, "loss_curve_", None) is not None:
            obs.ev("plot-losses")
            yl = [np.asarray(l.get_ydata(), float) for l in axes[-1].get_lines()]
            obs.check(len(yl) == 1 and np.array_equal(yl[0], np.asarray(core.loss_curve_, float), equal_nan=True),
                      "plot-loss", lambda: d("%r recorded %r" % (yl, core.loss_curve_)))
    finally:
        plt.show = orig
        plt.close("all")


def grid_plot(rng, obs):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from pystruct.utils import plot_grid
    obs.ev("plot-grid")
    x = rng.integers(0, 4, size=(int(rng.integers(1, 7)), int(rng.integers(1, 7))))
    own = rng.random() < .5
    fig, ax = plt.subplots()
    try:
        r = plot_grid(x, axes=ax if own else None, border_color=None if rng.random() < .5 else "red")
        obs.check(not own or r is ax, "plot-grid-axes", "axes not used")
        im = r.get_images()
        obs.check(len(im) == 1 and np.array_equal(np.asarray(im[0].get_array()), x), "plot-grid", lambda: "%r" % x)
        obs.check(list(r.get_xticks()) == list(np.arange(1, x.shape[1]) - .5) and
                  list(r.get_yticks()) == list(np.arange(1, x.shape[0]) - .5), "plot-grid-borders", lambda: "%r" % (x.shape,))
    finally:
        plt.close("all")
