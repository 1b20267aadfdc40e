"""Structured perceptron: the weights at every prediction against the update rule; average, loss curve and stopping."""
import numpy as np
from vlib.learn import several, training_set, can_initialize, Recorder, flat_of, Fractional, BB, PLAIN, LATENT

CASES = {"quick": 6000, "thorough": 80000}
MIN_EVENTS = {"predictions": 50000, "epochs": 15000, "batch": 1000, "online": 2000, "average": 800, "average-last": 300,
              "average-k": 300, "no-average": 800, "decay": 800, "stopped": 1000, "converged-correct": 300,
              "refit": 500, "threads": 80, "class-weight": 100}
MIN_EVENTS.update({"fam:" + f: 50 for f in PLAIN + LATENT})
RULE = ("Small training sets of all 14 families x batch/online x decay x averaging x epochs x refits with different "
        "averaging. Monitors: weights passed to every prediction are those given by the update rule from the "
        "predictions made so far, final (averaged) weights, loss curve = mean training loss per epoch, stop exactly "
        "after an epoch without loss. Non-trivial: at least one update and two epochs; distinct by data, parameters.")
ASSUMPTIONS = ""
CASE_CPU_S = 100.


def case(rng, i, obs, tier):
    from pystruct.learners import StructuredPerceptron
    import joblib
    fams = PLAIN + LATENT
    fam = fams[i % len(fams)]
    ds = training_set(rng, fam=fam, n=several(rng, 7))
    if fam == "multiclass" and ds.first.rescale:
        # needs the true labels for joint features, which the perceptron does not pass: rejected with an error
        return
    n, dim = ds.n, ds.wdim
    obs.ev("fam:" + fam)
    if getattr(ds.first, "class_weight", None) is not None:
        obs.ev("class-weight")
    model = ds.make() if ds.first.scalar else ds.make(BB)
    X, Y = ds.X(), ds.Y()
    if not sum(float(ds.insts[k].max_loss(ds.flats[k])) for k in range(n)) > 0:
        # no visible node at all
        return
    if isinstance(X, np.ndarray) and len({(x + 0.).tobytes() for x in X}) < n:
        obs.ev("duplicates")
        return
    rec = Recorder(model, ds, X)
    kw = dict(max_iter=int(rng.choice([1, 2, 5, 15])), batch=bool(rng.random() < .35),
              average=[False, False, True, -1, 0, 1, 2, 4][int(rng.integers(8))])
    obs.ev("batch" if kw["batch"] else "online")
    a = kw["average"]
    obs.ev("no-average" if a is False else "average-last" if a == -1 and a is not True else
           "average" if a is True or a == 0 else "average-k")
    if rng.random() < .4:
        kw["decay_exponent"] = float(rng.choice([-.5, -1, .5, 1]))
        kw["decay_t0"] = float(rng.choice([1, 10, 2.5]))
        obs.ev("decay")
    if kw["batch"] and rng.random() < .15 and fam != "typed":
        kw["n_jobs"] = 2
        obs.ev("threads")
    learner = StructuredPerceptron(model, **kw)
    d = lambda e="": "%s kw=%r\n%s" % (ds.describe(), kw, e)
    rounds = 1
    if rng.random() < .2:
        rounds = 2
        obs.ev("refit")
    for r in range(rounds):
        rec.calls[:] = []
        if r:
            kw["average"] = a = [False, True, -1, 1][int(rng.integers(4))]
            learner.set_params(average=a)
        with joblib.parallel_backend("threading"):
            learner.fit(X, Y, initialize=can_initialize(ds))
        try:
            if not replay(obs, d, ds, rec, learner, kw, a):
                return
        except Fractional:
            obs.ev("fractional")
            return
    obs.sample(d("loss curve %r" % learner.loss_curve_))


def replay(obs, d, ds, rec, learner, kw, a):
    n = ds.n
    calls = [c for c in rec.calls if c[0] == "inf"]
    lc = list(learner.loss_curve_)
    obs.check(len(calls) == n * len(lc) and 1 <= len(lc) <= kw["max_iter"], "predictions", lambda: d(
        "%d predictions %d epochs" % (len(calls), len(lc))))
    w = np.zeros(ds.wdim)
    mx = 0 + sum(float(ds.insts[k].max_loss(ds.flats[k])) for k in range(n))
    seq, updates = [], 0
    fs = max(np.abs(D).max() for D, _ in ds.constraints())
    for t in range(len(lc)):
        group = calls[t * n:(t + 1) * n]
        obs.ev("epochs")
        lr = (t + kw.get("decay_t0", 10)) ** kw.get("decay_exponent", 0)
        bad, delta = 0., np.zeros(ds.wdim)
        obs.check(sorted(c[1] for c in group) == list(range(n)), "epoch-coverage", lambda: d("epoch %d %r" % (
            t, [c[1] for c in group])))
        tol = 1e-9 * (1 + np.abs(w).max() + lr * fs)
        for c in group:
            obs.ev("predictions")
            if not np.abs(c[2] - w).max() <= tol:
                obs.check(False, "trajectory", d("epoch %d: w %r expected %r" % (t, c[2], w)))
                return False
            k = c[1]
            f = flat_of(ds, k, c[3])
            loss = float(ds.insts[k].losses(ds.flats[k], [f])[0])
            bad += loss
            if loss > 0:
                updates += 1
                D = lr * (ds.insts[k].psi(ds.flats[k]) - ds.insts[k].psi(f))
                if kw["batch"]:
                    delta += D
                else:
                    w = w + D
            if not kw["batch"]:
                seq.append((t, w))
        if kw["batch"]:
            w = w + delta
            seq.append((t, w))
        obs.check(abs(lc[t] - bad / mx) < 1e-9, "loss-curve", lambda: d("epoch %d: %r expected %r" % (t, lc[t], bad / mx)))
        obs.check(bad > 0 or t + 1 == len(lc), "went-on", lambda: d("epoch %d without loss" % t))
        if t + 1 == len(lc) and len(lc) < kw["max_iter"]:
            obs.ev("stopped")
            obs.check(bad == 0, "stopped-early", lambda: d("%r" % lc))
    # the result
    if a is False:
        want = w
    elif a is not True and a == -1:
        want = np.mean([v for t, v in seq if t == len(lc) - 1], axis=0)
    else:
        s = [v for t, v in seq if t >= int(a if a is not True else 0)]
        want = np.mean(s, axis=0) if s else np.zeros(ds.wdim)
    tol = 1e-8 * (1 + np.abs(want).max() + np.abs(w).max())
    obs.check(np.shape(learner.w) == (ds.wdim,) and np.abs(learner.w - want).max() <= tol, "final-weights", lambda: d(
        "%r expected %r" % (learner.w, want)))
    if lc[-1] == 0 and a is False:
        obs.ev("converged-correct")
        learner.set_params(n_jobs=1)
        obs.check(all(ds.insts[k].losses(ds.flats[k], [flat_of(ds, k, y)])[0] == 0
                      for k, y in enumerate(learner.predict(ds.X()))), "not-correct", lambda: d("loss curve %r" % lc))
    if updates and len(lc) > 1:
        obs.nontrivial(ds.describe(), kw)
    return True
