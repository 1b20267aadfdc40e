"""Latent subgradient training: completions, weights at every oracle call, recorded objectives, predict and score."""
import itertools
import numpy as np
from checks.p15 import Schedule, options, near
from checks.p17 import initable
from vlib.learn import several, training_set, rand_C, Recorder, even_slices, flat_of, Fractional, BB, LATENT

CASES = {"quick": 1300, "thorough": 40000}
MIN_EVENTS = {"steps": 7500, "epochs": 2500, "online": 250, "parallel": 75, "stopped": 30, "linear": 100,
              "squared": 100, "momentum": 100, "no-break": 50, "warm": 75, "refit": 50, "loss-curve": 100,
              "random-start": 150, "given-start": 150, "completion-optimal": 2500, "augmented-optimal": 2500,
              "predictions": 1000, "own-init": 50}
MIN_EVENTS.update({"fam:" + f: 50 for f in LATENT})
RULE = ("Small training sets of the five latent families x C x learning rate x decay x momentum x averaging x workers x "
        "given or random starting weights x warm starts and refits. Monitors: the completion and loss-augmented "
        "prediction of every oracle call (consistent, optimal), the weights at every call against the schedule "
        "replayed from them, recorded objectives, loss curve, final weights, stop condition, predict/score. "
        "Non-trivial: at least two epochs; distinct by data and parameters.")
ASSUMPTIONS = ""
CASE_CPU_S = 100.


def case(rng, i, obs, tier):
    from pystruct.learners import SubgradientLatentSSVM
    import joblib
    fam = LATENT[i % len(LATENT)]
    ds = training_set(rng, fam=fam, n=several(rng, 7))
    if any(len(inst.visible_labels(f)) == 0 for inst, f in zip(ds.insts, ds.flats)):
        return
    n, dim = ds.n, ds.wdim
    obs.ev("fam:" + fam)
    C = rand_C(rng, -3, .3)
    model = ds.make(BB)
    X, Y = ds.X(), ds.visible()
    kw = options(rng, obs, n, C)
    size, init = 1, False
    mode = "online"
    if rng.random() < .2:
        mode = "parallel"
        size = kw["n_jobs"] = int(rng.integers(2, 4))
    obs.ev(mode)
    if initable(ds) and rng.random() < .5:
        init = True
        obs.ev("own-init")
    learner = SubgradientLatentSSVM(model, **kw)
    log = []
    learner.logger = lambda l, it: log.append((it, np.array(l.w)))
    w0 = None
    if rng.random() < .6:
        w0 = np.zeros(dim) if rng.random() < .3 else ds.first.rand_w(rng, "normal")
        learner.w = np.array(w0)
        obs.ev("given-start")
    else:
        obs.ev("random-start")
    rec = Recorder(model, ds, X, Y=Y)
    d = lambda e="": "%s kw=%r start=%s init=%r\n%s" % (ds.describe(), kw, "given" if w0 is not None else "random", init, e)
    np.random.seed(int(rng.integers(2 ** 31)))
    rounds = [False]
    r = rng.random()
    if r < .1:
        rounds = [False, False]
        obs.ev("refit")
    elif r < .25:
        rounds = [False, True]
        obs.ev("warm")
    t = 0
    for k, warm in enumerate(rounds):
        rec.calls[:] = []
        log[:] = []
        nlc = len(getattr(learner, "loss_curve_", [])) if warm else 0
        noc = len(learner.objective_curve_) if warm else 0
        with joblib.parallel_backend("threading"):
            learner.fit(X, Y, warm_start=warm, initialize=init)
        lr = kw["learning_rate"] if kw["learning_rate"] != "auto" else C * n
        if k and not warm:
            w0, t = None, 0
        if w0 is None:
            w0 = rec.calls[0][2]
            if k and len(log) > 1 and np.abs(log_prev).max() > 0:
                obs.check(not np.array_equal(w0, log_prev), "refit-continues", lambda: d("%r" % w0))
        s = Schedule(w0, lr, kw["decay_exponent"], kw["decay_t0"], kw["momentum"], kw["averaging"], C, n, t)
        try:
            if not replay(obs, d, ds, rec, learner, log, s, kw, size, mode, noc, nlc):
                return
        except Fractional:
            obs.ev("fractional")
            return
        w0, t = np.array(learner.w), s.t
        log_prev = w0
    predictions(obs, d, ds, learner, X, Y)
    if len(log) > 2:
        obs.nontrivial(ds.describe(), kw)
        obs.sample(d("epochs %d objective %r" % (len(log) - 1, learner.objective_curve_[-3:])))


def completions_of(ds, k):
    if not hasattr(ds, "_compl"):
        ds._compl = {}
    if k not in ds._compl:
        inst = ds.insts[k]
        comp = inst.completions(inst.visible_labels(ds.flats[k]))
        ds._compl[k] = np.array(list(itertools.product(*comp)), dtype=int)
    return ds._compl[k]


def pair_up(obs, d, ds, group, lo, hi):
    """per sample the completion and the loss-augmented prediction of one batch of oracle calls"""
    lat = {c[1]: c for c in group if c[0] == "latent"}
    lai = {c[1]: c for c in group if c[0] == "lai"}
    if not obs.check(len(group) == 2 * (hi - lo) and sorted(lat) == sorted(lai) == list(range(lo, hi)), "batch",
                     lambda: d("%r" % [(c[0], c[1]) for c in group])):
        return None
    out = []
    for k in range(lo, hi):
        inst, w = ds.insts[k], lat[k][2]
        h = lat[k][3]
        vis = inst.visible_labels(ds.flats[k])
        if not obs.check(inst.ok_labels(h) and np.array_equal(inst.visible_labels(inst.unfmt(h)), vis), "completion",
                         lambda: d("sample %d labels %r completion %r" % (k, vis, h))):
            return None
        h = np.asarray(inst.unfmt(h)).astype(int)
        obs.check(np.array_equal(inst.unfmt(lai[k][4]), h), "augmented-around", lambda: d(
            "sample %d completion %r, loss-augmented around %r" % (k, h, lai[k][4])))
        f = flat_of(ds, k, lai[k][3])
        tol = 1e-5 * (1 + np.abs(w).sum() * max(1., np.abs(inst.psi(h)).max()))
        obs.ev("completion-optimal")
        best = inst.scores(w, completions_of(ds, k)).max()
        obs.check(inst.score(w, h) >= best - tol, "completion-suboptimal", lambda: d("sample %d: %r of %r" % (
            k, inst.score(w, h), best)))
        al = inst.all_flat()
        obs.ev("augmented-optimal")
        loss = float(inst.losses(h, [f])[0])
        bestl = (inst.scores(w, al) + inst.losses(h, al)).max()
        obs.check(inst.score(w, f) + loss >= bestl - tol, "augmented-suboptimal", lambda: d("sample %d: %r of %r" % (
            k, inst.score(w, f) + loss, bestl)))
        D = inst.psi(h) - inst.psi(f)
        out.append((w, lai[k][2], D, loss))
    return out


def latent_risk(ds, w, C):
    tot = 0.
    for k, inst in enumerate(ds.insts):
        al = inst.all_flat()
        aug = (inst.scores(w, al) + inst.losses(ds.flats[k], al)).max()
        tot += max(0., aug - inst.scores(w, completions_of(ds, k)).max())
    return .5 * float(np.dot(w, w)) + C * tot


def replay(obs, d, ds, rec, learner, log, s, kw, size, mode, noc, nlc):
    n, C = ds.n, kw["C"]
    calls = [c for c in rec.calls if c[0] != "inf"]
    pos = 0
    fs = max([np.abs(inst.psi(f)).max() for inst, f in zip(ds.insts, ds.flats)] + [1.])
    curve = list(learner.objective_curve_[noc:])
    lossc = list(getattr(learner, "loss_curve_", []))[nlc:]
    epochs_run = len(log) - 1
    scores = []
    positive, unsure = 1, False
    if not obs.check(len(calls) % (2 * n) == 0, "calls", lambda: d("%d" % len(calls))):
        return False
    total = len(calls) // (2 * n) - 1        # epochs started (the last sweep evaluates the objective)
    for epoch in range(total):
        positive, unsure, objective = 0, False, 0.
        for lo, hi in even_slices(n, -(-n // size)):
            group = calls[pos:pos + 2 * (hi - lo)]
            pos += 2 * (hi - lo)
            pairs = pair_up(obs, d, ds, group, lo, hi)
            if pairs is None:
                return False
            obs.ev("steps")
            scale = np.abs(s.w).max() + s.lr * fs * n
            D = np.zeros(len(s.w))
            for wl, wa, dk, loss in pairs:
                for wc in (wl, wa):
                    if not near(wc, s.w, scale):
                        obs.check(False, "trajectory", d("epoch %d: w %r expected %r" % (epoch, wc, s.w)))
                        return False
                obs.check(True, "trajectory", "")
                slack = loss - dk.dot(wl)
                if abs(slack) <= 1e-9 * (1 + loss + np.abs(dk).dot(np.abs(wl))):
                    unsure |= bool(np.abs(dk).max() > 0)
                elif slack > 0:
                    positive += 1
                objective += max(slack, 0)
                D += dk
            s.step(D / len(pairs))
        obs.ev("epochs")
        stopped = epoch == total - 1 and epochs_run < total
        if stopped:
            obs.ev("stopped")
            obs.check(kw["break_on_no_constraints"] and (positive == 0 or unsure), "stopped-early", lambda: d(
                "epoch %d, %d positive slacks" % (epoch, positive)))
            break
        obs.check(kw["break_on_no_constraints"] is False or positive > 0 or unsure, "went-on", lambda: d(
            "epoch %d without positive slack" % epoch))
        if epoch >= len(curve):
            obs.check(False, "curve-length", d("%r" % curve))
            return False
        want = C * objective + .5 * float(np.dot(s.avg, s.avg))
        obs.check(abs(curve[epoch] - want) <= 1e-7 * (1 + abs(want) + C * n * (1 + np.abs(s.w).max() * fs)),
                  "recorded-objective", lambda: d("epoch %d: recorded %r expected %r" % (epoch, curve[epoch], want)))
        if epoch < len(log):
            obs.check(log[epoch][0] == epoch and near(log[epoch][1], s.avg, s.lr * fs * n), "logged-weights",
                      lambda: d("epoch %d %r" % (epoch, log[epoch])))
        k = kw.get("show_loss_every", 0)
        if k and epoch % k == 0:
            scores.append(epoch)
    if total and not (kw["break_on_no_constraints"] and (positive == 0 or unsure)):
        obs.check(total == kw["max_iter"], "epochs", lambda: d("%d" % total))
    obs.check(len(curve) == epochs_run + 1 and log[-1][0] == "final", "curve-length", lambda: d("%d %d" % (
        len(curve), epochs_run)))
    # loss curve: fractions of visible labels wrong in the predictions of those epochs
    infs = [c for c in rec.calls if c[0] == "inf"]
    obs.check(len(lossc) == len(scores), "loss-curve-length", lambda: d("%r %r" % (lossc, scores)))
    for j, epoch in enumerate(scores[:len(lossc)]):
        obs.ev("loss-curve")
        got = infs[j * n:(j + 1) * n]
        bad = mx = 0.
        for c in got:
            obs.check(near(c[2], log[epoch][1], 0), "loss-weights", lambda: d("epoch %d" % epoch))
            inst, y = ds.insts[c[1]], ds.flats[c[1]]
            bad += inst.losses(y, [flat_of(ds, c[1], c[3])])[0]
            mx += inst.max_loss(y)
        obs.check(len(got) == n and (mx == 0 or abs(lossc[j] - bad / mx) < 1e-9), "loss-curve", lambda: d(
            "epoch %d: %r expected %r" % (epoch, lossc[j], bad / mx)))
    scale = np.abs(s.avg).max() + s.lr * fs * n
    obs.check(near(learner.w, s.avg, scale), "final-weights", lambda: d("%r expected %r" % (learner.w, s.avg)))
    for c in calls[2 * n * total:]:
        obs.check(near(c[2], s.avg, scale), "objective-weights", lambda: d("%r" % c[2]))
    risk = latent_risk(ds, np.asarray(learner.w), C)
    tol = 1e-5 * (1 + abs(risk) + C * n * (1 + np.abs(learner.w).sum() * fs))
    obs.check(abs(curve[-1] - risk) <= tol, "final-objective", lambda: d("recorded %r true %r" % (curve[-1], risk)))
    return True


def predictions(obs, d, ds, learner, X, Y):
    P, Q = learner.predict_latent(X), learner.predict(X)
    obs.check(len(P) == len(Q) == ds.n, "prediction-count", lambda: d("%d %d" % (len(P), len(Q))))
    total = mx = 0.
    for k, (h, y) in enumerate(zip(P, Q)):
        obs.ev("predictions")
        inst = ds.insts[k]
        if not obs.check(inst.ok_labels(h), "latent-prediction-invalid", lambda: d("%r" % h)):
            return
        f = np.asarray(inst.unfmt(h)).astype(int)
        w = np.asarray(learner.w)
        best = inst.scores(w, inst.all_flat()).max()
        obs.check(inst.score(w, f) >= best - 1e-5 * (1 + np.abs(w).sum() * max(1., np.abs(inst.psi(f)).max())),
                  "prediction-suboptimal", lambda: d("sample %d %r of %r" % (k, inst.score(w, f), best)))
        v = inst.visible_labels(f).reshape(inst.visible_shape())
        obs.check(np.shape(y) == v.shape and np.array_equal(y, v), "prediction", lambda: d("%r latent %r" % (y, h)))
        total += inst.losses(ds.flats[k], [f])[0]
        mx += inst.max_loss(ds.flats[k])
    if mx > 0:
        sc = learner.score(X, Y)
        obs.check(abs(sc - (1 - total / mx)) < 1e-9, "score", lambda: d("%r expected %r" % (sc, 1 - total / mx)))
