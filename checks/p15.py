"""Subgradient training: the weights at every oracle call against the documented schedule, recorded objectives."""
import numpy as np
from vlib.learn import several, training_set, rand_C, can_initialize, Recorder, vertex, even_slices, Fractional, BB, PLAIN, LATENT
from checks.p14 import check_random

CASES = {"quick": 4200, "thorough": 60000}
MIN_EVENTS = {"steps": 30000, "epochs": 8000, "online": 500, "mini": 300, "full": 100, "parallel": 100,
              "stopped": 100, "shuffle": 300, "linear": 300, "squared": 300, "momentum": 300, "no-break": 100,
              "warm": 200, "refit": 200, "loss-curve": 200, "rescale": 10}
MIN_EVENTS.update({"fam:" + f: 50 for f in PLAIN + LATENT})
RULE = ("Small training sets of all 14 families x C x learning rate x decay x momentum x averaging x batch sizes x "
        "workers x shuffling x warm starts and refits. Monitors: the weights passed to every oracle call are those the "
        "documented schedule gives from the predictions made so far, every epoch uses every sample once, final weights "
        "(average), recorded objectives against the true risk, epoch count against the slacks seen. Non-trivial: at "
        "least two epochs; distinct by data and parameters.")
ASSUMPTIONS = ""
CASE_CPU_S = 100.


class Schedule(object):
    """the documented update, written from the documentation"""

    def __init__(self, w, lr, decay, t0, momentum, averaging, C, n, t=0):
        self.w, self.lr, self.decay, self.t0, self.momentum = np.array(w, float), lr, decay, t0, momentum
        self.averaging, self.C, self.n, self.t = averaging, C, n, t
        self.g = np.zeros(len(w))
        self.avg = np.array(w, float)

    def step(self, delta):
        grad = delta - self.w / (self.C * self.n)
        self.g = (1 - self.momentum) * grad + self.momentum * self.g
        lr = self.lr / (self.t0 + self.t) ** self.decay if self.decay else self.lr
        self.w = self.w + lr * self.g
        self.t += 1
        # w_avg ~ sum_k k w_k  or  sum_k k^2 w_k
        if self.averaging:
            p = 1 if self.averaging == "linear" else 2
            weight = sum(k ** p for k in range(1, self.t + 1))
            self.avg = self.avg + (self.t ** p / float(weight)) * (self.w - self.avg)
        else:
            self.avg = self.w


def options(rng, obs, n, C):
    kw = dict(C=C, max_iter=int(rng.choice([1, 2, 5, 12])), momentum=float(rng.choice([0, 0, .5, .9])),
              learning_rate=("auto" if rng.random() < .4 else float(np.round(10 ** rng.uniform(-3, -.3) * C * n, 6))),
              decay_exponent=float(rng.choice([0, .05, .5, 1, 1])), decay_t0=float(rng.choice([1, 10, 3.5])),
              break_on_no_constraints=bool(rng.random() < .8))
    a = rng.integers(3)
    kw["averaging"] = [None, "linear", "squared"][a]
    if a:
        obs.ev(kw["averaging"])
    if kw["momentum"]:
        obs.ev("momentum")
    if not kw["break_on_no_constraints"]:
        obs.ev("no-break")
    if kw["learning_rate"] == "auto" and kw["decay_exponent"] == 0:
        kw["learning_rate"] = .1 * C * n
    if rng.random() < .2:
        kw["show_loss_every"] = int(rng.integers(1, 4))
    return kw


def near(a, b, scale):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=0, atol=1e-8 * (1e-3 + scale + np.abs(b).max()))


def case(rng, i, obs, tier):
    from pystruct.learners import SubgradientSSVM
    import joblib
    fams = PLAIN + LATENT
    fam = fams[i % len(fams)]
    ds = training_set(rng, fam=fam, n=several(rng, 8))
    n, dim = ds.n, ds.wdim
    obs.ev("fam:" + fam)
    if fam == "multiclass" and ds.first.rescale:
        obs.ev("rescale")
    C = rand_C(rng, -3, .3)
    model = ds.make() if ds.first.scalar else ds.make(BB)
    X, Y = ds.X(), ds.Y()
    if isinstance(X, np.ndarray) and len({(x + 0.).tobytes() for x in X}) < n:
        obs.ev("duplicates")
        return
    rec = Recorder(model, ds, X, Y=Y)
    kw = options(rng, obs, n, C)
    mode = rng.choice(["online", "mini", "full", "parallel"], p=[.5, .25, .15, .1])
    if fam == "typed" and mode == "parallel":
        mode = "online"
    obs.ev(mode)
    if mode == "online":
        if rng.random() < .3:
            kw["batch_size"] = 1
    elif mode == "mini":
        kw["batch_size"] = int(rng.integers(2, 5))
    elif mode == "full":
        kw["batch_size"] = -1
    else:
        kw["n_jobs"] = int(rng.choice([2, 3, -1]))
    # one worker per processor: batches of as many samples
    jobs = kw.get("n_jobs", 1)
    size = {"online": 1, "mini": kw.get("batch_size", 1), "full": n, "parallel": jobs if jobs > 0 else joblib.cpu_count()}[mode]
    if rng.random() < .25:
        kw["shuffle"] = True
        obs.ev("shuffle")
    learner = SubgradientSSVM(model, **kw)
    log = []
    learner.logger = lambda l, it: log.append((it, np.array(l.w)))
    w0, t = np.zeros(dim), 0
    d = lambda e="": "%s kw=%r\n%s" % (ds.describe(), kw, e)
    rounds = [False]
    r = rng.random()
    if r < .12:
        rounds = [False, False]
        obs.ev("refit")
    elif r < .24:
        rounds = [False, True]
        obs.ev("warm")
    for warm in rounds:
        rec.calls[:] = []
        log[:] = []
        nlc = len(getattr(learner, "loss_curve_", [])) if warm else 0
        noc = len(learner.objective_curve_) if warm else 0
        with joblib.parallel_backend("threading"):
            learner.fit(X, Y, warm_start=warm, initialize=can_initialize(ds))
        lr = kw["learning_rate"] if kw["learning_rate"] != "auto" else C * n
        if not warm:
            w0, t = np.zeros(dim), 0
        s = Schedule(w0, lr, kw["decay_exponent"], kw["decay_t0"], kw["momentum"], kw["averaging"], C, n, t)
        try:
            ok = replay(obs, d, ds, rec, learner, log, s, kw, size, mode, noc, nlc)
        except Fractional:
            # ties: the solver may answer with a relaxed labeling
            obs.ev("fractional")
            return
        if not ok:
            return
        w0, t = np.array(learner.w), s.t
    if len(log) > 2:
        obs.nontrivial(ds.describe(), kw)
        obs.sample(d("epochs %d objective %r" % (len(log) - 1, learner.objective_curve_[-3:])))


def replay(obs, d, ds, rec, learner, log, s, kw, size, mode, noc, nlc):
    n, C = ds.n, kw["C"]
    calls = [c for c in rec.calls if c[0] == "lai"]
    infs = [c for c in rec.calls if c[0] == "inf"]
    pos, ipos = 0, 0
    fs = max(np.abs(D).max() for D, _ in ds.constraints())
    curve = list(learner.objective_curve_[noc:])
    lossc = list(getattr(learner, "loss_curve_", []))[nlc:]
    nloss = 0
    epoch, positive, unsure = 0, 1, False
    orders = []
    while pos + n < len(calls):
        # one epoch
        positive, unsure, seen = 0, False, []
        for lo, hi in even_slices(n, -(-n // size)):
            group = calls[pos:pos + hi - lo]
            pos += hi - lo
            obs.ev("steps")
            scale = np.abs(s.w).max() + s.lr * fs * n
            for c in group:
                if not near(c[2], s.w, scale):
                    obs.check(False, "trajectory", d("epoch %d: w %r expected %r" % (epoch, c[2], s.w)))
                    return False
            obs.check(True, "trajectory", "")
            seen += [c[1] for c in group]
            total, viol = np.zeros(len(s.w)), 0.
            for c in group:
                D, l = vertex(ds, c[1], c[3])
                slack = l - D.dot(c[2])
                tiny = 1e-9 * (1 + abs(l) + np.abs(D).dot(np.abs(c[2])))
                viol += slack
                if mode in ("online", "parallel"):
                    if abs(slack) <= tiny:
                        unsure |= bool(np.abs(D).max() > 0)
                    elif slack > 0:
                        positive += 1
                if mode == "parallel" and slack <= tiny and np.abs(D).max() > 0:
                    obs.ev("ambiguous")
                    return False
                total += D
            if mode in ("mini", "full"):
                total /= len(group)
                if abs(viol) <= 1e-9 * (1 + np.abs(s.w).max() * n * (1 + fs)):
                    unsure |= bool(any(np.abs(vertex(ds, c[1], c[3])[0]).max() > 0 for c in group))
                elif viol > 0:
                    positive += 1
            s.step(total)
        obs.check(sorted(seen) == list(range(n)), "epoch-coverage", lambda: d("epoch %d: %r" % (epoch, seen)))
        orders.append(tuple(seen))
        obs.ev("epochs")
        last = pos + n == len(calls)
        if last and (kw["break_on_no_constraints"] and (positive == 0 or unsure)) and len(curve) == epoch + 1:
            break
        # the objective after the epoch
        if epoch >= len(curve):
            obs.check(False, "curve-length", d("%r" % curve))
            return False
        for c in calls[pos:pos + n]:
            obs.check(near(c[2], s.avg, np.abs(s.avg).max() + s.lr * fs * n), "objective-weights", lambda: d(
                "epoch %d: %r expected %r" % (epoch, c[2], s.avg)))
        pos += n
        risk = ds.risk(s.avg, C)
        obs.check(abs(curve[epoch] - risk) <= 1e-5 * (1 + abs(risk) + C * n), "recorded-objective", lambda: d(
            "epoch %d: recorded %r true %r" % (epoch, curve[epoch], risk)))
        obs.check(kw["break_on_no_constraints"] is False or positive > 0 or unsure, "went-on", lambda: d(
            "epoch %d without positive slack" % epoch))
        if epoch < len(log):
            obs.check(log[epoch][0] == epoch and near(log[epoch][1], s.avg, s.lr * fs * n), "logged-weights",
                      lambda: d("epoch %d %r" % (epoch, log[epoch])))
        k = kw.get("show_loss_every", 0)
        if k and epoch % k == 0:
            obs.ev("loss-curve")
            got = infs[ipos:ipos + n]
            ipos += n
            bad = sum(ds.insts[c[1]].losses(ds.flats[c[1]], [flat(ds, c)])[0] for c in by_sample(got, n))
            mx = sum(max_loss(ds, j) for j in range(n))
            obs.check(nloss < len(lossc) and (mx == 0 or abs(lossc[nloss] - bad / mx) < 1e-9), "loss-curve", lambda: d(
                "epoch %d: %r expected %r" % (epoch, lossc, bad / mx)))
            nloss += 1
        epoch += 1
    if mode == "parallel":
        pass  # threads
    elif kw.get("shuffle"):
        check_random(obs, d, "perm", orders, n)
    else:
        obs.check(len(set(orders)) <= 1, "order-without-shuffle", lambda: d("%r" % (orders,)))
    epochs_run = len(log) - 1
    broke = epochs_run < kw["max_iter"]
    obs.check(len(curve) == epochs_run + 1, "curve-length", lambda: d("%d %d" % (len(curve), epochs_run)))
    obs.check(epoch == epochs_run, "epochs", lambda: d("%d %d" % (epoch, epochs_run)))
    if broke:
        obs.ev("stopped")
        obs.check(kw["break_on_no_constraints"] and (positive == 0 or unsure), "stopped-early", lambda: d(
            "after %d epochs, %d positive slacks" % (epochs_run, positive)))
    obs.check(len(learner.timestamps_) >= epochs_run + 2, "timestamps", lambda: d("%d" % len(learner.timestamps_)))
    obs.check(near(learner.w, s.avg, np.abs(s.avg).max() + s.lr * fs * n), "final-weights", lambda: d(
        "%r expected %r" % (learner.w, s.avg)))
    obs.check(len(lossc) == nloss, "loss-curve-length", lambda: d("%d %d" % (len(lossc), nloss)))
    risk = ds.risk(np.asarray(learner.w), C)
    obs.check(abs(curve[-1] - risk) <= 1e-5 * (1 + abs(risk) + C * n), "final-objective", lambda: d(
        "recorded %r true %r" % (curve[-1], risk)))
    return True


def by_sample(calls, n):
    """inference calls carry no labels: samples are told apart by their inputs"""
    return calls


def flat(ds, c):
    from vlib.learn import flat_of
    return flat_of(ds, c[1], c[3])


def max_loss(ds, k):
    inst, y = ds.insts[k], ds.flats[k]
    return float(inst.max_loss(y))
