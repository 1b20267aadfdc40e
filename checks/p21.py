"""Keyboard interrupts at every model call of training: fit returns, weights are a state training passed through."""
import copy

import numpy as np
from vlib.data import ssvm_optimum
from vlib.learn import training_set, Plan, flat_of, can_initialize, same, Fractional, PLAIN, LATENT
from vlib.runner import HarnessError

CASES = {"quick": 700, "thorough": 12000}
KINDS = ("one-slack", "n-slack", "subgradient", "subgradient-latent", "fw", "fw-batch", "perceptron")
MIN_EVENTS = {"interrupts": 4000, "returned": 2500, "before-call": 1500, "after-call": 1500, "in-iterations": 2500,
              "in-final-objective": 200, "continued": 100, "refit": 150, "moved": 900, "cached": 100}
MIN_EVENTS.update({"kind:" + k: 150 for k in KINDS})
MIN_EVENTS.update({"fam:" + f: 20 for f in PLAIN + LATENT})
RULE = ("Learners (1-slack with and without cache, n-slack, subgradient, latent subgradient, Frank-Wolfe, perceptron) x "
        "14 families; an uninterrupted run records every call of the model and the weights around it; then training is "
        "repeated with a KeyboardInterrupt before or after the k-th call, for up to 14 different k per case. Monitors: "
        "fit returns; weights are among the states of the uninterrupted run up to that call (or solve the QP of the "
        "constraints found so far); final recorded objective; predict and score; training again and warm starts. "
        "Non-trivial: weights at the interrupt neither zero nor final; distinct by plan and call.")
ASSUMPTIONS = "interrupts in worker threads or processes (n_jobs > 1) are not covered"
CASE_CPU_S = 100.
NAMES = dict(loss_augmented_inference="lai", batch_loss_augmented_inference="lai", inference="inf",
             batch_inference="inf", latent="latent", joint_feature="feature", batch_joint_feature="feature",
             loss="loss", batch_loss="loss", continuous_loss="loss")


class Tripwire(object):
    """wraps the methods of a model; interrupts before or after the k-th outermost call"""

    def __init__(self, model, at=None, after=False):
        self.at, self.after, self.n, self.depth, self.learner = at, after, 0, 0, None
        self.kinds, self.states, self.sizes = [], [], []
        for name, kind in NAMES.items():
            if hasattr(model, name):
                self.wrap(model, name, kind)

    def note(self, w=None):
        out = [] if w is None else [np.array(w, float)]
        if getattr(self.learner, "w", None) is not None:
            out.append(np.array(self.learner.w, float))
        self.states[-1].extend(out)

    def wrap(self, model, name, kind):
        orig = getattr(model, name)

        def f(*a, **kw):
            if self.depth or self.learner is None:
                return orig(*a, **kw)
            w = None
            if kind in ("lai", "latent"):
                w = a[2] if len(a) > 2 else kw.get("w")
            elif kind == "inf":
                w = a[1] if len(a) > 1 else kw.get("w")
            self.n += 1
            self.kinds.append(kind)
            self.sizes.append(len(a[0]) if name.startswith("batch") else 1)
            self.states.append([])
            self.note(w)
            if self.n == self.at and not self.after:
                raise KeyboardInterrupt()
            self.depth += 1
            try:
                r = orig(*a, **kw)
            finally:
                self.depth -= 1
            if self.n == self.at and self.after:
                raise KeyboardInterrupt()
            return r
        setattr(model, name, f)


def train(P, at=None, after=False):
    X, Y = P.data()
    model = P.model()
    trip = Tripwire(model, at, after)
    learner = P.make(model)
    trip.learner = learner
    raised = False
    try:
        P.fit(learner, X, Y)
    except KeyboardInterrupt:
        raised = True
    trip.learner = None
    return learner, trip, raised, X, Y


def case(rng, i, obs, tier):
    fams = PLAIN + LATENT
    fam = fams[i % len(fams)]
    ds = training_set(rng, fam=fam, maxlab=40, n=int(rng.integers(1, 4)))
    if any(len(inst.visible_labels(f)) == 0 for inst, f in zip(ds.insts, ds.flats)):
        return
    kind = KINDS[(i // len(fams)) % len(KINDS)]
    if kind == "subgradient-latent" and not ds.first.latent:
        kind = "one-slack"
    if kind == "fw-batch" and ds.first.latent:
        kind = "n-slack"
    if kind == "perceptron" and getattr(ds.first, "rescale", False):
        kind = "n-slack"
    P = Plan(rng, ds, kind, iters=int(rng.choice([2, 4, 30])), show_loss=rng.random() < .3)
    obs.ev("fam:" + fam)
    d = lambda e="": "%s\n%s" % (P.describe(), e)
    try:
        run(rng, obs, d, ds, P, tier)
    except ValueError as e:
        if "QP solver failed" not in str(e):
            raise
        obs.ev("qp-failed")
    except Fractional:
        obs.ev("fractional")


def run(rng, obs, d, ds, P, tier):
    full, trip, raised, X, Y = train(P)
    if raised or not trip.n:
        raise HarnessError("reference run " + d())
    N = trip.n
    oracle = [k for k, kind in enumerate(trip.kinds, 1) if kind in ("lai", "inf", "latent")]
    first = oracle[0]
    tail = N + 1
    if P.kind != "perceptron":
        for kind in ("lai", "latent"):
            left = ds.n
            for k in range(N, 0, -1):
                if trip.kinds[k - 1] == kind:
                    tail = min(tail, k)
                    left -= trip.sizes[k - 1]
                    if left <= 0:
                        break
    wfull = P.weights(full)
    ks = list(range(1, N + 1))
    if len(ks) > 14:
        ks = sorted(set([1, first, first + 1, tail - 1, tail, N] +
                        [int(k) for k in rng.choice(N, 8, replace=False) + 1]) & set(ks))
    for k in ks:
        after = bool(rng.random() < .5)
        learner, t2, raised, X, Y = train(P, k, after)
        obs.ev("interrupts")
        obs.ev("kind:" + P.kind)
        obs.ev("after-call" if after else "before-call")
        e = lambda m="": d("interrupt %s call %d of %d (%s; iterations %d..%d)\n%s" % (
            "after" if after else "before", k, N, trip.kinds[k - 1], first, tail - 1, m))
        if t2.kinds[:k] != trip.kinds[:k]:
            obs.fail("not-reproducible", e())
            return
        if raised:
            if not obs.check(k < first or k >= tail, "interrupt-not-handled", e):
                continue
            if k < first:
                continue
            obs.ev("in-final-objective")
            obs.check(np.allclose(P.weights(learner), wfull, rtol=1e-9, atol=1e-12), "final-weights", e)
        else:
            obs.ev("returned")
            obs.ev("in-iterations" if k < tail else "in-final-objective")
        w = P.weights(learner)
        if not obs.check(w.shape == (ds.wdim,) and np.all(np.isfinite(w)), "weights", lambda: e("%r" % w)):
            continue
        states = [s for c in trip.states[:k] for s in c]
        if k >= tail:
            states.append(wfull)
        ok = any(np.allclose(w, s, rtol=1e-7, atol=1e-10) for s in states) or not np.any(w) or solves(ds, P, learner, w)
        obs.check(ok or P.kind == "perceptron" and P.kw["average"] is not False, "foreign-weights", lambda: e("%r, last state %r" % (w, states[-1])))
        judge(rng, obs, e, ds, P, learner, w, X, Y, raised)
        if np.any(w) and not np.allclose(w, wfull):
            obs.ev("moved")
            obs.nontrivial(P.describe(), k)
            obs.sample(e("w=%r" % np.round(w, 4)))
        if P.kw.get("inference_cache"):
            obs.ev("cached")
        r = rng.random()
        if r < .12:
            obs.ev("refit")
            again = P.fit(learner, X, Y)
            obs.check(np.allclose(P.weights(again), wfull, rtol=1e-5, atol=1e-7 * (1 + np.abs(wfull).max())), "refit",
                      lambda: e("%r, uninterrupted %r" % (P.weights(again), wfull)))
        elif r < .3 and P.kind == "one-slack":
            learner.max_iter = 2000
            # dropping planes that are still in use can go on for ever
            learner.inactive_threshold = min(learner.inactive_threshold, 1e-5)
            learner.fit(X, Y, warm_start=[True, "soft"][int(rng.integers(2))], initialize=can_initialize(ds))
            opt = ssvm_optimum(ds.constraints(), P.C)
            if opt:
                obs.ev("continued")
                risk = ds.risk(P.weights(learner), P.C)
                obs.check(risk <= opt[1] + P.C * ds.n * learner.tol + 3e-5 * (1 + opt[1]), "continued-not-optimal",
                          lambda: e("%r optimum %r" % (risk, opt[1])))


def solves(ds, P, learner, w):
    """are the weights the solution for the constraints found so far?"""
    cons = getattr(learner, "constraints_", None)
    if P.kind == "one-slack":
        cons = [(np.array([c[0] for c in cons]), np.array([c[1] for c in cons]) * 1.)]
        C = P.C * ds.n
    elif P.kind == "n-slack":
        zero = np.zeros((1, ds.wdim))
        cons = [(np.vstack([zero] + [c[1] for c in s]), np.array([0.] + [c[2] for c in s])) for s in cons]
        C = P.C
    else:
        return False
    opt = ssvm_optimum(cons, C)
    if not opt:
        return True
    val = .5 * w.dot(w) + C * sum(max(0, np.max(L - D.dot(w))) for D, L in cons)
    return val <= opt[1] + 3e-5 * (1 + opt[1])


def judge(rng, obs, e, ds, P, learner, w, X, Y, raised):
    # predictions are those of a model given the weights
    pred = learner.predict(X)
    ref = P.model()
    want = [ref.inference(x, w) for x in X]
    val = [inst.score(w, flat_of(ds, k, p)) for k, (inst, p) in enumerate(zip(ds.insts, pred))] \
        if P.kind != "subgradient-latent" else None
    if P.kind == "subgradient-latent":
        want = [ref.label_from_latent(h) for h in want]
        obs.check(not same([np.asarray(a) for a in want], [np.asarray(a) for a in pred]), "predict", lambda: e(
            "%r expected %r" % (pred, want)))
        loss = [ref.base_loss(y, p) for y, p in zip(Y, pred)]
    else:
        opt = [inst.score(w, flat_of(ds, k, p)) for k, (inst, p) in enumerate(zip(ds.insts, want))]
        obs.check(np.allclose(val, opt, rtol=1e-6, atol=1e-6 * (1 + np.abs(w).max())), "predict", lambda: e(
            "%r expected %r" % (pred, want)))
        loss = [ref.loss(y, p) for y, p in zip(Y, pred)]
    sc = learner.score(X, Y)
    if P.kind == "subgradient-latent":
        worst = [ref.max_loss(y) for y in Y]
    else:
        worst = [inst.max_loss(f) for inst, f in zip(ds.insts, ds.flats)]
    obs.check(abs(sc - (1 - np.sum(loss) / float(np.sum(worst)))) < 1e-9, "score", lambda: e("%r" % sc))
    if raised or P.kind in ("perceptron", "subgradient-latent"):
        return
    r = ds.risk(w, P.C)
    curve = learner.objective_curve_ if P.kind == "subgradient" else learner.primal_objective_curve_
    obs.check(abs(curve[-1] - r) <= 1e-5 * (1 + abs(r) + P.C * ds.n), "final-objective", lambda: e(
        "recorded %r true %r" % (curve[-1], r)))
