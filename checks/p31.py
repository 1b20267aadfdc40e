"""Concurrent use of shared models and learners under a seeded thread scheduler, against the sequential results."""
import copy
import os
import threading

import numpy as np
from vlib.data import Dataset
from vlib.learn import training_set, plan, same, BB, PLAIN, LATENT
from vlib.sched import Interleaver
from vlib.build import repo

CASES = {"quick": 1400, "thorough": 30000}
OPS = ("inference", "lai", "joint_feature", "loss", "batch_inference", "batch_lai", "batch_jf", "relaxed", "relaxed-lai")
MIN_EVENTS = {"shared-model": 500, "shared-learner": 100, "fits": 100, "fits-one-model": 15, "switch": 40000,
              "switch-inside": 15000, "opcodes": 100, "latent": 60, "free-running": 100, "different-results": 300}
MIN_EVENTS.update({"op:" + o: 80 if o.startswith("relaxed") else 150 for o in OPS})
MIN_EVENTS.update({"fam:" + f: 40 for f in PLAIN + LATENT})
RULE = ("2-4 threads call one shared model (or learner) of one of 14 families with their own samples, labels and weights, "
        "or train learners at the same time. A seeded scheduler runs one thread at a time and switches between lines "
        "or bytecodes of pystruct with probability 0.02-0.5 (interleaving = function of the seed); some cases run "
        "freely with a tiny switch interval instead. Monitor: every result against that of the same call made "
        "sequentially on a model of its own. Non-trivial: at least one switch while two threads are inside pystruct; "
        "distinct by the sequence of switches.")
ASSUMPTIONS = "compiled kernels and solvers hold the interpreter lock, so switches happen between bytecodes"
CASE_CPU_S = 100.
TECHNIQUE = "runtime monitoring: seeded thread scheduler with injected switches, results against sequential executions"


def case(rng, i, obs, tier):
    if i % 6 == 5:
        fits(rng, i, obs)
    else:
        calls(rng, i, obs, learner=i % 6 == 4)


def execute(rng, obs, fns):
    """results of the functions run concurrently; signature of the interleaving"""
    if rng.random() < .15:
        import sys
        obs.ev("free-running")
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        out = [None] * len(fns)
        barrier = threading.Barrier(len(fns))

        def body(k):
            barrier.wait()
            try:
                out[k] = ("ok", fns[k]())
            except BaseException as e:
                import traceback
                out[k] = ("exc", e, traceback.format_exc())
        try:
            ts = [threading.Thread(target=body, args=(k,)) for k in range(len(fns))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        return out, None, 0
    op = rng.random() < .25
    s = Interleaver(int(rng.integers(2 ** 31)), float(rng.choice([.02, .1, .3, .5])), os.path.join(repo(), "pystruct"), op)
    if op:
        obs.ev("opcodes")
    out = s.run(fns)
    obs.ev("switch", s.switches)
    obs.ev("switch-inside", s.inside)
    return out, s.digest.hexdigest(), s.inside


def calls(rng, i, obs, learner):
    fams = PLAIN + LATENT
    fam = fams[(i // 6) % len(fams)]
    ds = training_set(rng, fam=fam, n=int(rng.integers(2, 5)))
    first = ds.first
    obs.ev("fam:" + fam)
    if first.scalar:
        make, method = ds.make, "argmax"
    else:
        ms = [BB, "ad3", "lp", "max-product"] if fam != "typed" else [BB, "ad3", "ad3+", BB]
        method = ms[int(rng.choice(4, p=[.45, .25, .1, .2]))]
        make = lambda: ds.make(method)
    X, Y = ds.X(), ds.Y()
    nt = int(rng.integers(2, 5))
    plans = []
    rel = method in ("ad3", "lp", "ad3+")
    ops = [o for o in OPS if rel or not o.startswith("relaxed")]
    rescale = getattr(first, "rescale", False)
    if first.latent:
        ops = ops + ["latent"]
    W = [np.asarray(first.project(first.rand_w(rng)) if hasattr(first, "project") else first.rand_w(rng)) for _ in range(nt)]
    if rng.random() < .2:
        W = [W[0]] * nt
    for t in range(nt):
        p = []
        for _ in range(int(rng.integers(1, 4))):
            op = str(rng.choice(ops))
            k = int(rng.integers(ds.n))
            f = ds.insts[k].fmt(ds.insts[k].rand_flat(rng))
            p.append((op, k, f, t))
        plans.append(p)

    def do(model, op, k, f, t):
        x, y, w = X[k], ds.insts[k].fmt(ds.flats[k]), W[t]
        if op == "inference":
            return model.inference(x, w)
        if op == "relaxed":
            return model.inference(x, w, relaxed=True)
        if op == "lai":
            return model.loss_augmented_inference(x, y, w)
        if op == "relaxed-lai":
            return model.loss_augmented_inference(x, y, w, relaxed=True)
        if op == "joint_feature":
            return model.joint_feature(x, f, y) if rescale else model.joint_feature(x, f)
        if op == "loss":
            return model.loss(y, f), model.max_loss(y)
        if op == "batch_inference":
            return model.batch_inference(X, w)
        if op == "batch_lai":
            return model.batch_loss_augmented_inference(X, Y, w)
        if op == "batch_jf":
            return model.batch_joint_feature(X, Y, Y) if rescale else model.batch_joint_feature(X, Y)
        if op == "latent":
            return model.latent(x, ds.insts[k].fmt_visible(ds.flats[k]) if hasattr(ds.insts[k], "fmt_visible") else
                                ds.visible()[k], w)
        if op == "predict":
            return model.predict(X)
        if op == "score":
            return model.score(X, Y)
        raise ValueError(op)
    if learner:
        from pystruct import learners as L
        obs.ev("shared-learner")
        cls = [L.OneSlackSSVM, L.NSlackSSVM, L.SubgradientSSVM, L.FrankWolfeSSVM][int(rng.integers(4))]

        def make_l():
            l = cls(make())
            l.w = W[0].copy()
            return l
        plans = [[(str(rng.choice(["predict", "score"])), 0, None, t)] for t, p in enumerate(plans)]
        shared, alone = make_l(), make_l
    else:
        obs.ev("shared-model")
        shared, alone = make(), make
    want = [[do(alone(), *a) for a in p] for p in plans]
    for p in plans:
        for a in p:
            obs.ev("op:" + a[0] if a[0] != "latent" else "latent")
    fns = [lambda p=p: [do(shared, *a) for a in p] for p in plans]
    d = lambda e="": "%s method=%s plans=%r W=%r\n%s" % (ds.describe(), method, [[a[:2] for a in p] for p in plans],
                                                        [np.round(w, 4).tolist() for w in W], e)
    out, sig, inside = execute(rng, obs, fns)
    compare(obs, out, want, d, "shared-learner" if learner else "shared-model")
    if any(same(want[0], v) for v in want[1:]):
        obs.ev("different-results")
    if sig and inside:
        obs.nontrivial(sig)
        obs.sample(d("switch sequence %s, %d switches inside" % (sig, inside)))


def compare(obs, out, want, d, key):
    for t, (o, v) in enumerate(zip(out, want)):
        if not obs.check(o[0] == "ok", "exception:" + key, lambda: d("thread %d: %s" % (t, o[2][-1200:]))):
            continue
        diff = same(v, o[1])
        obs.check(not diff, "result:" + key, lambda: d("thread %d: %r\nalone %r\nconcurrently %r" % (t, diff[:3], v, o[1])))


SAFE = ("one-slack", "n-slack", "subgradient", "fw", "fw-batch", "perceptron", "latent-one", "latent-n")


def fits(rng, i, obs):
    """several learners train at the same time: on models of their own, or on one shared model (same data structure)"""
    shared = rng.random() < .35
    ds = training_set(rng, n=int(rng.integers(1, 4)), maxlab=60)
    Ps = []
    for t in range(int(rng.integers(2, 4))):
        for _ in range(20):
            o = ds if t == 0 else (Dataset(rng, ds.fam, 2, maxlab=60, first=ds.first) if shared else
                                   training_set(rng, n=int(rng.integers(1, 4)), maxlab=60))
            P = plan(rng, o, iters=int(rng.integers(2, 6)))
            if P.kind in SAFE and not P.own_init:
                break
        else:
            return
        Ps.append(P)
    from vlib.learn import can_initialize
    if shared and len({can_initialize(P.ds) for P in Ps}) > 1:
        shared = False
    obs.ev("fits-one-model" if shared else "fits")

    def job(P, m):
        X, Y = P.data()
        l = P.make(m)
        P.fit(l, X, Y)
        b = l.base_ssvm if P.kind.startswith("latent") else l
        return [P.weights(l), [np.asarray(c, float) for c in (getattr(b, "objective_curve_", []),
                                                             getattr(b, "loss_curve_", []))], l.predict(X)]
    try:
        want = [job(P, P.model()) for P in Ps]
    except ValueError as e:
        if "domain error" in str(e) or "Rank(A)" in str(e):
            obs.ev("qp-solver-failed")
            return
        raise
    m = Ps[0].model() if shared else None
    fns = [lambda P=P: job(P, m if shared else P.model()) for P in Ps]
    out, sig, inside = execute(rng, obs, fns)
    compare(obs, out, want, lambda e="": "%s\n%s" % ([P.describe() for P in Ps], e), "fits")
    if sig and inside:
        obs.nontrivial(sig)
