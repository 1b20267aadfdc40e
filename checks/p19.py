"""Inference cache, constraint pruning and warm starts of the one-slack learner: contents of the cache, final optimality."""
import numpy as np
from vlib.data import ssvm_optimum
from vlib.learn import training_set, hard_set, rand_C, rescaled, can_initialize, Recorder, planes_valid, flat_of, Fractional, BB, PLAIN, LATENT

CASES = {"quick": 1800, "thorough": 30000}
MIN_EVENTS = {"units": 40, "converged": 1200, "optimum": 1200, "cache-entries": 20000, "from-cache": 1000, "by-inference": 8000,
              "pruned": 150, "hard": 300, "soft": 300, "new-C": 200, "full-cache": 200, "evicted": 60, "switch": 60,
              "limit": 50, "threads": 50, "used-before": 250, "long-run": 10}
MIN_EVENTS.update({"fam:" + f: 50 for f in PLAIN + LATENT})
RULE = ("Small training sets of all 14 families x C x tolerance x cache size x cache tolerance x inactivity threshold "
        "and window x (hard, soft) warm starts after converged or cut-off fits, also with another C, on new learners or ones trained on other labels before. Monitors: cache "
        "contents after every iteration (size, entries were returned by inference for that sample, features and "
        "losses), iterations flagged as cached make no oracle call, cutting planes valid, certified optimum reached "
        "whenever training stops by itself. Non-trivial: at least 3 planes and a used cache, a pruned constraint or a "
        "warm start; distinct by data and parameters.")
ASSUMPTIONS = "cvxopt QP accuracy (relative 2e-5 of the objective scale) is granted to the learner"
CASE_CPU_S = 100.


def key(y):
    return np.asarray(y).astype(int).tobytes()


def case(rng, i, obs, tier):
    import joblib
    from pystruct.learners import OneSlackSSVM
    fams = PLAIN + LATENT
    fam = fams[i % len(fams)]
    hard = i % 45 == 44
    ds = hard_set(rng) if hard else training_set(rng, fam=fam)
    n = ds.n
    obs.ev("fam:" + fam, 0 if hard else 1)
    C = float(rng.choice([1., 10.])) if hard else rescaled(rng, ds, rand_C(rng))
    obs.ev("units", hasattr(ds, "units"))
    obs.ev("long-run", hard)
    tol = float(rng.choice([1e-1, 1e-2, 1e-3, 1e-4]))
    kw = dict(C=C, tol=tol, max_iter=int(rng.choice([1500, 1500, 1500, 3, 8])))
    switch = not hard and fam in ("graph", "grid", "edgefeat", "multilabel") and rng.random() < .2
    if ds.first.scalar:
        model = ds.make()
    else:
        weak = str(rng.choice(["max-product", "unary"]))
        model = ds.make(weak if switch else BB)
        if switch:
            kw["switch_to"] = BB
            obs.ev("switch")
    if switch and not ds.acyclic():
        kw["check_constraints"] = False
    if rng.random() < .75:
        kw["inference_cache"] = int(rng.choice([5, 20, 50] if hard else [1, 1, 2, 3, 5, 50]))
        if rng.random() < .6:
            kw["cache_tol"] = rng.choice([None, .5, 1e-1, 1e-3, 0.])
            kw["cache_tol"] = None if kw["cache_tol"] is None else float(kw["cache_tol"])
    if rng.random() < .5:
        kw["inactive_threshold"] = float(rng.choice([1e-8, 1e-5, 1e-3, 1e-2, 1e-1]))
        kw["inactive_window"] = int(rng.choice([0, 1, 2, 5, 20]))
    if rng.random() < .3:
        kw["check_constraints"] = True
    if rng.random() < .08 and fam != "typed":
        kw["n_jobs"] = 2
        obs.ev("threads")
    X, Y = ds.X(), ds.Y()
    if isinstance(X, np.ndarray) and len({(x + 0.).tobytes() for x in X}) < n:
        obs.ev("duplicates")
        return
    rec = Recorder(model, ds, X, Y=Y)
    learner = OneSlackSSVM(model, **kw)
    d = lambda e="": "%s kw=%r rounds=%r\n%s" % (ds.describe(), kw, rounds, e)
    rounds = [(False, C)]
    r = rng.random()
    if r < .5:
        for _ in range(int(rng.integers(1, 3))):
            warm = [True, "soft"][rng.integers(2)]
            c2 = C if rng.random() < .6 else rand_C(rng)
            rounds.append((warm, c2))
    fullwarm = kw["max_iter"]
    known = [dict() for _ in range(n)]      # sample -> labelings inference has returned
    state = dict(pos=0, sizes=None, cached=0, n=0)
    used = set()

    def learn_from_calls():
        for c in rec.calls[state["pos"]:]:
            if c[0] == "lai":
                known[c[1]].setdefault(key(flat_of(ds, c[1], c[3])), len(known[c[1]]))
        state["pos"] = len(rec.calls)

    def logger(l, it):
        calls = len([c for c in rec.calls[state["pos"]:] if c[0] == "lai"])
        learn_from_calls()
        if it != "final":
            state["n"] += 1
            flag = l.cached_constraint_[-1]
            if flag:
                obs.ev("from-cache")
                used.add("cache")
                obs.check(calls == 0, "cached-but-inferred", lambda: d("%d calls" % calls))
            else:
                obs.ev("by-inference")
                obs.check(calls % n == 0 and calls >= n, "inferred-without-calls", lambda: d("%d calls" % calls))
            if len(l.constraints_) <= state.get("planes", 0):
                obs.ev("pruned")
                used.add("prune")
            state["planes"] = len(l.constraints_)
        cache = getattr(l, "inference_cache_", None)
        size = kw.get("inference_cache", 0)
        if not size:
            obs.check(not cache, "cache-without-size", lambda: d("%r" % cache))
            return
        if cache is None:
            return
        obs.check(len(cache) == n, "cache-samples", lambda: d("%d" % len(cache)))
        for k, entries in enumerate(cache):
            obs.check(len(entries) <= size, "cache-too-large", lambda: d("sample %d: %d entries of %d" % (
                k, len(entries), size)))
            if len(entries) == size:
                obs.ev("full-cache")
            if len(known[k]) > size:
                obs.ev("evicted")
            seen = set()
            for psi, loss, y_hat in entries:
                obs.ev("cache-entries")
                f = flat_of(ds, k, y_hat)
                obs.check(key(f) in known[k], "cache-unknown", lambda: d("sample %d %r" % (k, y_hat)))
                obs.check(key(f) not in seen, "cache-duplicate", lambda: d("sample %d %r" % (k, y_hat)))
                seen.add(key(f))
                inst = ds.insts[k]
                want = inst.psi(f)
                if inst.fam == "multiclass" and inst.rescale and inst.class_weight is not None:
                    want = want * float(inst.class_weight[int(ds.flats[k][0])])
                L = inst.losses(ds.flats[k], [f])[0]
                obs.check(np.allclose(psi, want, rtol=1e-9, atol=1e-9 * (1 + np.abs(want).max())) and
                          abs(loss - L) < 1e-9 * (1 + L), "cache-entry", lambda: d("sample %d %r: %r %r" % (
                              k, y_hat, loss, L)))
    if rng.random() < .3:
        # the learner has been trained before, on other labels; without warm start nothing of that is left
        Yo = ds.pack([inst.rand_flat(rng) for inst in ds.insts])
        learner.max_iter = int(rng.choice([2, 5, 30]))
        try:
            with joblib.parallel_backend("threading"):
                learner.fit(X, Yo, initialize=False)
        except ValueError as e:
            if "QP solver failed" not in str(e):
                raise
            obs.ev("qp-failed")
            return
        except Fractional:
            obs.ev("fractional")
            return
        learner.max_iter = fullwarm
        if switch:
            model.inference_method = weak
        state["pos"] = len(rec.calls)
        obs.ev("used-before")
    learner.logger = logger
    for k, (warm, c) in enumerate(rounds):
        learner.C = c
        if warm:
            obs.ev("soft" if warm == "soft" else "hard")
            if c != rounds[k - 1][1]:
                obs.ev("new-C")
            used.add("warm")
            learner.max_iter = 1500
        state.update(n=0, planes=0)
        before = len(learner.objective_curve_) if warm else 0
        try:
            with joblib.parallel_backend("threading"):
                learner.fit(X, Y, warm_start=warm, initialize=can_initialize(ds))
        except ValueError as e:
            if "QP solver failed" in str(e):
                obs.ev("qp-failed")
                return
            raise
        except Fractional:
            obs.ev("fractional")
            return
        if not judge(rng, obs, d, ds, learner, c, tol, state["n"] + switch < learner.max_iter, state["n"], before, kw, k):
            return
        if switch:
            model.inference_method = BB
    if learner.objective_curve_ and len(learner.objective_curve_) > 3 and used:
        obs.nontrivial(ds.describe(), kw, rounds)
        obs.sample(d("iterations %d, used %s" % (len(learner.objective_curve_), sorted(used))))


def judge(rng, obs, d, ds, learner, C, tol, stopped, iters, before, kw, rnd):
    n, w = ds.n, np.asarray(learner.w)
    obs.check(w.shape == (ds.wdim,) and np.all(np.isfinite(w)), "weights", lambda: d("%r" % w))
    obs.check(len(learner.objective_curve_) == len(learner.primal_objective_curve_) == len(learner.cached_constraint_)
              == before + iters + 1, "curve-lengths", lambda: d("%d %d %d, %d + %d" % (
                  len(learner.objective_curve_), len(learner.primal_objective_curve_),
                  len(learner.cached_constraint_), before, iters)))
    cons = [(np.array(a), float(b)) for a, b in getattr(learner, "constraints_", [])]
    obs.check(not planes_valid(ds, [w, np.zeros(ds.wdim), rng.normal(size=ds.wdim), -w], cons), "invalid-cutting-plane",
              lambda: d("round %d" % rnd))
    r = ds.risk(w, C)
    obs.check("switch_to" in kw and not stopped or abs(learner.primal_objective_curve_[-1] - r) <= 1e-5 * (1 + abs(r) + C * n), "final-primal", lambda: d(
        "round %d recorded %r true %r" % (rnd, learner.primal_objective_curve_[-1], r)))
    if not stopped:
        obs.ev("limit")
        return True
    obs.ev("converged")
    if sum(len(l) for _, l in ds.constraints()) >= 1500:
        return True
    opt = ssvm_optimum(ds.constraints(), C)
    if not opt:
        return True
    obs.ev("optimum")
    scale = 1 + opt[1]
    eps = 3e-5 * scale
    ok = obs.check(r <= opt[1] + C * n * tol + eps, "not-optimal", lambda: d(
        "round %d: risk %r optimum %r allowed excess %r" % (rnd, r, opt[1], C * n * tol + eps)))
    obs.check(learner.objective_curve_[-1] <= opt[1] + eps, "dual-above-optimum", lambda: d("round %d: %r > %r" % (
        rnd, learner.objective_curve_[-1], opt[1])))
    obs.check(learner.primal_objective_curve_[-1] - learner.objective_curve_[-1] <= C * n * tol + eps, "gap-after-stop",
              lambda: d("round %d: %r" % (rnd, learner.primal_objective_curve_[-1] - learner.objective_curve_[-1])))
    return ok
