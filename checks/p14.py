"""Frank-Wolfe training: recorded certificates against a certified optimum, trajectory against the algorithm."""
import math

import numpy as np
from vlib.data import ssvm_optimum
from vlib.learn import training_set, rand_C, rescaled, can_initialize, Recorder, vertex, BB, PLAIN, LATENT

CASES = {"quick": 6000, "thorough": 60000}
MIN_EVENTS = {"units": 120, "batch": 500, "bc": 500, "optimum": 1000, "dual_values": 3000, "primal_values": 3000, "steps": 20000,
              "stopped": 200, "average": 400, "line-search": 800, "fixed-step": 300, "rescale": 3, "refit": 200,
              "no-dual-check": 50, "random-order": 100}
MIN_EVENTS.update({"fam:" + f: 50 for f in PLAIN + LATENT})
RULE = ("Small training sets (1-5 samples, <=60 labelings each) of all 14 families x C x mode x line search x "
        "averaging x sampling x check interval x refits; certified optimum by a QP over all labelings. Monitors: every "
        "oracle call with its weights (each step must lie between the block's iterate and the new vertex, at the dual "
        "maximum with line search), recorded primal values against the true risk, dual values against the optimum, "
        "weights after stopping. Non-trivial: at least three passes; distinct by data and parameters.")
ASSUMPTIONS = ""
CASE_CPU_S = 100.


def case(rng, i, obs, tier):
    from pystruct.learners import FrankWolfeSSVM
    fams = PLAIN + LATENT
    fam = fams[i % len(fams)]
    ds = training_set(rng, fam=fam)
    n, dim = ds.n, ds.wdim
    obs.ev("fam:" + fam)
    if fam == "multiclass" and ds.first.rescale:
        obs.ev("rescale")
    C = rescaled(rng, ds, rand_C(rng, -3, 1))
    obs.ev("units", hasattr(ds, "units"))
    model = ds.make() if ds.first.scalar else ds.make(BB)
    X, Y = ds.X(), ds.Y()
    if isinstance(X, np.ndarray) and len({(x + 0.).tobytes() for x in X}) < n:
        # samples must be told apart
        obs.ev("duplicates")
        return
    rec = Recorder(model, ds, X, Y=Y)
    batch = bool(rng.random() < .4)
    kw = dict(C=C, batch_mode=batch, line_search=bool(rng.random() < .7), do_averaging=bool(rng.random() < .5),
              sample_method=str(rng.choice(["perm", "rnd", "seq"])), random_state=int(rng.integers(1000)),
              check_dual_every=int(rng.choice([1, 1, 3, 10, 0])), max_iter=int(rng.choice([1, 5, 25, 60])),
              tol=float(rng.choice([1e-3, 1e-2, .1, 1.])) * C * n / (C * n if batch else 1.))
    if rng.random() < .15:
        kw["show_loss_every"] = int(rng.integers(1, 4))
    obs.ev("batch" if batch else "bc")
    obs.ev("line-search" if kw["line_search"] else "fixed-step")
    avg = kw["do_averaging"] and not batch
    if avg:
        obs.ev("average")
    if not kw["check_dual_every"] and not batch:
        obs.ev("no-dual-check")
    learner = FrankWolfeSSVM(model, **kw)
    d = lambda e="": "%s kw=%r\n%s" % (ds.describe(), kw, e)
    if rng.random() < .2:
        # a previous fit must not matter
        obs.ev("refit")
        learner.set_params(max_iter=int(rng.integers(1, 4)))
        learner.fit(X, Y, initialize=can_initialize(ds))
        learner.set_params(max_iter=kw["max_iter"])
        rec.calls.clear()
    log = []
    learner.logger = lambda l, it: log.append((it, np.array(l.w), len(l.objective_curve_), len(rec.calls)))
    learner.fit(X, Y, initialize=can_initialize(ds))
    w = np.array(learner.w)
    dual = np.array(learner.objective_curve_, float)
    prim = np.array(learner.primal_objective_curve_, float)
    passes = len(log) - 1
    obs.check(w.shape == (dim,) and np.all(np.isfinite(w)), "weights-shape", lambda: d("%r" % w))
    obs.check(log and log[-1][0] == "final" and 1 <= passes <= kw["max_iter"], "passes", lambda: d("%d" % passes))
    every = 1 if batch else kw["check_dual_every"]
    nrec = passes if batch else (0 if every == 0 else len(range(0, passes, every)))
    obs.check(len(dual) == len(prim) == nrec + 1, "curve-lengths", lambda: d("%d %d %d" % (len(dual), len(prim), nrec)))
    opt = ssvm_optimum(ds.constraints(), C) if sum(len(l) for _, l in ds.constraints()) < 1500 else None
    acc = lambda r: 2e-5 * (1 + abs(r) + C * n)
    # ---- replay
    calls = [c for c in rec.calls if c[0] == "lai"]
    pos = 0
    fs = max(np.abs(D).max() for D, _ in ds.constraints()) + 1e-9
    if batch:
        cw, cl = np.zeros(dim), 0.
        for t in range(passes):
            group = calls[t * n:(t + 1) * n]
            obs.ev("steps")
            wt = group[0][2]
            obs.check(sorted(c[1] for c in group) == list(range(n)), "batch-coverage",
                      lambda: d("pass %d samples %r" % (t, [c[1] for c in group])))
            obs.check(np.allclose(wt, cw, atol=1e-9 * (1 + np.abs(cw).max())), "trajectory", lambda: d(
                "pass %d: w %r expected %r" % (t, wt, cw)))
            vs = [vertex(ds, c[1], c[3]) for c in group]
            ws, ls = C * sum(v[0] for v in vs), C * sum(v[1] for v in vs)
            dval = cl - .5 * cw.dot(cw)
            obs.ev("dual_values")
            obs.ev("primal_values")
            obs.check(abs(dual[t] - dval) <= acc(dval), "recorded-dual", lambda: d("pass %d %r %r" % (t, dual[t], dval)))
            r = ds.risk(cw, C)
            obs.check(abs(prim[t] - r) <= acc(r), "recorded-primal", lambda: d("pass %d %r %r" % (t, prim[t], r)))
            if prim[t] - dual[t] < kw["tol"] * C * n and t + 1 == passes:
                # stopped at these weights
                continue
            g = best_gamma(cw, cl, ws, ls) if kw["line_search"] else 2. / (t + 2.)
            gg = gamma_of(cw, ws, calls[(t + 1) * n][2] if len(calls) > (t + 1) * n else w)
            cw, cl = step(obs, d, cw, cl, ws, ls, g, gg, kw["line_search"], fs * C * n)
            if kw["line_search"] and t:
                obs.check(dual[t] >= dual[t - 1] - acc(dual[t]), "dual-decreases", lambda: d("%r" % dual.tolist()))
        obs.check(len(calls) == (passes + 1) * n, "oracle-calls", lambda: d("%d" % len(calls)))
        wbar, lbar = cw, cl
        cert = None
    else:
        wi, li = np.zeros((n, dim)), np.zeros(n)
        wbar, lbar, k = np.zeros(dim), 0., 0
        nd = 0
        orders = []
        for t in range(passes):
            seen = []
            for j in range(n):
                c = calls[pos]
                pos += 1
                obs.ev("steps")
                cw = wi.sum(0)
                obs.check(np.allclose(c[2], cw, atol=1e-8 * (1 + np.abs(cw).max())), "trajectory", lambda: d(
                    "pass %d step %d: w %r expected %r" % (t, j, c[2], cw)))
                s = c[1]
                seen.append(s)
                D, l = vertex(ds, s, c[3])
                ws, ls = C * D, C * l
                # dual along the segment of this block
                rest = cw - wi[s]
                if kw["line_search"]:
                    g = best_gamma(wi[s], li[s], ws, ls, rest)
                else:
                    g = 2. * n / (k + 2. * n)
                nxt = calls[pos][2] if (j + 1 < n or (t + 1 < passes and not is_check(t, every))) else None
                if nxt is None and t + 1 < passes and is_check(t, every):
                    nxt = calls[pos + n][2]
                if nxt is None and not avg:
                    nxt = w
                gg = g if nxt is None else gamma_of(wi[s], ws, nxt - rest)
                new, li[s] = step(obs, d, wi[s], li[s], ws, ls, g, gg, kw["line_search"], fs * C, rest)
                # no drift from rounding: go on from the weights seen, as far as they belong to the segment
                if nxt is not None and np.abs(nxt - rest - new).max() < 1e-7 * (fs * C + np.abs(cw).max()):
                    new = nxt - rest
                wi[s] = new
                rho = 2. / (k + 2.)
                cw = wi.sum(0)
                if avg:
                    wbar, lbar = (1 - rho) * wbar + rho * cw, (1 - rho) * lbar + rho * li.sum()
                else:
                    wbar, lbar = cw, li.sum()
                k += 1
            orders.append(tuple(seen))
            if kw["sample_method"] == "perm":
                obs.check(sorted(seen) == list(range(n)), "permutation", lambda: d("%r" % seen))
            elif kw["sample_method"] == "seq":
                obs.check(seen == list(range(n)), "sequence", lambda: d("%r" % seen))
            obs.check(np.allclose(log[t][1], wbar, atol=1e-8 * (1 + np.abs(wbar).max())), "weights-combination",
                      lambda: d("pass %d: w %r expected %r" % (t, log[t][1], wbar)))
            if is_check(t, every):
                pos += n
                obs.ev("dual_values")
                obs.ev("primal_values")
                dval = lbar - .5 * wbar.dot(wbar)
                r = ds.risk(wbar, C)
                obs.check(abs(dual[nd] - dval) <= acc(dval), "recorded-dual", lambda: d(
                    "pass %d %r %r" % (t, dual[nd], dval)))
                obs.check(abs(prim[nd] - r) <= acc(r), "recorded-primal", lambda: d("pass %d %r %r" % (t, prim[nd], r)))
                if kw["line_search"] and not avg and nd:
                    obs.check(dual[nd] >= dual[nd - 1] - acc(dval), "dual-decreases", lambda: d("%r" % dual.tolist()))
                nd += 1
                gap = prim[nd - 1] - dual[nd - 1]
                if t + 1 < passes:
                    obs.check(gap >= kw["tol"] - 2 * acc(r), "went-on", lambda: d("pass %d gap %r" % (t, gap)))
                elif passes < kw["max_iter"]:
                    obs.check(gap <= kw["tol"] + 2 * acc(r), "stopped-early", lambda: d("pass %d gap %r" % (t, gap)))
            elif t + 1 == passes:
                obs.check(passes == kw["max_iter"], "stopped-early", lambda: d("pass %d" % t))
        obs.check(len(calls) == pos + n, "oracle-calls", lambda: d("%d %d" % (len(calls), pos)))
        check_random(obs, d, kw["sample_method"], orders, n)
    obs.check(np.allclose(w, wbar, atol=1e-8 * (1 + np.abs(wbar).max())), "weights-combination", lambda: d(
        "final w %r expected %r" % (w, wbar)))
    r = ds.risk(w, C)
    obs.check(abs(prim[-1] - r) <= acc(r), "final-primal", lambda: d("%r %r" % (prim[-1], r)))
    if opt:
        obs.ev("optimum")
        obs.check(dual.max() <= opt[1] + acc(opt[1]), "dual-above-optimum", lambda: d("%r optimum %r" % (
            dual.tolist(), opt[:2])))
    stopped = passes < kw["max_iter"]
    if stopped:
        obs.ev("stopped")
        scale = kw["tol"] * (C * n if batch else 1.)
        if batch:
            gap = prim[passes - 1] - dual[passes - 1]
            obs.check(gap <= scale + 2 * acc(r), "stopped-early", lambda: d("gap %r allowed %r" % (gap, scale)))
        if opt:
            obs.check(r <= opt[1] + scale + 2 * acc(r), "not-optimal", lambda: d("risk %r optimum %r tol %r" % (
                r, opt[1], scale)))
    if passes >= 3:
        obs.nontrivial(ds.describe(), kw)
        obs.sample(d("passes %d dual %r primal %r optimum %r" % (passes, dual[-1], prim[-1], opt and opt[:2])))


def check_random(obs, d, method, orders, n):
    """what has to be seen of a random order, but for a probability below 1e-9"""
    if n < 2 or method == "seq":
        return
    p = len(orders)
    if method == "rnd":
        if n * (1 - 1. / n) ** (p * n) < 1e-9:
            obs.ev("random-order")
            obs.check(set(sum(orders, ())) == set(range(n)), "samples-never-drawn", lambda: d("%r" % (orders,)))
        perms = math.factorial(n) / float(n) ** n
        if perms ** p < 1e-9:
            obs.ev("random-order")
            obs.check(any(len(set(o)) < n for o in orders), "drawn-without-replacement", lambda: d("%r" % (orders,)))
    elif n * n * (1 - 1. / n) ** p < 1e-9:
        obs.ev("random-order")
        for pos in range(n):
            obs.check(len({o[pos] for o in orders}) == n, "order-not-random", lambda: d("position %d %r" % (pos, orders)))
    if (1. / math.factorial(n) if method == "perm" else float(n) ** -n) ** (p - 1) < 1e-9:
        obs.ev("random-order")
        obs.check(len(set(orders)) > 1, "order-constant", lambda: d("%r" % (orders,)))


def is_check(t, every):
    return every != 0 and t % every == 0


def best_gamma(w, l, ws, ls, rest=0.):
    """maximiser of  l + g (ls - l) - 1/2 |rest + w + g (ws - w)|^2  over [0, 1]"""
    diff = ws - w
    num = (ls - l) - (rest + w).dot(diff)
    den = diff.dot(diff)
    if den <= 1e-26 * (ws.dot(ws) + w.dot(w)):
        return None
    return min(1., max(0., num / den))


def gamma_of(w, ws, new):
    """the step that was actually made (least squares) and its residual"""
    diff = ws - w
    den = diff.dot(diff)
    return 0. if den <= 1e-26 * (ws.dot(ws) + w.dot(w)) else float((new - w).dot(diff) / den)


def step(obs, d, w, l, ws, ls, want, got, line_search, scale, rest=0.):
    if want is None:
        # the weights of both are the same; whatever has more loss
        g = 1. if ls > l + 1e-12 else 0.
        return w + g * (ws - w), l + g * (ls - l)
    diff = ws - w
    obs.check(max(-got, got - 1) * np.sqrt(diff.dot(diff)) <= 1e-8 * (scale + np.abs(rest + w).max()), "step-outside", lambda: d(
        "step %r" % got))
    if line_search:
        # loss of the dual by the step made
        lost = .5 * (want - got) ** 2 * diff.dot(diff)
        f = lambda g: l + g * (ls - l) - .5 * np.sum((rest + w + g * diff) ** 2)
        obs.check(f(got) >= f(want) - 1e-7 * (1 + abs(f(want)) + np.sum((rest + w) ** 2) + lost * 0), "line-search",
                  lambda: d("step %r best %r" % (got, want)))
        g = got if diff.dot(diff) > 1e-14 * (scale + np.abs(rest + w).max()) ** 2 else want
    else:
        obs.check(abs(got - want) * np.sqrt(diff.dot(diff)) <= 1e-8 * (1 + scale), "step-size", lambda: d(
            "step %r documented %r" % (got, want)))
        g = want
    g = min(1., max(0., g))
    return w + g * diff, l + g * (ls - l)
