"""Non-positivity constraints on weights and cutting planes supplied by the caller."""
import numpy as np
from vlib.data import ssvm_optimum
from vlib.learn import training_set, rand_C, can_initialize, flat_of, BB, PLAIN, LATENT, Recorder, plan

CASES = {"quick": 4800, "thorough": 60000}
MIN_EVENTS = {"one-neg": 400, "n-neg": 400, "nonpos-weights": 2000, "binding": 150, "unconstrained-index-set": 60,
              "supplied-genuine": 150, "supplied-earlier": 100, "supplied-arbitrary": 150, "optimum": 250,
              "extra-plane-matters": 40, "ignored": 60}
RULE = ("Small training sets of all 14 families x C x options. Index sets (empty, random, all, duplicates, arrays) for "
        "the non-positivity constraint of the one-slack and n-slack learners: weights of every iteration on the index "
        "set, recorded values against the certified free optimum and the true risk. Initial cutting planes for the "
        "n-slack learner (genuine ones, those of an earlier fit with another C, arbitrary additional ones): final "
        "risk against the certified optimum of the problem including them. Learners documented to ignore the argument "
        "give the same weights with it. Non-trivial: the constraint or plane changes the optimum, or >= 3 passes.")
ASSUMPTIONS = ("cvxopt QP accuracy (relative 2e-5 of the objective scale) is granted to the learner; known finding: the "
               "dual of the non-positivity constraint is restricted, so the constrained optimum is only compared "
               "through the recorded working set (see DESIGN.md)")
CASE_CPU_S = 100.


def restricted_dual(planes, groups, n, C, idx, simplex):
    """optimum of the dual restricted to combinations that have no positive weight on idx, over the working set"""
    import cvxopt
    import cvxopt.solvers
    F = np.array([p for p, _ in planes], float)
    L = np.array([l for _, l in planes], float)
    m = len(L)
    G = [-np.eye(m)]
    h = [np.zeros(m)]
    if len(idx):
        G.append(F.T[idx])
        h.append(np.zeros(len(idx)))
    A = b = None
    if simplex:
        A, b = cvxopt.matrix(np.ones((1, m))), cvxopt.matrix([C * n])
    else:
        B = np.zeros((n, m))
        B[groups, np.arange(m)] = 1
        G.append(B)
        h.append(np.full(n, C))
    old = dict(cvxopt.solvers.options)
    cvxopt.solvers.options.clear()
    cvxopt.solvers.options.update(show_progress=False)
    try:
        sol = cvxopt.solvers.qp(cvxopt.matrix(F.dot(F.T)), cvxopt.matrix(-L), cvxopt.matrix(np.vstack(G)),
                                cvxopt.matrix(np.hstack(h)), A, b)
    except (ValueError, ArithmeticError):
        return None
    finally:
        cvxopt.solvers.options.clear()
        cvxopt.solvers.options.update(old)
    return -sol["primal objective"] if sol["status"] == "optimal" else None


def index_set(rng, d):
    u = rng.random()
    if u < .12:
        return []
    if u < .25:
        return list(range(d))
    k = int(rng.integers(1, d + 1))
    s = rng.permutation(d)[:k]
    if rng.random() < .15:
        s = np.hstack([s, s[:1]])
    return s if rng.random() < .3 else [int(j) for j in s]


def negative(rng, i, obs, kind):
    from pystruct.learners import OneSlackSSVM, NSlackSSVM
    import joblib
    fams = PLAIN + LATENT
    fam = fams[(i // 4) % len(fams)]
    ds = training_set(rng, fam=fam)
    n = ds.n
    C = rand_C(rng)
    idx = index_set(rng, ds.wdim)
    pos = np.unique(np.asarray(idx, int))
    model = ds.make() if ds.first.scalar else ds.make(BB)
    X, Y = ds.X(), ds.Y()
    kw = dict(C=C, negativity_constraint=idx, inactive_window=int(rng.choice([0, 0, 0, 3])),
              check_constraints=bool(rng.random() < .4))
    if kind == "one-neg":
        kw.update(tol=float(rng.choice([1e-1, 1e-3])), max_iter=int(rng.choice([300, 300, 4])))
        if rng.random() < .3:
            kw["inference_cache"] = 5
        learner = OneSlackSSVM(model, **kw)
    else:
        kw.update(tol=-10, max_iter=int(rng.choice([100, 100, 2])), batch_size=int(rng.choice([1, 2, 100])))
        learner = NSlackSSVM(model, **kw)
    d = lambda e="": "%s %s kw=%r\n%s" % (kind, ds.describe(), kw, e)
    ws = []
    learner.logger = lambda l, it: ws.append((it, l.w.copy()))
    try:
        with joblib.parallel_backend("threading"):
            learner.fit(X, Y, initialize=can_initialize(ds))
    except ValueError as e:
        if "QP solver failed" in str(e):
            obs.ev("qp-failed")
            return
        raise
    obs.ev(kind)
    w = learner.w
    obs.check(w.shape == (ds.wdim,) and np.all(np.isfinite(w)), "weights-shape", lambda: d("%r" % w))
    # feature differences of the constraints are satisfied by the QP to 1e-5 relative to the multipliers
    fs = max(np.abs(D).max() for D, _ in ds.constraints())
    for it, wk in ws + [("end", w)]:
        obs.ev("nonpos-weights")
        obs.check(not len(pos) or wk[pos].max() <= 3e-5 * (1 + np.abs(wk).max()), "positive-weight", lambda: d(
            "iteration %r: %r at %r" % (it, wk, pos)))
    if sum(len(l) for _, l in ds.constraints()) > 1500:
        return
    free = ssvm_optimum(ds.constraints(), C)
    cons = ssvm_optimum(ds.constraints(), C, nonpos=pos)
    if free is None or cons is None:
        obs.ev("no-certificate")
        return
    scale = 1 + cons[1]
    eps = 2e-5 * scale
    binding = cons[0] > free[1] + 1e-4 * scale
    if binding:
        obs.ev("binding")
    if not len(pos):
        obs.ev("unconstrained-index-set")
    r = ds.risk(w, C)
    dual = np.array(learner.objective_curve_, float)
    prim = np.array(learner.primal_objective_curve_, float)
    if len(dual):
        obs.check(dual.max() <= free[1] + eps, "dual-above-optimum", lambda: d("%r > %r" % (dual.tolist(), free)))
    if not kw.get("inference_cache"):
        obs.check(abs(prim[-1] - r) <= 1e-5 * (1 + abs(r) + C * n), "final-primal", lambda: d("recorded %r true %r" % (
            prim[-1], r)))
    obs.check(r >= cons[0] - 3e-4 * scale, "risk-below-optimum", lambda: d("%r < %r" % (r, cons[0])))
    stopped = len(dual) < kw["max_iter"]
    room = eps + C * n * (kw["tol"] if kind == "one-neg" else 3e-5)
    if kw["inactive_window"]:
        room += 20e-5 * scale
    value = None
    if stopped and not kw["inactive_window"] and r > cons[1] + room:
        # which optimum was reached?
        if kind == "one-neg":
            planes = [(np.array(a), float(b)) for a, b in learner.constraints_]
            groups = np.zeros(len(planes), int)
        else:
            planes = [(np.array(c[1]), float(c[2])) for s in learner.constraints_ for c in s]
            groups = np.hstack([[k] * len(s) for k, s in enumerate(learner.constraints_)]).astype(int)
        if planes:
            value = restricted_dual(planes, groups, n, C, pos, kind == "one-neg")
    if stopped and kind == "n-neg" and ds.first.latent:
        return
    if stopped and r > cons[1] + room:
        if kw["inactive_window"] and binding_possible(pos):
            return
        if len(pos) and value is not None and abs(value - dual[-1]) <= 5 * eps:
            obs.fail("restricted-dual", d("risk %r constrained optimum %r free optimum %r dual %r" % (
                r, cons[:2], free[:2], dual[-1])))
        elif len(pos) and value is None:
            obs.ev("undecided")
        else:
            obs.fail("not-optimal", d("risk %r constrained optimum %r recorded dual %r, restricted dual %r" % (
                r, cons[:2], dual[-1], value)))
    elif stopped:
        obs.ev("constrained-optimum-reached")
    if binding or len(ws) > 3:
        obs.nontrivial(kind, ds.describe(), kw)
        obs.sample(d("free %r constrained %r reached %r" % (free[:2], cons[:2], r)))


def binding_possible(pos):
    return len(pos) > 0


def supplied(rng, i, obs):
    from pystruct.learners import NSlackSSVM
    import joblib
    fams = PLAIN + LATENT
    fam = fams[(i // 4) % len(fams)]
    ds = training_set(rng, fam=fam)
    n = ds.n
    C = rand_C(rng)
    mode = ["genuine", "earlier", "arbitrary"][int(rng.integers(3))]
    kw = dict(C=C, tol=-10, max_iter=300, batch_size=int(rng.choice([1, 2, 100])), inactive_window=0,
              check_constraints=bool(rng.random() < .5))
    if mode != "arbitrary" and rng.random() < .3:
        kw["inactive_window"] = int(rng.choice([1, 3, 50]))
    X, Y = ds.X(), ds.Y()
    model = ds.make() if ds.first.scalar else ds.make(BB)
    learner = NSlackSSVM(model, **kw)
    d = lambda e="": "%s %s kw=%r\n%s" % (mode, ds.describe(), kw, e)
    cons = [(D.copy(), L.copy()) for D, L in ds.constraints()]
    given = [[] for _ in range(n)]
    init = can_initialize(ds)
    try:
        with joblib.parallel_backend("threading"):
            if mode == "earlier":
                first = learner if rng.random() < .5 else NSlackSSVM(model, **dict(kw, max_iter=2))
                first.C = rand_C(rng)
                first.fit(X, Y, initialize=init)
                given = first.constraints_ if rng.random() < .5 else [list(s) for s in first.constraints_]
                learner.C = C
            else:
                for k in range(n):
                    labs = ds.insts[k].all_flat()
                    for _ in range(int(rng.integers(0, 4))):
                        if mode == "arbitrary" and rng.random() < .7:
                            D = np.round(rng.normal(size=ds.wdim) * float(rng.choice([.3, 3])), 3)
                            L = float(np.round(rng.uniform(.1, 4), 3))
                            given[k].append([Y[k], D, L])
                            cons[k] = (np.vstack([cons[k][0], D]), np.hstack([cons[k][1], L]))
                        else:
                            j = int(rng.integers(len(labs)))
                            if cons[k][1][j] > 0:
                                given[k].append([ds.insts[k].fmt(labs[j]), cons[k][0][j].copy(), float(cons[k][1][j])])
            before = [[(np.array(c[1]), c[2]) for c in s] for s in given]
            learner.fit(X, Y, constraints=given, initialize=init)
    except ValueError as e:
        if "QP solver failed" in str(e):
            obs.ev("qp-failed")
            return
        raise
    obs.ev("supplied-" + mode)
    after = [[(np.array(c[1]), c[2]) for c in s] for s in given]
    obs.check([len(s) for s in before] == [len(s) for s in after] and all(
        np.array_equal(a[0], b[0]) and a[1] == b[1] for s, t in zip(before, after) for a, b in zip(s, t)),
        "constraints-modified", lambda: d("%r %r" % ([len(s) for s in before], [len(s) for s in after])))
    w = learner.w
    obs.check(w.shape == (ds.wdim,) and np.all(np.isfinite(w)), "weights-shape", lambda: d("%r" % w))
    if sum(len(l) for _, l in cons) > 1500:
        return
    opt = ssvm_optimum(cons, C)
    if opt is None:
        obs.ev("no-certificate")
        return
    scale = 1 + opt[1]
    eps = 2e-5 * scale
    r = .5 * w.dot(w) + C * sum(max((L - D.dot(w)).max(), 0) for D, L in cons)
    allowed = C * n * 3e-5 + eps + (20e-5 * scale if kw["inactive_window"] else 0)
    if ds.first.latent:
        # completions of the true labels are no constraints for this learner
        allowed = None
    dual = learner.objective_curve_
    obs.check(dual[-1] <= opt[1] + eps, "dual-above-optimum", lambda: d("%r %r" % (dual[-1], opt[:2])))
    if allowed is not None:
        obs.ev("optimum")
        obs.check(r <= opt[1] + allowed, "not-optimal", lambda: d("objective %r optimum %r allowed excess %r given %r" % (
            r, opt[:2], allowed, [len(s) for s in given])))
    plain = ssvm_optimum(ds.constraints(), C) if mode == "arbitrary" else None
    if plain and not ds.first.latent and opt[0] > plain[1] + 1e-4 * scale:
        obs.ev("extra-plane-matters")
        obs.check(dual[-1] >= plain[0] - eps, "dual-without-supplied-planes", lambda: d("%r %r" % (dual[-1], plain[:2])))
    if any(given):
        obs.nontrivial(mode, ds.describe(), kw)
        obs.sample(d("given %r dual %r optimum %r" % ([len(s) for s in given], dual[-1], opt[:2])))


def ignored(rng, i, obs):
    """the argument exists only for API compatibility in the other learners"""
    import joblib
    ds = training_set(rng, fams=PLAIN)
    p = plan(rng, ds, iters=4)
    if p.kind in ("n-slack", "perceptron"):
        return
    out = []
    for extra in ({}, {"constraints": [[] for _ in range(ds.n)]}, {"constraints": None}):
        X, Y = p.data()
        with joblib.parallel_backend("threading"):
            try:
                out.append(p.weights(p.fit(p.make(), X, Y, **extra)))
            except ValueError as e:
                if "QP solver failed" in str(e):
                    obs.ev("qp-failed")
                    return
                raise
    obs.ev("ignored")
    obs.check(np.array_equal(out[0], out[1]) and np.array_equal(out[0], out[2]), "constraints-not-ignored", lambda: (
        "%s %r" % (p.describe(), out)))


def case(rng, i, obs, tier):
    kind = i % 4
    if kind == 0:
        negative(rng, i, obs, "one-neg")
    elif kind == 1:
        negative(rng, i, obs, "n-neg")
    elif kind == 2 or rng.random() < .6:
        supplied(rng, i, obs)
    else:
        ignored(rng, i, obs)
