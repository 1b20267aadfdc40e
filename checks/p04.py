"""Relaxed inference: local-polytope membership, energy consistency, upper bound."""
import numpy as np
from vlib.inst import FAMS, FAM_LIST, gen_edges
from vlib.history import history
from vlib.large import large_relaxed
from vlib.oracle import pair_score, brute_opt

CASES = {"quick": 17600, "thorough": 90000}
MIN_EVENTS = {"large-relaxed": 150, "large-fractional": 30, "history:relaxed": 1500, "relaxed": 4000, "fractional": 250, "marginals": 1500, "integral": 800, "loopy": 800, "direct": 2000, "direct-loopy": 500, "direct-fractional": 100}
RULE = ("One random instance of one of 12 graph families (frustrated cycles and repulsive weights over-represented) x "
        "weights x relaxed solver (lp, ad3, ad3 with branch and bound, ad3+). One case in four gives random "
        "potentials (shared or per edge; several dtypes and memory layouts) directly to the solvers; their value is "
        "also compared with the optimum of the local polytope computed by an independent LP solver (HiGHS). Non-trivial: at least one edge and two "
        "states; distinct by instance, weights and method.")
FAMS_HERE = [f for f in FAM_LIST if FAMS[f].relaxed_ok]


def local_lp(U, P, edges):
    """optimum over the local polytope, by scipy's HiGHS"""
    from scipy.optimize import linprog
    from scipy.sparse import lil_matrix
    n, S = U.shape
    nv = n * S + len(edges) * S * S
    A = lil_matrix((n + len(edges) * 2 * S, nv))
    b = np.zeros(A.shape[0])
    b[:n] = 1
    for v in range(n):
        A[v, v * S:(v + 1) * S] = 1
    r = n
    for k, (a, c) in enumerate(edges):
        o = n * S + k * S * S
        for s in range(S):
            A[r, o + s * S:o + (s + 1) * S] = 1
            A[r, a * S + s] = -1
            A[r + 1, [o + t * S + s for t in range(S)]] = 1
            A[r + 1, c * S + s] = -1
            r += 2
    c = -np.concatenate([U.ravel()] + [p.ravel() for p in P])
    res = linprog(c, A_eq=A.tocsr(), b_eq=b, bounds=(0, None), method="highs")
    assert res.status == 0, res.message
    return -res.fun


def layout(rng, a):
    """the same values in another memory layout or type"""
    k = rng.integers(0, 6)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],))
        b[..., ::2] = a
        return b[..., ::2]
    if k == 2:
        return np.ascontiguousarray(a[::-1])[::-1]
    if k == 3 and a.ndim >= 2:
        return np.ascontiguousarray(a.swapaxes(-1, -2)).swapaxes(-1, -2)
    if k == 4:
        a = a.copy()
        a.flags.writeable = False
    return a


def direct(rng, obs):
    from pystruct.inference import inference_dispatch, inference_lp, inference_ad3
    n, S = int(rng.choice([1, 2, 3, 4, 5, 6])), int(rng.choice([1, 2, 2, 3, 4]))
    if S ** n > 1100:
        n = 4
    edges = gen_edges(rng, n, str(rng.choice(["chain", "tree", "cycle", "full", "random", "edgeless"])))
    edges = np.asarray(edges, np.int64).reshape(-1, 2)
    edges = edges[np.sort(rng.permutation(len(edges))[:9])] if len(edges) > 9 else edges
    shared = bool(rng.random() < .3)
    integer = bool(rng.random() < .25)
    draw = lambda sh: (rng.integers(-3, 4, size=sh).astype(float) if integer else rng.normal(size=sh))
    U, P = draw((n, S)) * (.3 if rng.random() < .5 and not integer else 1), draw((S, S) if shared else (len(edges), S, S))
    Pe = [P] * len(edges) if shared else list(P)
    opt = brute_opt(U, Pe, edges)
    if n == 1:
        opt = U.max()
    lp = local_lp(U, Pe, edges)
    assert lp >= opt - 1e-6 * (1 + abs(opt)), (lp, opt)
    m = "lp" if rng.random() < .6 else "ad3"
    Ul, Pl = layout(rng, U), layout(rng, P)
    if integer and rng.random() < .4 and m == "lp":
        Ul, Pl = Ul.astype(int), Pl.astype(int)
    El = edges.astype(np.int32) if rng.random() < .2 and m == "lp" else np.asfortranarray(edges) if rng.random() < .2 \
        else edges
    f = {"lp": inference_lp, "ad3": inference_ad3}[m]
    if rng.random() < .5:
        y, e = inference_dispatch(Ul, Pl, El, m, relaxed=True, return_energy=True)
    else:
        y, e = f(Ul, Pl, El, relaxed=True, return_energy=True)
    tol = (1e-4 if m == "lp" else 3e-4) * (1 + np.abs(U).sum() + sum(np.abs(p).max() for p in Pe))
    obs.ev("direct")
    if len(edges) >= n:
        obs.ev("direct-loopy")
    desc = lambda: "%s n=%d S=%d edges=%s U=%s P=%s strides %r %r\nresult=%r energy=%r MAP=%r local polytope=%r" % (
        m, n, S, edges.tolist(), U.tolist(), P.tolist(), Ul.strides, Pl.strides, y, e, opt, lp)
    if isinstance(y, tuple):
        u, p = np.asarray(y[0], float), np.asarray(y[1], float)
        if not obs.check(u.shape == U.shape and p.size == len(edges) * S * S, "direct-shape:" + m, desc):
            return
        p = p.reshape(-1, S, S)
        off = np.abs(u.sum(1) - 1).max()
        for k, (a, b) in enumerate(edges):
            off = max(off, np.abs(p[k].sum(1) - u[a]).max(), np.abs(p[k].sum(0) - u[b]).max())
        slow = False
        if m == "ad3":
            import ad3
            slow = ad3.general_graph(U, edges, np.array(Pe, float).reshape(-1, S, S), n_iterations=4000)[3] == "unsolved"
        obs.check(slow or off < 1e-3 and u.min() > -1e-4 and (not p.size or p.min() > -1e-4), "direct-marginals:" + m, desc)
        sc = float((U * u).sum() + sum((a * b).sum() for a, b in zip(Pe, p)))
        if u.max(axis=1).min() < .99:
            obs.ev("direct-fractional")
        obs.check_exact(slow or abs(sc - lp) <= tol, "direct-optimum:" + m, lambda: "score %r\n%s" % (sc, desc()))
    else:
        y = np.asarray(y)
        if not obs.check(y.shape == (n,) and y.dtype.kind in "iu" and ((0 <= y) & (y < S)).all(), "direct-labels:" + m, desc):
            return
        sc = pair_score(U, Pe, edges, y)
        slow = False
        obs.check_exact(sc >= opt - tol, "direct-integral:" + m, lambda: "score %r\n%s" % (sc, desc()))
    obs.check(slow or abs(sc + e) <= tol, "direct-energy:" + m, lambda: "score %r\n%s" % (sc, desc()))
    if len(edges) and S > 1:
        obs.nontrivial("direct", edges.tolist(), np.round(U, 3).tolist(), np.round(P, 3).tolist(), m)


def case(rng, i, obs, tier):
    if i % 11 == 10:
        history(rng, obs, FAMS_HERE[int(rng.integers(len(FAMS_HERE)))], ["relaxed"])
        return
    if i % 61 == 60:
        large_relaxed(rng, obs)
        return
    if i % 4 == 3:
        direct(rng, obs)
        return
    i = i // 4 * 3 + i % 4
    fam = FAMS_HERE[i % len(FAMS_HERE)]
    kw = {}
    if fam in ("graph", "edgefeat", "latgraph", "multilabel") and rng.random() < .5:
        kw["kind"] = rng.choice(["cycle", "full", "random"])
    inst = FAMS[fam](rng, **kw)
    w = inst.rand_w(rng)
    if rng.random() < .3:  # weak unaries make fractional optima likely
        U0, _ = inst.potentials(w)
        w = np.array(w)
        npair = w.shape[0] - (sum(s * f for s, f in zip(inst.lS, inst.lF)) if fam == "typed" else
                              inst.n_in * inst.F if getattr(inst, "hidden_nodes", False) else
                              len(inst.doms) * inst.F if fam == "multilabel" else inst.n_states * inst.F)
        w[:w.shape[0] - npair] *= .05
    if fam == "typed":
        m = ["ad3", "ad3+", ("ad3", {"branch_and_bound": True})][rng.choice(3, p=[.45, .45, .1])]
    else:
        m = ["lp", "ad3", ("ad3", {"branch_and_bound": True})][rng.choice(3, p=[.42, .5, .08])]
    mn = m if isinstance(m, str) else m[0] + "-bb"
    key = "%s:%s" % (fam, mn)
    model = inst.make(m)
    U, P = inst.potentials(w)
    total = sum(np.abs(u).max() for u in U) + sum(np.abs(p).max() for p in P)
    # (AD3 stops at an absolute accuracy, also if all potentials are tiny)
    tol = (2e-3 if getattr(inst, "hidden_nodes", False) else 1e-4 if mn == "lp" else 6e-4) * (total + 1)
    scores = inst.scores(w, inst.all_flat())
    opt = scores.max()
    want_e = rng.random() < .8
    res = model.inference(inst.x, w, relaxed=True, return_energy=True) if want_e else \
        model.inference(inst.x, w, relaxed=True)
    obs.ev("relaxed")
    if not inst.acyclic():
        obs.ev("loopy")
    e = None
    y = res
    if want_e:
        y, e = res
    desc = lambda: "%s method=%s w=%s x=%r\n result=%r energy=%r optimum=%r" % (
        inst.describe(), mn, np.round(w, 4).tolist(), inst.x, y, e, opt)
    if not isinstance(y, tuple):
        obs.ev("integral")
        if not obs.check(inst.ok_labels(y), "invalid-labels:" + key, desc):
            return
        sc = inst.score(w, inst.unfmt(y))
        obs.check_exact(sc >= opt - tol, "integral-result-below-map:" + key, lambda: "score %r\n%s" % (sc, desc()))
    else:
        obs.ev("marginals")
        u, p = y
        if fam == "typed":
            ok = typed_marginals(inst, u, p, obs, key, desc, total < .05)
        else:
            ok = marginals(inst, u, p, obs, key, desc, U, P)
        if not ok:
            return
        um = np.vstack([np.atleast_2d(np.asarray(b).max(axis=-1).reshape(-1, 1)) for b in (u if fam == "typed" else [u])
                        if np.asarray(b).size])
        if um.min() < .999:
            obs.ev("fractional")
        jf = model.joint_feature(inst.x, y)
        obs.check(np.shape(jf) == (inst.wdim,), "feature-length:" + key, desc)
        sc = float(np.dot(w, jf))
        obs.check_exact(sc >= opt - tol, "bound-below-map:" + key, lambda: "relaxed score %r\n%s" % (sc, desc()))
    if e is not None and abs(e) < 1e99:
        obs.check(abs(sc + float(e)) <= tol, "energy:" + key, lambda: "score %r\n%s" % (sc, desc()))
    if len(inst.edges) and len(scores) > 1:
        obs.nontrivial(inst.describe(), np.round(w, 4).tolist(), mn)
        obs.sample("%s %s: MAP %.5g, relaxed %.5g, %s" % (inst.describe(), mn, opt, sc,
                                                         "marginals" if isinstance(y, tuple) else "labeling"))


def solver_off(inst, U, P):
    """inconsistency of what the solver itself returns for this problem (it may stop before it converged)"""
    import ad3
    if len({len(u) for u in U}) > 1:
        return 0.
    u, p, _, status = ad3.general_graph(np.array(U, float), np.array(inst.edges).reshape(-1, 2), np.array(P, float),
                                        n_iterations=4000)
    if status != "unsolved":
        return 0.
    u, p = np.asarray(u), np.asarray(p).reshape(len(P), u.shape[1], u.shape[1])
    return max(max(np.abs(p[k].sum(1) - u[a]).max(), np.abs(p[k].sum(0) - u[b]).max())
               for k, (a, b) in enumerate(inst.edges))


def marginals(inst, u, p, obs, key, desc, U, P):
    S, n = inst.S(), len(inst.doms)
    u = np.asarray(u, float)
    p = np.asarray(p, float)
    want = tuple(inst.shape) + (S,) if inst.grid else (n, S)
    if not obs.check(u.shape == want and p.size == len(inst.edges) * S * S, "marginal-shape:" + key, desc):
        return False
    u = u.reshape(n, S)
    p = p.reshape(-1, S, S)
    obs.check(np.isfinite(u).all() and np.isfinite(p).all() and u.min() > -1e-4 and (not p.size or p.min() > -1e-4),
              "negative:" + key, desc)
    obs.check(np.abs(u.sum(1) - 1).max() < 1e-3, "node-sum:" + key, desc)
    for k, (a, b) in enumerate(inst.edges):
        off = max(np.abs(p[k].sum(1) - u[a]).max(), np.abs(p[k].sum(0) - u[b]).max())
        if off >= 1e-3 and key.endswith(":ad3") and off <= 2 * solver_off(inst, U, P) + 1e-3:
            obs.ev("solver-inaccurate")
            break
        if not obs.check(off < 1e-3, "edge-consistency:" + key, desc):
            break
    if getattr(inst, "hidden_nodes", False):
        L = inst.n_labels
        obs.check(u[:inst.nv, L:].max() < 1e-2 and u[inst.nv:, :L].max() < 1e-2, "forbidden-mass:" + key, desc)
    return True


def typed_marginals(inst, u, p, obs, key, desc, tiny):
    T = inst.T
    if not obs.check(isinstance(u, list) and isinstance(p, list) and len(u) == T and len(p) == T * T and
                     all(np.shape(u[t]) == (inst.ln[t], inst.lS[t]) for t in range(T)), "marginal-shape:" + key, desc):
        return False
    for t in range(T):
        if not inst.ln[t]:
            continue
        a = np.asarray(u[t], float)
        obs.check(np.isfinite(a).all() and a.min() > -1e-4, "negative:" + key, desc)
        obs.check(np.abs(a.sum(1) - 1).max() < 1e-3, "node-sum:" + key, desc)
    for (t1, t2, q), (a, b) in zip(inst.etype, inst.edges):
        m = np.asarray(p[t1 * T + t2], float)
        if not obs.check(m.size and m.shape[0] > q, "marginal-shape:" + key, desc):
            return False
        if tiny:  # below the accuracy at which AD3 makes the marginals agree
            obs.ev("solver-inaccurate")
            break
        m = m[q].reshape(inst.lS[t1], inst.lS[t2])
        ua, ub = u[t1][a - inst.noff[t1]], u[t2][b - inst.noff[t2]]
        if not obs.check(np.abs(m.sum(1) - ua).max() < 1e-3 and np.abs(m.sum(0) - ub).max() < 1e-3 and m.min() > -1e-4,
                         "edge-consistency:" + key, desc):
            break
    return True
