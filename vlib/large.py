"""Instances far too large to enumerate: long and wide forests (optimum by elimination on the reference potentials) and
larger loopy graphs and grids (optimum of the local polytope by an independent LP solver)."""
import numpy as np

from .inst import FAMS
from .oracle import forest_opt

BB = ("ad3", {"branch_and_bound": True})
TREES = ("graph", "chain", "edgefeat", "grid", "dirgrid", "latgraph", "latgrid", "latdirgrid", "latnode", "eflatnode",
         "multilabel", "typed")
LOOPY = ("graph", "edgefeat", "grid", "dirgrid", "latgraph", "latgrid", "latdirgrid", "multilabel")
INF = float("inf")
KINDS = ("chain", "chain_perm", "star", "tree", "tree", "forest", "pairs")


def forest(rng, fam):
    n = int(rng.choice([12, 20, 40, 70, 130, 260]))
    S = int(rng.choice([2, 3, 5, 9, 17]))
    if fam in ("graph", "edgefeat", "chain", "grid", "dirgrid") and rng.random() < .15:  # few nodes, many states
        n, S = int(rng.integers(2, 5)), int(rng.choice([130, 200, 260, 300]))
    kind = str(rng.choice(KINDS))
    if fam in ("grid", "dirgrid", "latgrid", "latdirgrid"):
        h, w = (1, n) if rng.random() < .5 else (n, 1)
        kw = {} if fam.startswith("lat") else {"S": S}
        return FAMS[fam](rng, h=h, w=w, maxlab=INF, **kw)
    if fam == "chain":
        return FAMS[fam](rng, n=n, S=S, maxlab=INF)
    if fam in ("graph", "edgefeat"):
        return FAMS[fam](rng, n=n, S=S, kind=kind, maxlab=INF)
    if fam in ("latgraph", "multilabel"):
        return FAMS[fam](rng, n=n, kind=kind, maxlab=INF)
    if fam in ("latnode", "eflatnode"):
        return FAMS[fam](rng, nv=max(1, int(n * rng.uniform(.2, .9))), nh=int(rng.integers(1, 1 + n // 2)), kind=kind,
                         L=int(rng.integers(2, 6)), H=int(rng.integers(1, 7)), maxlab=INF)
    return FAMS[fam](rng, T=int(rng.integers(2, 5)), acyclic=True, maxlab=INF, nmax=9)


def loopy(rng, fam):
    if fam in ("grid", "dirgrid", "latgrid", "latdirgrid"):
        h, w = int(rng.integers(3, 7)), int(rng.integers(3, 8))
        kw = {} if fam.startswith("lat") else {"S": int(rng.choice([2, 2, 3, 4]))}
        return FAMS[fam](rng, h=h, w=w, maxlab=INF, **kw)
    n = int(rng.integers(9, 19))
    kw = {"n": n, "kind": "cycle" if rng.random() < .4 else "random" if n < 13 else "cycle", "maxlab": INF}
    if fam in ("graph", "edgefeat"):
        kw["S"] = int(rng.choice([2, 2, 3]))
    return FAMS[fam](rng, **kw)


def restricted(inst, U, P, doms):
    """potentials on the given states only"""
    ix = [np.asarray(d, int) - o for d, o in zip(doms, inst.uoff)]
    return ([np.asarray(u, float)[k] for u, k in zip(U, ix)],
            [np.asarray(p, float)[np.ix_(ix[a], ix[b])] for (a, b), p in zip(inst.edges, P)])


def augmented(inst, U, yf):
    """node potentials plus the loss of every state"""
    lab = inst.visible_labels(yf)
    smap = getattr(inst, "smap", None)
    out = [np.array(u, float) for u in U]
    for k, l in enumerate(lab):
        c = 1. if inst.class_weight is None else float(inst.class_weight[int(l)])
        for s in inst.doms[k]:
            if (int(s) if smap is None else int(smap[int(s)])) != int(l):
                out[k][int(s) - inst.uoff[k]] += c
    return out


def method_of(inst, fam, rng):
    return ("ad3", {"branch_and_bound": True}) if fam == "typed" else "max-product"


def total_of(U, P):
    return sum(float(np.abs(u).max()) for u in U) + sum(float(np.abs(p).max()) for p in P)


def large_forest(rng, obs, ops, fams=TREES):
    fam = fams[int(rng.integers(len(fams)))]
    inst = forest(rng, fam)
    w = inst.rand_w(rng, str(rng.choice(["normal", "int", "pos", "neg", "big"], p=[.5, .2, .1, .1, .1])))
    U, P = inst.potentials(np.asarray(w, float))
    total = total_of(U, P)
    small = np.asarray(w, float)
    if total > 1e4 or fam == "typed" and total > 300:
        w = small * ((1e4 if fam != "typed" else 300.) / total)
        U, P = inst.potentials(w)
        total = total_of(U, P)
    m = method_of(inst, fam, rng)
    model = inst.make(m)
    op = ops[int(rng.integers(len(ops)))]
    if op == "latent" and not inst.latent:
        op = "inference"
    yf = inst.rand_flat(rng)
    if op == "lai" and total > 0 and rng.random() < .6:
        # a ground truth which the loss moves the result away from
        w = np.asarray(w, float) * (len(U) * float(rng.choice([.3, 1., 3.])) / total)
        U, P = inst.potentials(w)
        total = total_of(U, P)
        best = model.inference(inst.x, w)
        if inst.ok_labels(best):
            yf = np.where(rng.random(len(yf)) < .1, yf, np.asarray(inst.unfmt(best), int))
    obs.ev("large:states", getattr(inst, "n_states", 0) > 128)
    d = lambda e="": "large %s %s w=%r yf=%r: %s" % (op, inst.describe(), np.asarray(w).tolist()[:40], yf.tolist(), e)
    obs.ev("large")
    obs.ev("large:" + op)
    doms = inst.doms
    if op == "inference":
        y = model.inference(inst.x, w)
        gain = lambda f: inst.score(w, f)
        V = U
    elif op == "lai":
        lab = inst.fmt(yf)
        y = model.loss_augmented_inference(inst.x, lab, w)
        gain = lambda f: inst.score(w, f) + inst.loss(yf, f)
        V = augmented(inst, U, yf)
    else:
        vis = np.asarray(inst.visible_labels(yf), int)
        y = model.latent(inst.x, vis.reshape(inst.visible_shape()), w)
        doms = inst.completions(vis)
        gain = lambda f: inst.score(w, f)
        V = U
    if not obs.check(inst.ok_labels(y), "large-labels:%s:%s" % (op, fam), lambda: d("%r" % (y,))):
        return
    f = np.asarray(inst.unfmt(y), int)
    if op == "latent" and not obs.check(np.array_equal(inst.visible_labels(f), vis), "large-completion:" + fam,
                                        lambda: d("%r" % (y,))):
        return
    opt = forest_opt(*(restricted(inst, V, P, doms) + (inst.edges,)))
    got = gain(f)
    tol = (1e-8 if m == "max-product" else 1e-6) * (total + 1)
    obs.check_exact(got >= opt - tol, "large-suboptimal:%s:%s" % (op, fam), lambda: d("objective %r optimum %r" % (got, opt)))
    obs.nontrivial("large", op, inst.describe(), np.asarray(w).tobytes())


def polytope(U, P, edges):
    """optimum over the local polytope (HiGHS); states may differ between nodes"""
    from scipy.optimize import linprog
    from scipy.sparse import coo_matrix
    n = len(U)
    off = np.concatenate([[0], np.cumsum([len(u) for u in U])]).astype(int)
    I, J, V, b = [], [], [], []
    r = 0
    for v in range(n):
        for s in range(len(U[v])):
            I.append(r), J.append(off[v] + s), V.append(1.)
        b.append(1.)
        r += 1
    o = int(off[-1])
    for p, (a, c) in zip(P, edges):
        Sa, Sc = p.shape
        for s in range(Sa):
            for t in range(Sc):
                I.append(r), J.append(o + s * Sc + t), V.append(1.)
            I.append(r), J.append(off[a] + s), V.append(-1.)
            b.append(0.)
            r += 1
        for t in range(Sc):
            for s in range(Sa):
                I.append(r), J.append(o + s * Sc + t), V.append(1.)
            I.append(r), J.append(off[c] + t), V.append(-1.)
            b.append(0.)
            r += 1
        o += Sa * Sc
    c = -np.concatenate([np.asarray(u, float) for u in U] + [np.asarray(p, float).ravel() for p in P])
    res = linprog(c, A_eq=coo_matrix((V, (I, J)), shape=(r, o)).tocsr(), b_eq=b, bounds=(0, None), method="highs")
    return -res.fun if res.status == 0 else None


def large_relaxed(rng, obs, augment=False):
    """the relaxed result on larger loopy graphs: feasible, of the value of the local polytope's optimum"""
    fam = LOOPY[int(rng.integers(len(LOOPY)))]
    inst = loopy(rng, fam)
    w = np.asarray(inst.rand_w(rng, str(rng.choice(["normal", "int", "neg"]))), float)
    U, P = inst.potentials(w)
    total = total_of(U, P)
    if total > 1e3:
        w = w * (1e3 / total)
        U, P = inst.potentials(w)
        total = total_of(U, P)
    yf = inst.rand_flat(rng)
    model = inst.make("lp")
    op = "lai" if augment else "inference"
    d = lambda e="": "large relaxed %s %s w=%r yf=%r: %s" % (op, inst.describe(), w.tolist()[:40], yf.tolist(), e)
    if augment:
        r = model.loss_augmented_inference(inst.x, inst.fmt(yf), w, relaxed=True)
        V = augmented(inst, U, yf)
        total += len(yf) * (1. if inst.class_weight is None else float(np.max(inst.class_weight)))
    else:
        r = model.inference(inst.x, w, relaxed=True)
        V = U
    obs.ev("large-relaxed")
    opt = polytope(V, P, inst.edges)
    if opt is None:
        obs.ev("reference-solver-failed")
        return
    S = inst.n_states
    tol = 2e-5 * (total + 1)
    if isinstance(r, tuple):
        obs.ev("large-fractional")
        u = np.asarray(r[0], float).reshape(-1, S)
        p = np.asarray(r[1], float)
        if not obs.check(len(u) == len(U) and p.size == len(inst.edges) * S * S, "large-marginals:" + fam, d):
            return
        p = p.reshape(-1, S, S)
        off = np.abs(u.sum(1) - 1).max()
        for k, (a, b) in enumerate(inst.edges):
            off = max(off, np.abs(p[k].sum(1) - u[a]).max(), np.abs(p[k].sum(0) - u[b]).max())
        obs.check(off < 1e-3 and u.min() > -1e-4 and (not p.size or p.min() > -1e-4), "large-polytope:" + fam,
                  lambda: d("off by %r" % off))
        got = float(sum((a * b).sum() for a, b in zip(V, u)) + sum((a * b).sum() for a, b in zip(P, p)))
    else:
        if not obs.check(inst.ok_labels(r), "large-labels:%s" % fam, lambda: d("%r" % (r,))):
            return
        f = np.asarray(inst.unfmt(r), int)
        got = inst.score(w, f) + (inst.loss(yf, f) if augment else 0.)
    obs.check(abs(got - opt) <= tol, "large-relaxed-optimum:%s:%s" % (op, fam), lambda: d("value %r optimum %r" % (got, opt)))
    obs.nontrivial("large-relaxed", op, inst.describe(), w.tobytes())
