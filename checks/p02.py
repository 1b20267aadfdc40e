"""Max-product against an independent dynamic program."""
import numpy as np
from vlib.inst import gen_edges, GRAPH_KINDS, ACYCLIC_KINDS, is_acyclic
from vlib.oracle import forest_opt, pair_score, brute_opt
from vlib.runner import HarnessError

CASES = {"quick": 9600, "thorough": 160000}
MIN_EVENTS = {"acyclic": 4000, "cyclic": 500, "ties": 1000, "chain": 400, "edgeless": 200, "neutral": 500, "huge": 100, "whole-numbers": 800, "neutral-far": 60, "neutral-tiny": 100}
RULE = ("One random pairwise problem per case: graph kind (chain, permuted chain, star, tree, forest, disjoint pairs, "
        "edgeless, cyclic; one case in eight a cyclic graph whose cycle-closing edges carry no interaction, in part with potentials down to 1e-8 and the tolerance to match) x node count 1..60 x state count 1..6 (one case in 32: up to 300 states or 3000 nodes) x potential style (continuous, small integers with "
        "ties, constant, attractive Potts, extreme scale, integer/float32 dtype) x shared or per-edge pairwise. "
        "Non-trivial: at least one edge and two states; distinct by graph and rounded potentials.")


def pots(rng, shape, style):
    if style == "normal":
        return rng.normal(size=shape)
    if style == "int":
        return rng.integers(-2, 3, size=shape).astype(float)
    if style == "zero":
        return np.zeros(shape)
    if style == "big":
        return rng.normal(size=shape) * 1e5
    if style == "neg":
        return -rng.random(size=shape) * 1e3 - 50
    if style == "intdtype":
        return rng.integers(-3, 4, size=shape)
    if style == "f32":
        return rng.normal(size=shape).astype(np.float32)
    if style == "offset":
        # small integers on top of large ones (one per node or edge): exact in double precision
        base = rng.integers(-2 ** 36, 2 ** 36, size=(shape[0],) + (1,) * (len(shape) - 1))
        if len(shape) == 2 and shape[0] == shape[1] and rng.random() < .5:
            base = base[:1]
        if rng.random() < .3:
            base = -np.abs(base)
        return (base + rng.integers(-3, 4, size=shape)).astype(float if rng.random() < .7 else np.int64)
    if style == "layers":
        # whole numbers in which ties between large parts are broken by small ones
        a = np.zeros(shape)
        for k in (0, 12, 24, 36):
            a += rng.integers(-1, 2, size=shape) * (rng.random(shape) < .6) * 2. ** k
        return a if rng.random() < .7 else a.astype(np.int64)
    if style == "spread":
        return rng.normal(size=shape) * 10. ** rng.integers(-3, 4, size=shape)
    raise ValueError(style)


def neutral_case(rng, obs):
    """A cyclic graph whose interactions form a forest: message passing reaches the unique optimum."""
    from pystruct.inference import inference_dispatch
    from pystruct.inference.inference_methods import inference_max_product
    n, S = int(rng.integers(2, 8)), int(rng.integers(2, 4))
    roots = rng.random() < .2
    far = rng.random() < .12
    if far:
        n, S, roots = int(rng.integers(35, 50)), 2, False
    tree = [(k - 1, k) for k in range(1, n)] if far else [(int(rng.integers(0, k)), k) for k in range(1, n) if not (roots and rng.random() < .3)]
    extra = [tuple(int(v) for v in rng.choice(n, 2, replace=False)) for _ in range(int(rng.integers(1, 5)))]
    E = np.array([t if rng.random() < .5 else t[::-1] for t in tree] + extra).reshape(-1, 2)
    P = rng.normal(size=(len(E), S, S)) * float(rng.choice([.5, 1, 3]))
    P[len(tree):] = rng.normal(size=(len(extra), 1, 1)) if rng.random() < .5 else 0
    order = rng.permutation(len(E))
    if far:
        # all that is known is at one end of a long path whose messages move one step per iteration
        P[:len(tree)] = np.eye(S) * 3 + rng.normal(size=(len(tree), S, S)) * .1
        order = np.r_[np.arange(len(tree))[::-1], np.arange(len(tree), len(E))]
        obs.ev("neutral-far")
    E, P = E[order], P[order]
    U = rng.normal(size=(n, S)) * float(rng.choice([.5, 1, 3]))
    if far:
        U *= .01
        U[0, int(rng.integers(S))] += 5
    if is_acyclic(n, E):
        return
    core = np.array([k for k, o in enumerate(order) if o < len(tree)], int)
    opt = forest_opt(U, list(P[core]), E[core])
    # margin of the best labeling: the best one with any single node forced to another label
    margin = np.inf
    best = None
    for v in range(n):
        vals = []
        for s in range(S):
            V = U.copy()
            V[v] -= 1e6 * (np.arange(S) != s)
            vals.append(forest_opt(V, list(P[core]), E[core]))
        vals = sorted(vals)
        margin = min(margin, vals[-1] - vals[-2])
    if margin < .02:
        return
    desc = lambda: "neutral closing edges n=%d S=%d edges=%s\nU=%s\nP=%s\ny=%s" % (
        n, S, E.tolist(), U.tolist(), P.tolist(), np.asarray(y).tolist())
    opts = dict(max_iter=500)
    if rng.random() < .4:
        # tiny potentials need a smaller tolerance; changes of that size are well above rounding
        scale = float(rng.choice([1, 1e-4, 1e-6, 1e-8]))
        U, P = U * scale, P * scale
        opt, margin = opt * scale, margin * scale
        opts["tol"] = 1e-9 * scale
        if scale < 1:
            obs.ev("neutral-tiny")
        if rng.random() < .3:
            opts["damping"] = float(rng.choice([.3, .6]))
    if rng.random() < .5:
        y = inference_max_product(U, P, E, **opts)
    else:
        y = inference_dispatch(U, P, E, ("max-product", opts))
    ya = np.asarray(y)
    obs.ev("neutral")
    if not obs.check(ya.shape == (n,) and ya.dtype.kind in "iu" and ((ya >= 0) & (ya < S)).all(),
                     "invalid-labels:neutral", desc):
        return
    got = pair_score(U, list(P[core]), E[core], ya)
    obs.check(got >= opt - min(.1 * margin, 1e-6 * (1 + np.abs(U).sum() + np.abs(P).sum())), "suboptimal:neutral",
              lambda: "score %r < optimum %r (margin %r)\n%s" % (got, opt, margin, desc()))


def case(rng, i, obs, tier):
    from pystruct.inference import inference_dispatch
    if i % 8 == 5:
        neutral_case(rng, obs)
        return
    kind = (ACYCLIC_KINDS + ACYCLIC_KINDS + GRAPH_KINDS)[i % (2 * len(ACYCLIC_KINDS) + len(GRAPH_KINDS))]
    S = int(rng.choice([1, 2, 2, 3, 4, 6]))
    n = int(rng.choice([1, 2, 2, 3, 4, 5, 6, 8, 12, 25, 60]))
    if kind in ("full", "random"):
        n = min(n, 7)
    elif i % 32 == 3:
        # many states, or very many nodes
        if rng.random() < .5:
            S, n = int(rng.choice([40, 130, 257, 300])), int(rng.choice([2, 3, 4, 8]))
        else:
            S, n = int(rng.choice([1, 2, 3])), int(rng.choice([200, 1000, 3000]))
        obs.ev("huge")
    edges = gen_edges(rng, n, kind)
    styles = ["normal", "int", "zero", "big", "neg", "intdtype", "f32", "spread", "offset", "layers"]
    pr = [.22, .27, .04, .07, .07, .08, .06, .07, .06, .06]
    su = rng.choice(styles, p=pr)
    sp = su if rng.random() < .5 else rng.choice(styles, p=pr)
    whole = "offset" in (su, sp) or "layers" in (su, sp)
    if whole:  # whole numbers throughout: the optimum must be met exactly
        su, sp = [v if v in ("int", "zero", "intdtype", "offset", "layers") else "layers" for v in (su, sp)]
        obs.ev("whole-numbers")
    U = pots(rng, (n, S), su)
    shared = rng.random() < .35
    if shared:
        P = pots(rng, (S, S), sp)
        if rng.random() < .3:
            P = np.asarray(np.eye(S) * float(rng.choice([-2, 1, 3])))
        Pe = [P] * len(edges)
    else:
        P = pots(rng, (len(edges), S, S), sp)
        if len(edges) == 1 and S == 1:
            P = P.reshape(1, 1, 1)
        Pe = list(P)
    if rng.random() < .15:
        U = np.asfortranarray(U)
    if rng.random() < .15 and not shared:
        P = np.asfortranarray(P)
    e = edges.astype(rng.choice([np.int64, np.int64, np.int32]))
    y = inference_dispatch(U, P, e, "max-product")
    desc = lambda: "kind=%s n=%d S=%d (large)" % (kind, n, S) if n * S * S > 5000 else "kind=%s n=%d S=%d edges=%s\nU=%s\nP=%s\ny=%s" % (kind, n, S, edges.tolist(), U.tolist(), np.asarray(P).tolist(), np.asarray(y).tolist())
    ya = np.asarray(y)
    if not obs.check(ya.shape == (n,) and ya.dtype.kind in "iu" and ((ya >= 0) & (ya < S)).all(), "invalid-labels:" + kind,
                     desc):
        return
    acy = is_acyclic(n, edges)
    if not acy:
        obs.ev("cyclic")
        return
    obs.ev("acyclic")
    if kind == "chain":
        obs.ev("chain")
    if not len(edges):
        obs.ev("edgeless")
    opt = forest_opt(U, Pe, edges)
    if S ** n <= 300 and abs(brute_opt(U, Pe, edges) - opt) > 1e-6 * (1 + abs(opt)):
        raise HarnessError("forest_opt wrong " + desc())
    got = pair_score(U, Pe, edges, ya)
    scale = 1 + np.abs(U).sum() + sum(np.abs(p).max() for p in Pe)
    obs.check(got >= opt - .5 if whole else got >= opt - 1e-7 * scale if "f32" not in (su, sp) else got >= opt - 1e-4 * scale, "suboptimal:" + kind,
              lambda: "score %r < optimum %r\n%s" % (got, opt, desc()))
    if su in ("int", "zero", "intdtype") and sp in ("int", "zero", "intdtype"):
        obs.ev("ties")
    if len(edges) and S > 1:
        obs.nontrivial(kind, edges.tolist(), np.round(U, 3).tolist(), np.round(np.asarray(P, float), 3).tolist())
        obs.sample("%s n=%d S=%d U~%s P~%s optimum=%.4g reached=%.4g" % (kind, n, S, su, sp, opt, got))
