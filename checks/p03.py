"""Labels returned by inference: validity for every method, optimality for the exact ones."""
import numpy as np
from vlib.inst import FAMS, FAM_LIST
from vlib.history import history
from vlib.large import large_forest

CASES = {"quick": 10000, "thorough": 110000}
MIN_EVENTS = {"large:inference": 150, "history:inference": 1000, "inference": 4000, "exact": 3000, "energy": 1500, "loopy_exact": 200, "grid-dispatch": 250, "after-training": 200, "trained:one-slack": 8, "trained:n-slack": 8, "default-method": 200}
RULE = ("One random instance of one of 14 model families x random weights (continuous, tied small integers, zero, large, "
        "sparse) x inference method; optimum by enumerating all labelings (<= 3000). Non-trivial: more than one "
        "labeling and not all scores equal; distinct by instance, weights and method.")
BB = ("ad3", {"branch_and_bound": True})


def methods(inst, rng):
    if inst.scalar:
        return None
    if inst.fam == "typed":
        ms = ["ad3", "ad3+", BB, ("ad3+", {"branch_and_bound": True})]
        p = [.25, .2, .4, .15]
    else:
        ms = ["max-product", "lp", "ad3", BB, "unary"]
        p = [.25, .15, .15, .4, .05]
    return ms[rng.choice(len(ms), p=p)]


def mname(m):
    return m if isinstance(m, str) else m[0] + "-bb" if m else "argmax"


def exactness(inst, method, scores, scale):
    """returns tolerance if this configuration must be optimal, else None"""
    if inst.scalar:
        return 1e-9 * scale
    if isinstance(method, tuple):
        return 1e-6 * scale
    if method == "max-product":
        return 1e-9 * scale if inst.acyclic() else None
    if not len(inst.edges):
        return 1e-4 * scale + 1e-6
    if method == "unary":
        return None
    if inst.acyclic() and scale > .05:
        s = np.sort(scores)
        if len(s) == 1 or s[-1] - s[-2] > 2e-2 * scale:
            return 1e-6 * scale
    return None


def grid_dispatch(rng, obs):
    """unary potentials in the shape of a grid, given directly to the solvers that take them"""
    import itertools
    from pystruct.inference import inference_dispatch
    h, w, S = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 3))
    n = h * w
    e = [(r * w + c, r * w + c + 1) for r in range(h) for c in range(w - 1)]
    e += [(r * w + c, r * w + c + w) for r in range(h - 1) for c in range(w)]
    e = np.array(e, int).reshape(-1, 2)
    U = rng.normal(size=(h, w, S)) * 2
    P = rng.normal(size=(S, S)) if rng.random() < .5 else rng.normal(size=(len(e), S, S))
    ys = np.array(list(itertools.product(range(S), repeat=n)))
    sc = U.reshape(n, S)[np.arange(n), ys].sum(axis=1)
    for k, (a, b) in enumerate(e):
        sc = sc + (P if P.ndim == 2 else P[k])[ys[:, a], ys[:, b]]
    m = [BB, "lp", "ad3"][int(rng.integers(3))]
    obs.ev("grid-dispatch")
    y, en = inference_dispatch(U, P, e, m, return_energy=True)
    y = np.asarray(y)
    d = lambda: "%r U=%r P=%r y=%r optimum %r" % (m, U.tolist(), P.tolist(), y, ys[sc.argmax()])
    if not obs.check(y.size == n and y.dtype.kind in "iu" and y.min() >= 0 and y.max() < S, "invalid-labels:dispatch", d):
        return
    got = sc[(ys == y.ravel()).all(axis=1)][0]
    if m == BB:
        obs.check_exact(got >= sc.max() - 1e-5, "suboptimal:dispatch", d)
    else:
        # tight relaxation (always on a path) and one best labeling
        s = np.sort(sc)
        if len(s) > 1 and s[-1] - s[-2] > .1 and (h == 1 or w == 1 or -en <= s[-1] + 1e-4):
            obs.check(got >= sc.max() - 1e-5, "suboptimal:dispatch-tree", d)
    if len(e) and S > 1:
        obs.nontrivial("dispatch", U.tobytes(), P.tobytes(), m)


def after_training(rng, obs):
    """the same problems before and after learners of all kinds were trained in this process"""
    from vlib.learn import plan, training_set, PLAIN, LATENT
    fam = [f for f in FAM_LIST if f not in ("binary", "multiclass")][int(rng.integers(len(FAM_LIST) - 2))]
    probs = []
    m = "lp" if fam != "typed" and rng.random() < .8 else "ad3"
    first = FAMS[fam](rng)
    model = first.make(m)
    w = first.project(first.rand_w(rng)) if hasattr(first, "project") else first.rand_w(rng)
    for k in range(6):
        inst = first if not k else None
        if k:
            from vlib.data import sibling
            inst = sibling(first, rng)
        v = w * float(rng.choice([.05, 1., 20.]))
        size = max([np.abs(a).max() for l in inst.potentials(v) for a in l if a.size] + [0.])
        probs.append((inst, v * min(1., 100. / (size + 1e-9))))  # within the range of the solvers

    def solve():
        out = []
        for inst, v in probs:
            r = model.inference(inst.x, v, relaxed=True, return_energy=True)
            y, e = r
            flat = []
            for a in y if isinstance(y, tuple) else (y,):
                for b in a if isinstance(a, list) else [a]:
                    flat.append(np.asarray(b, float).ravel())
            out.append((np.concatenate(flat), float(e)))
        return out
    before = solve()
    P = plan(rng, training_set(rng, fams=PLAIN + LATENT, n=2, maxlab=30), iters=2)
    try:
        P.fit(P.make(P.model()), *P.data())
    except ValueError as e:  # how far training came does not matter here
        if not any(t in str(e) for t in ("QP solver failed", "domain error", "Rank(A)")):
            raise
        obs.ev("qp-solver-failed")
    obs.ev("after-training")
    obs.ev("trained:" + P.kind)
    for (inst, v), a, b in zip(probs, before, solve()):
        obs.check(a[0].shape == b[0].shape and np.allclose(a[0], b[0], rtol=0, atol=1e-9) and
                  abs(a[1] - b[1]) <= 1e-9 * (1 + abs(a[1])), "after-training:" + m,
                  lambda: "%s method=%s w=%r: %r before, %r after training %s" % (
                      inst.describe(), m, v, a, b, P.describe()))
        if len(inst.edges):
            obs.nontrivial("after-training", inst.describe(), v.tobytes())


def case(rng, i, obs, tier):
    if i % 23 == 22:
        after_training(rng, obs)
        return
    if i % 11 == 10:
        history(rng, obs, FAM_LIST[int(rng.integers(len(FAM_LIST)))], ["inference"])
        return
    if i % 29 == 28:
        large_forest(rng, obs, ["inference"])
        return
    if i % 17 == 16:
        grid_dispatch(rng, obs)
        return
    fam = FAM_LIST[i % len(FAM_LIST)]
    inst = FAMS[fam](rng)
    m = methods(inst, rng)
    if not inst.scalar and fam != "typed" and rng.random() < .1:
        # the documented choice of a model that names no method
        m = None
        obs.ev("default-method")
    model = inst.make(m) if m is not None else inst.make()
    if m is None and not inst.scalar:
        m = "max-product" if fam == "chain" else model.inference_method
        obs.check(model.inference_method == m, "default-method:" + fam,
                  lambda: repr(model.inference_method))
        if m not in ("ad3", "max-product", "lp", "unary"):
            m = "default"
    w = inst.rand_w(rng)
    flats = inst.all_flat()
    scores = inst.scores(w, flats)
    opt = scores.max()
    U, P = inst.potentials(w)
    scale = 1e-12 + max([np.abs(u).max() for u in U] + [np.abs(p).max() for p in P])
    total = 1e-12 + sum(np.abs(u).max() for u in U) + sum(np.abs(p).max() for p in P)
    desc = lambda y=None: "%s method=%s w=%s x=%r\n y=%r opt=%r" % (
        inst.describe(), mname(m), np.round(w, 4).tolist(), inst.x, y, opt)
    want_e = (m is not None and rng.random() < .5) or (fam == "multiclass" and rng.random() < .5)
    if fam == "latdirgrid":
        pass
    res = model.inference(inst.x, w, return_energy=True) if want_e else model.inference(inst.x, w)
    obs.ev("inference")
    key = "%s:%s" % (fam, mname(m))
    e = None
    if want_e:
        if not obs.check(isinstance(res, tuple) and len(res) == 2, "no-energy:" + key, lambda: desc(res)):
            return
        y, e = res
    else:
        y = res
    if not obs.check(inst.ok_labels(y), "invalid-labels:" + key, lambda: desc(y)):
        return
    sc = inst.score(w, inst.unfmt(y))
    tol = exactness(inst, m, scores, scale)
    if tol is not None:
        obs.ev("exact")
        if not inst.acyclic():
            obs.ev("loopy_exact")
        obs.check_exact(sc >= opt - tol - 1e-9 * total, "suboptimal:" + key, lambda: "score %r < %r (tol %g)\n%s" % (
            sc, opt, tol, desc(y)))
        if e is not None and abs(e) < 1e99:  # AD3's sentinel "no bound" when everything ties
            obs.ev("energy")
            sign = 1 if fam == "multiclass" else -1
            # a fractional optimum of the relaxation is possible only without branch and bound
            etol = (2e-3 if isinstance(m, str) and m != "max-product" else 1e-5) * total + (
                1e-4 if scale < .05 else 0)
            obs.check_exact(abs(float(e) - sign * sc) <= etol, "energy:" + key, lambda: "energy %r, score %r\n%s" % (e, sc, desc(y)))
    if len(scores) > 1 and scores.max() - scores.min() > 1e-9:
        obs.nontrivial(inst.describe(), np.round(w, 4).tolist(), mname(m))
        obs.sample("%s method=%s optimum %.5g of %d labelings, got %.5g" % (inst.describe(), mname(m), opt, len(scores), sc))
