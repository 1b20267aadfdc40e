"""QPBO and OpenGM wrappers run against recording stand-in solver modules that minimise by enumeration."""
import copy
import itertools
import sys
import types

import numpy as np
from vlib.inst import gen_edges, GRAPH_KINDS
from vlib.learn import training_set

CASES = {"quick": 32000, "thorough": 500000}
ALGS = {"bp": "BeliefPropagation", "dd": "DualDecompositionSubgradient", "trws": "TrwsExternal", "trw": "TreeReweightedBp",
        "gibbs": "Gibbs", "lf": "LazyFlipper", "icm": "Icm", "dyn": "DynamicProgramming", "fm": "AlphaExpansionFusion",
        "gc": "GraphCut", "loc": "Loc", "mqpbo": "Mqpbo", "alphaexp": "AlphaExpansion"}
MIN_EVENTS = {"qpbo": 5000, "ogm": 5000, "grid-shape": 600, "shared-pairwise": 2500, "asymmetric": 3000, "no-edges": 300,
              "energy": 2500, "init": 800, "model": 1200, "model-lai": 500, "reversed-edges": 2500, "noncontiguous": 1500,
              "readonly": 1500, "other-minimiser": 1500}
MIN_EVENTS.update({"alg:" + a: 120 for a in ALGS})
RULE = ("Potentials (normal, integer, large, ties) x shared or per-edge pairwise terms, mostly asymmetric x graphs of 1-6 "
        "nodes with edges in both orientations x flat or grid-shaped unaries x memory layouts x all OpenGM algorithms, "
        "called directly and through 6 model families. The stand-ins record the received problem, reject anything the "
        "real solvers cannot take (shapes, types) and return a minimiser - or an arbitrary labeling - by enumeration. "
        "Monitors: energies of all labelings in the received problem against the negated scores, labels handed back, "
        "energies, algorithm chosen, arguments bitwise unchanged. Non-trivial: at least one edge and two states.")
ASSUMPTIONS = "the stand-ins follow the documented interfaces of pyqpbo and opengm; the solvers themselves are not run"
CASE_CPU_S = 60.

SEEN = {}


class Bad(Exception):
    pass


def choose(n, S, energy):
    """labeling the stand-in solver returns"""
    if SEEN.get("force") is not None:
        return np.array(SEEN["force"])
    best, arg = None, None
    for y in itertools.product(range(S), repeat=n):
        e = energy(y)
        if best is None or e < best - 1e-12:
            best, arg = e, y
    return np.array(arg)


def alpha_expansion_general_graph(edges, unary_cost, pairwise_cost, n_iter=5, verbose=False, random_seed=None):
    for name, a in (("edges", edges), ("unary_cost", unary_cost), ("pairwise_cost", pairwise_cost)):
        if not isinstance(a, np.ndarray) or a.dtype != np.int32:
            raise Bad("%s must be an int32 array, got %r" % (name, getattr(a, "dtype", type(a))))
    if edges.ndim != 2 or edges.shape[1] != 2 or unary_cost.ndim != 2:
        raise Bad("shapes %r %r" % (edges.shape, unary_cost.shape))
    n, S = unary_cost.shape
    if pairwise_cost.shape not in ((S, S), (len(edges), S, S)):
        raise Bad("pairwise shape %r" % (pairwise_cost.shape,))
    u, p, e = unary_cost.astype(float), pairwise_cost.astype(float), edges.copy()
    P = (lambda k: p) if p.ndim == 2 else (lambda k: p[k])

    def energy(y):
        return sum(u[k, y[k]] for k in range(n)) + sum(P(k)[y[a], y[b]] for k, (a, b) in enumerate(e))
    y = choose(n, S, energy).astype(np.int32)
    SEEN["calls"].append(dict(solver="qpbo", n=n, S=S, energy=energy, y=y.copy()))
    # a solver may use its arguments as scratch space
    for a in (edges, unary_cost, pairwise_cost):
        a[...] = 7
    return y


class GM(object):
    def __init__(self, numberOfLabels):
        a = np.asarray(numberOfLabels)
        if a.ndim != 1 or np.any(a != a.astype(int)):
            raise Bad("numbers of labels %r" % a)
        self.sizes = a.astype(int)
        self.functions, self.factors = [], []

    def reserveFactors(self, n):
        self.reserved = int(n)

    def reserveFunctions(self, n, kind):
        if kind != "explicit":
            raise Bad(kind)

    def addFunctions(self, fs):
        fs = np.asarray(fs)
        ids = []
        for f in fs:
            self.functions.append(np.array(f, float))
            ids.append(len(self.functions) - 1)
        return ids

    def addFactors(self, fids, vis):
        vis = np.asarray(vis)
        if vis.dtype.kind != "u":
            raise Bad("variable indices of type %r" % vis.dtype)
        if len(vis) != len(fids):
            raise Bad("%d functions %d factors" % (len(fids), len(vis)))
        for f, v in zip(fids, vis):
            v = np.atleast_1d(v).astype(int)
            fn = self.functions[f]
            if fn.ndim != len(v) or np.any(v < 0) or np.any(v >= len(self.sizes)) or \
                    fn.shape != tuple(self.sizes[v]):
                raise Bad("factor of shape %r on variables %r" % (fn.shape, v))
            self.factors.append((fn, v))

    def evaluate(self, y):
        y = np.asarray(y).astype(int)
        if y.shape != self.sizes.shape:
            raise Bad("labels of shape %r" % (y.shape,))
        return float(sum(fn[tuple(y[v])] for fn, v in self.factors))


def solver(name):
    class Solver(object):
        def __init__(self, gm, *a, **kw):
            self.gm, self.start, self.done = gm, None, False

        def setStartingPoint(self, init):
            self.start = np.array(init)

        def infer(self):
            gm = self.gm
            n, S = len(gm.sizes), int(gm.sizes.max()) if len(gm.sizes) else 0
            self.y = choose(n, S, gm.evaluate).astype(np.uint64)
            self.done = True
            SEEN["calls"].append(dict(solver="ogm", n=n, S=S, energy=gm.evaluate, y=self.y.astype(int), alg=name,
                                      start=self.start))

        def arg(self):
            if not self.done:
                raise Bad("arg before infer")
            return self.y.copy()
    Solver.__name__ = name
    return Solver


def install():
    q = types.ModuleType("pyqpbo")
    q.alpha_expansion_general_graph = alpha_expansion_general_graph
    sys.modules["pyqpbo"] = q
    o = types.ModuleType("opengm")
    o.label_type, o.value_type, o.index_type = np.uint64, np.float64, np.uint64
    o.gm = lambda sizes, operator="adder", *a, **kw: GM(sizes)
    o.inference = types.ModuleType("opengm.inference")
    for c in ALGS.values():
        setattr(o.inference, c, solver(c))
    sys.modules["opengm"] = o
    sys.modules["opengm.inference"] = o.inference


def layout(rng, a, obs):
    u = rng.random()
    if u < .15 and a.ndim > 1:
        obs.ev("noncontiguous")
        return np.asfortranarray(a)
    if u < .3:
        obs.ev("noncontiguous")
        b = np.zeros((a.shape[0] * 2,) + a.shape[1:], a.dtype)
        b[::2] = a
        return b[::2]
    if u < .45:
        a = a.copy()
        a.flags.writeable = False
        obs.ev("readonly")
    return a


def problem(rng, obs):
    grid = rng.random() < .12
    if grid:
        h, w = int(rng.integers(1, 4)), int(rng.integers(1, 3))
        n = h * w
        e = [(r * w + c, r * w + c + 1) for r in range(h) for c in range(w - 1)]
        e += [(r * w + c, r * w + c + w) for r in range(h - 1) for c in range(w)]
        e = np.array(e, int).reshape(-1, 2)
        shape = (h, w)
    else:
        n = int(rng.integers(1, 7))
        e = np.asarray(gen_edges(rng, n, str(rng.choice(list(GRAPH_KINDS)))) if n > 1 else [], int).reshape(-1, 2)
        shape = (n,)
    S = int(rng.integers(1, 4)) if n <= 5 else int(rng.integers(1, 3))
    flip = rng.random(len(e)) < .4
    e[flip] = e[flip][:, ::-1]
    kind = str(rng.choice(["normal", "int", "tie", "large"]))
    sc = {"normal": 1., "int": 1., "tie": 1., "large": 300.}[kind]

    def pots(*sh):
        if kind == "int":
            return rng.integers(-3, 4, size=sh).astype(float)
        if kind == "tie":
            return rng.integers(0, 2, size=sh).astype(float)
        return rng.normal(size=sh) * sc
    U = pots(*(shape + (S,)))
    shared = rng.random() < .35
    P = pots(S, S) if shared else pots(len(e), S, S)
    if rng.random() < .25:
        P = P + np.swapaxes(P, -1, -2)
    else:
        obs.ev("asymmetric")
    obs.ev("shared-pairwise", shared)
    obs.ev("no-edges", not len(e))
    obs.ev("reversed-edges", bool(flip.any()))
    return n, S, shape, U, P, e, shared


def scores(n, S, U, P, e, shared):
    U = U.reshape(n, S)
    ys = list(itertools.product(range(S), repeat=n))
    return ys, np.array([sum(U[k, y[k]] for k in range(n)) + sum((P if shared else P[k])[y[a], y[b]]
                                                                for k, (a, b) in enumerate(e)) for y in ys])


def direct(rng, i, obs):
    from pystruct.inference import inference_dispatch
    which = "qpbo" if i % 2 else "ogm"
    n, S, shape, U, P, e, shared = problem(rng, obs)
    if which == "ogm" and len(shape) > 1:
        U, shape = U.reshape(n, S), (n,)
    obs.ev("grid-shape", len(shape) > 1)
    obs.ev(which)
    ys, sc = scores(n, S, U, P, e, shared)
    forced = rng.random() < .3
    SEEN.update(calls=[], force=ys[int(rng.integers(len(ys)))] if forced else None)
    obs.ev("other-minimiser", forced)
    args = [layout(rng, U, obs), layout(rng, P, obs), layout(rng, e.astype([int, np.int32][int(rng.integers(2))]), obs)]
    snap = copy.deepcopy(args)
    kw, method, alg, init = {}, which, "dd", None
    if which == "ogm":
        if rng.random() < .75:
            alg = str(rng.choice(list(ALGS)))
            if rng.random() < .5:
                kw["alg"] = alg
            else:
                method = ("ogm", {"alg": alg})
        if rng.random() < .25:
            init = rng.integers(0, S, size=n)
            kw["init"] = init
            obs.ev("init")
    energy = rng.random() < .4
    d = lambda m="": "%r kw=%r U=%r P=%r e=%r: %s" % (method, kw, U.tolist(), P.tolist(), e.tolist(), m)
    r = inference_dispatch(args[0], args[1], args[2], method, return_energy=energy, **kw)
    y, en = r if energy else (r, None)
    obs.check(len(SEEN["calls"]) == 1, "solver-calls", lambda: d("%d calls" % len(SEEN["calls"])))
    c = SEEN["calls"][-1]
    obs.check(all(np.array_equal(a, b) and a.dtype == b.dtype for a, b in zip(args, snap)), "arguments-modified", d)
    judge(obs, d, c, n, S, U, P, e, ys, sc, which)
    y = np.asarray(y)
    obs.check(y.shape == shape and y.dtype.kind in "iu" and np.array_equal(y.ravel(), c["y"]), "labels", lambda: d(
        "%r solver %r" % (y, c["y"])))
    if which == "ogm":
        obs.ev("alg:" + alg)
        obs.check(c["alg"] == ALGS[alg], "algorithm", lambda: d("%r" % c["alg"]))
        obs.check((init is None) == (c["start"] is None) and (init is None or np.array_equal(init, c["start"])),
                  "starting-point", lambda: d("%r" % (c["start"],)))
    if energy:
        obs.ev("energy")
        k = ys.index(tuple(int(v) for v in c["y"]))
        obs.check(abs(en + sc[k]) <= 1e-8 * (1 + abs(sc).max()), "energy", lambda: d("%r score %r" % (en, sc[k])))
    if len(e) and S > 1:
        obs.nontrivial(which, U.tobytes(), P.tobytes(), e.tobytes())
        obs.sample(d("%r" % (y,)))


def judge(obs, d, c, n, S, U, P, e, ys, sc, which):
    """the received problem orders labelings like the negated scores"""
    if not obs.check(c["n"] == n and c["S"] == S, "problem-size", lambda: d("%r %r" % (c["n"], c["S"]))):
        return
    got = -np.array([c["energy"](y) for y in ys])
    terms = n + len(e)
    if which == "qpbo":
        # integers: a scale shared by all terms, off by at most one unit per term
        g = got - got.mean()
        s = sc - sc.mean()
        if np.abs(s).max() * 1000 > 50 * terms:
            scale = float(g.dot(s) / s.dot(s))
            obs.check(scale > 0 and np.abs(g - 1000 * s).max() <= 2. * terms + 1e-9 * np.abs(got).max(), "energies",
                      lambda: d("scores %r received %r" % (sc.tolist()[:20], got.tolist()[:20])))
        else:
            obs.check(np.abs(g - 1000 * s).max() <= 2. * terms, "energies", d)
    else:
        obs.check(np.abs(got - sc).max() <= 1e-9 * (1 + np.abs(sc).max() + abs(U).sum()), "energies", lambda: d(
            "scores %r received %r" % (sc.tolist()[:20], got.tolist()[:20])))


def model(rng, i, obs):
    fams = ("graph", "grid", "chain", "edgefeat", "dirgrid", "multilabel")
    ds = training_set(rng, fam=fams[int(rng.integers(len(fams)))], n=1)
    inst, f = ds.insts[0], ds.flats[0]
    which = str(rng.choice(["qpbo", "ogm"]))
    m = ds.make(which)
    w = rng.normal(size=ds.wdim)
    lai = rng.random() < .4
    SEEN.update(calls=[], force=None)
    obs.ev("model")
    al = inst.all_flat()
    sc = np.asarray(inst.scores(w, al), float)
    x, y = ds.X()[0], ds.Y()[0]
    if lai:
        obs.ev("model-lai")
        sc = sc + inst.losses(f, al)
        r = m.loss_augmented_inference(x, y, w)
    else:
        r = m.inference(x, w)
    got = np.asarray(inst.unfmt(r)).astype(int)
    k = [j for j, a in enumerate(al) if np.array_equal(a, got)]
    d = lambda t="": "%s %s lai=%r w=%r %s" % (which, ds.describe(), lai, w.tolist(), t)
    obs.check(np.shape(r) == np.shape(y) and len(k) == 1, "model-labeling", lambda: d("%r" % (r,)))
    if len(k) == 1:
        terms = inst.n_terms() if hasattr(inst, "n_terms") else 40
        tol = (4e-3 * terms if which == "qpbo" else 1e-8) * 1 + 1e-9 * np.abs(sc).max()
        obs.check(sc[k[0]] >= sc.max() - tol, "model-optimum", lambda: d("%r best %r" % (sc[k[0]], sc.max())))
    obs.nontrivial("model", ds.describe(), w.tobytes())


def case(rng, i, obs, tier):
    install()
    try:
        if i % 8 == 7 and rng.random() < .98:
            model(rng, i, obs)
        else:
            direct(rng, i, obs)
    finally:
        for m in ("pyqpbo", "opengm", "opengm.inference"):
            sys.modules.pop(m, None)
