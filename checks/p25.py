"""Malformed problems raise before anything is computed; sizes inferred from data are the right ones."""
import copy

import numpy as np
from vlib.data import Dataset
from vlib.inst import FAM_LIST, gen_edges, GRAPH_KINDS
from vlib.learn import can_initialize, initable

CASES = {"quick": 10500, "thorough": 100000}
MIN_EVENTS = {"rejected": 20000, "still-works": 3000, "initialize": 500, "constructor": 1000, "defaults": 1000, "potentials": 1000,
              "learner": 300, "inferred": 400, "inferred-behaviour": 400, "reinitialised": 800}
MIN_EVENTS.update({"fam:" + f: 150 for f in FAM_LIST})
MIN_EVENTS.update({"what:" + c: 100 for c in ("w+", "w-", "feat+", "feat-", "ef+", "ef-", "ef-rows", "edges-rows",
                                             "edge-out-of-range", "edge-negative", "types")})
MIN_EVENTS.update({"init:" + c: 50 for c in ("features", "states-", "states+", "edge-features", "class-weight")})
RULE = ("Valid random problems of 14 families in which one argument is corrupted: weights, features, edge features, edges "
        "and edge-feature counts, node types, class weights, (anti)symmetric index sets, states per label, data "
        "contradicting the model's sizes, potentials of wrong shapes, unknown method, sampling and neighbourhood names; "
        "through joint features, inference, loss-augmented inference, latent completion, their batch versions, "
        "initialize, constructors, direct inference, fit and predict. Monitors: an exception is raised; the model "
        "still computes the same on the valid problem afterwards; the learner has called no inference. Sizes inferred from "
        "data equal the true ones and the model behaves like one constructed with them. Non-trivial: every case; "
        "distinct by problem and corruption.")
ASSUMPTIONS = "any exception counts as rejection"
CASE_CPU_S = 60.


def wider(a, rng):
    a = np.asarray(a)
    return np.concatenate([a, a[..., :1]], -1)


def narrower(a):
    return np.asarray(a)[..., :-1]


def corrupt_x(q, rng):
    """name -> malformed input"""
    fam, x, out = q.fam, q.x, {}
    if not isinstance(x, tuple):
        return {"feat+": wider(x, rng), "feat-": narrower(x)}
    x = list(x)
    if fam == "typed":
        F, E, EF = x
        t = int(rng.integers(len(F)))
        sub = lambda l, k, v: list(l[:k]) + [v] + list(l[k + 1:])
        if F[t] is not None:
            out["feat+"] = (sub(F, t, wider(F[t], rng)), E, EF) if np.asarray(F[t]).shape[1] else None
            out["feat-"] = (sub(F, t, narrower(F[t])), E, EF)
        out["types"] = (list(F[:-1]), E, EF) if rng.random() < .5 else (F, list(E) + [None], list(EF) + [None])
        ks = [k for k, e in enumerate(E) if e is not None and len(e)]
        if ks:
            k = ks[int(rng.integers(len(ks)))]
            if EF[k].shape[1]:
                out["ef+"] = (F, E, sub(EF, k, wider(EF[k], rng)))
                out["ef-"] = (F, E, sub(EF, k, narrower(EF[k])))
            out["ef-rows"] = (F, E, sub(EF, k, EF[k][:-1]))
            out["edges-rows"] = (F, sub(E, k, E[k][:-1]), EF)
            e = np.array(E[k])
            T = len(F)
            c = int(rng.integers(2))
            e[int(rng.integers(len(e))), c] = len(F[(k // T, k % T)[c]]) if rng.random() < .5 else -1
            out["edge-out-of-range"] = (F, sub(E, k, e), EF)
        return {k: v for k, v in out.items() if v is not None}
    out["feat+"] = tuple([wider(x[0], rng)] + x[1:])
    out["feat-"] = tuple([narrower(x[0])] + x[1:])
    if len(x[1]):
        e = np.array(x[1])
        e[int(rng.integers(len(e))), int(rng.integers(2))] = len(q.doms)
        out["edge-out-of-range"] = tuple([x[0], e] + x[2:])
        e = np.array(x[1])
        e[int(rng.integers(len(e))), int(rng.integers(2))] = -1
        out["edge-negative"] = tuple([x[0], e] + x[2:])
    if fam in ("edgefeat", "eflatnode"):
        out["ef+"] = tuple(x[:2] + [wider(x[2], rng)] + x[3:])
        out["ef-"] = tuple(x[:2] + [narrower(x[2])] + x[3:])
        if len(x[1]):
            out["ef-rows"] = tuple(x[:2] + [x[2][:-1]] + x[3:])
            out["edges-rows"] = tuple([x[0], x[1][:-1]] + x[2:])
    return out


def case(rng, i, obs, tier):
    r = i % 7
    fam = FAM_LIST[(i // 7) % len(FAM_LIST)]
    if r < 3:
        models(rng, obs, fam)
    elif r == 3:
        initialization(rng, obs, fam)
    elif r == 4:
        constructors(rng, obs)
        potentials(rng, obs)
    elif r == 5:
        learners(rng, obs, fam)
    else:
        inferred(rng, obs, fam)


def rejects(obs, key, f, d):
    obs.ev("rejected")
    try:
        r = f()
    except Exception:
        return True
    obs.fail("accepted:" + key, d("returned %r" % (r,)))
    return False


def calls(model, q, x, y, w, rng):
    resc = getattr(q, "rescale", False)
    jf = (lambda: model.joint_feature(x, y, y)) if resc else (lambda: model.joint_feature(x, y))
    o = {"joint_feature": jf, "inference": lambda: model.inference(x, w),
         "loss_augmented_inference": lambda: model.loss_augmented_inference(x, y, w)}
    xs, ys = ((np.array([x]), np.array([y])) if q.scalar or q.fam == "multilabel" else ([x], [y]))
    o["batch_inference"] = lambda: model.batch_inference(xs, w)
    o["batch_loss_augmented_inference"] = lambda: model.batch_loss_augmented_inference(xs, ys, w)
    o["batch_joint_feature"] = (lambda: model.batch_joint_feature(xs, ys, ys)) if resc else (
        lambda: model.batch_joint_feature(xs, ys))
    if q.latent:
        v = model.label_from_latent(y)
        o["latent"] = lambda: model.latent(x, v, w)
    return o


def models(rng, obs, fam):
    ds = Dataset(rng, fam, 1, maxlab=200)
    q = ds.first
    obs.ev("fam:" + fam)
    method = None
    if not q.scalar:
        method = "ad3" if fam == "typed" else str(rng.choice(["ad3", "max-product", "lp", "unary"]))
        if fam in ("latnode", "eflatnode") and method == "unary":
            method = "max-product"
    model = ds.make() if q.scalar else ds.make(method)
    w = rng.normal(size=ds.wdim)
    # the solvers fail on very large scores
    w = w / max(1., np.abs(q.scores(w, q.all_flat())).max() / 50.)
    y = q.fmt(q.rand_flat(rng))
    d = lambda e="": "%s method=%s w=%r y=%r\n%s" % (q.describe(), method, np.round(w, 4).tolist(), y, e)
    ref = {}
    for o, f in calls(model, q, q.x, y, w, rng).items():
        if o in ("joint_feature", "batch_joint_feature"):
            ref[o] = f()
    bad = {"w+": (q.x, np.append(w, 1.)), "w-": (q.x, w[:-1])}
    for k, xx in corrupt_x(q, rng).items():
        bad[k] = (xx, w)
    for k, (xx, ww) in bad.items():
        obs.ev("what:" + k)
        for o, f in calls(model, q, xx, y, ww, rng).items():
            if (k[0] == "w" or k == "edge-negative") and "joint" in o:
                continue
            rejects(obs, "%s:%s:%s" % (fam, k, o), f, lambda e: d("%s of %s %r: %s" % (o, k, xx, e)))
    obs.ev("still-works")
    for o, f in calls(model, q, q.x, y, w, rng).items():
        r = f()
        if o in ref:
            obs.check(np.array_equal(r, ref[o]), "changed-by-rejection:" + o, lambda: d("%r %r" % (r, ref[o])))
    obs.nontrivial(q.describe(), sorted(bad))
    obs.sample(d(sorted(bad)))


def more_states(q, Y, rng):
    """labels with one further value, and labels with one value fewer (None if impossible)"""
    lab = [np.asarray(y).copy() for y in Y]
    n = int(max(y.max() for y in lab)) + 1
    big = [y.copy() for y in lab]
    big[0].flat[0] = n
    # the value that disappears must not have been unique to the node replaced
    keep = set(np.unique(np.hstack([y.ravel() for y in big])))
    if keep != set(range(n + 1)):
        big = None
    small = None
    if n > 1:
        small = [np.where(y == n - 1, 0, y) for y in lab]
    return big, small


def initialization(rng, obs, fam):
    """data that contradicts the sizes of the model"""
    ds = Dataset(rng, fam, int(rng.integers(2, 4)), maxlab=200)
    q = ds.first
    obs.ev("fam:" + fam)
    if fam in ("typed", "binary", "multilabel"):
        pass
    X = ds.X()
    Y = ds.visible() if q.latent else ds.Y()
    ok = initable(ds) if q.latent else can_initialize(ds)
    if not ok:
        obs.ev("not-all-states")
        return
    d = lambda e="": "%s\n%s" % (ds.describe(), e)
    arr = lambda Z: np.array(Z)

    def feed(X, Y):
        m = ds.make()
        if q.latent and q.grid:
            X, Y = arr(X), arr(Y)
        if fam in ("multiclass", "binary", "multilabel"):
            X, Y = arr(X), arr(Y)
        m.initialize(X, Y)
        return m
    feed(X, Y)
    obs.ev("initialize")
    bads = [corrupt_x(s, rng) for s in ds.insts]
    for k in ("feat+", "feat-"):
        if all(k in b for b in bads):
            obs.ev("init:features")
            rejects(obs, "initialize:%s:%s" % (fam, k), lambda: feed([b[k] for b in bads], Y), d)
    if fam == "edgefeat":
        for k in ("ef+", "ef-"):
            obs.ev("init:edge-features")
            rejects(obs, "initialize:%s:%s" % (fam, k), lambda: feed([b[k] for b in bads], Y), d)
    if fam == "typed":
        k = "types"
        rejects(obs, "initialize:typed:types", lambda: feed([b[k] for b in bads], Y), d)
    if fam == "multilabel":
        obs.ev("init:states+")
        obs.ev("init:states-")
        rejects(obs, "initialize:multilabel:labels+", lambda: feed(X, [np.append(y, 0) for y in Y]), d)
        rejects(obs, "initialize:multilabel:labels-", lambda: feed(X, [y[:-1] for y in Y]), d)
    elif fam not in ("binary", "typed"):
        big, small = more_states(q, Y, rng)
        if big is not None:
            obs.ev("init:states+")
            rejects(obs, "initialize:%s:states+" % fam, lambda: feed(X, big), lambda e: d("%r %s" % (big, e)))
        if small is not None:
            obs.ev("init:states-")
            rejects(obs, "initialize:%s:states-" % fam, lambda: feed(X, small), lambda e: d("%r %s" % (small, e)))
    if fam in ("graph", "chain", "edgefeat", "latnode", "multiclass"):
        # class weights of the wrong length, with and without known sizes
        m0 = q.make() if q.scalar else q.make("max-product")
        n = q.n_states if fam != "latnode" else m0.n_labels
        for delta in (-1, 1):
            if n + delta < 1:
                continue
            obs.ev("init:class-weight")
            bad = copy.copy(q)
            bad.class_weight = np.ones(n + delta) + np.arange(n + delta)
            rejects(obs, "class-weight:%s:constructor" % fam, lambda: bad.make() if q.scalar else bad.make("max-product"), d)

            def later():
                m = bad.make(explicit=False) if q.scalar else bad.make("max-product", explicit=False)
                m.initialize(arr(X) if q.scalar else X, arr(Y) if q.scalar else Y)
            rejects(obs, "class-weight:%s:initialize" % fam, later, d)
    obs.nontrivial("init", ds.describe())


def constructors(rng, obs):
    from pystruct import models as M, learners as L
    from pystruct.utils import make_grid_edges
    obs.ev("constructor")
    E, S, F = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    k = int(rng.integers(E))
    over = E + int(rng.integers(0, 3))
    d = lambda e="": "E=%d S=%d F=%d k=%d over=%d %s" % (E, S, F, k, over, e)

    def with_data(**kw):
        m = M.EdgeFeatureGraphCRF(inference_method="ad3", **kw)
        x = (np.zeros((2, F)), np.array([[0, 1]]), np.zeros((1, E)))
        m.initialize([x], [np.arange(2)])
    per = [int(v) for v in rng.integers(1, 3, size=3)]
    T = 2
    ok = dict(n_types=T, l_n_states=[2, 3], l_n_features=[1, 2], a_n_edge_features=[[1, 2], [2, 1]])
    typed = lambda **kw: M.NodeTypeEdgeFeatureGraphCRF(**dict(ok, **kw))
    typed()
    inst = M.MultiClassClf(n_features=2, n_classes=2, rescale_C=True)
    todo = [
        ("symmetric>=", lambda: M.EdgeFeatureGraphCRF(S, F, E, symmetric_edge_features=[over])),
        ("antisymmetric>=", lambda: M.EdgeFeatureGraphCRF(S, F, E, antisymmetric_edge_features=[k, over])),
        ("overlap", lambda: M.EdgeFeatureGraphCRF(S, F, E, symmetric_edge_features=[k], antisymmetric_edge_features=[k])),
        ("symmetric>=:data", lambda: with_data(symmetric_edge_features=[over])),
        ("antisymmetric>=:data", lambda: with_data(antisymmetric_edge_features=[over])),
        ("overlap:data", lambda: with_data(symmetric_edge_features=[k], antisymmetric_edge_features=[k])),
        ("overlap:latent", lambda: M.EdgeFeatureLatentNodeCRF(
            n_labels=2, n_features=F, n_edge_features=E, symmetric_edge_features=[k], antisymmetric_edge_features=[k])),
        ("states-per-label", lambda: M.LatentGraphCRF(n_labels=4, n_features=F, n_states_per_label=per)),
        ("states-per-label:grid", lambda: M.LatentGridCRF(n_labels=2, n_features=F, n_states_per_label=per)),
        ("typed:states", lambda: typed(l_n_states=[2])),
        ("typed:features", lambda: typed(l_n_features=[1, 2, 3])),
        ("typed:states+", lambda: typed(l_n_states=[2, 3, 2])),
        ("typed:features-", lambda: typed(l_n_features=[1])),
        ("typed:edge-features-large", lambda: typed(a_n_edge_features=[[1, 2, 1], [2, 1, 1], [1, 1, 1]])),
        ("typed:class-weight-types+", lambda: typed(l_class_weight=[[1., 2.], [1., 2., 3.], [1.]])),
        ("typed:edge-features-shape", lambda: typed(a_n_edge_features=[[1, 2]])),
        ("typed:edge-features-symmetric", lambda: typed(a_n_edge_features=[[1, 2], [1, 1]])),
        ("typed:class-weight-types", lambda: typed(l_class_weight=[[1., 2.]])),
        ("typed:class-weight-states", lambda: typed(l_class_weight=[[1., 2.], [1., 2.]])),
        ("typed:method", lambda: typed().setInferenceMethod("lp")),
        ("class-weight", lambda: M.GraphCRF(S, F, class_weight=np.ones(S + 1))),
        ("class-weight:chain", lambda: M.ChainCRF(S + 1, F, class_weight=np.ones(S))),
        ("class-weight:multiclass", lambda: M.MultiClassClf(F, S, class_weight=np.ones(S + 2))),
        ("neighborhood", lambda: make_grid_edges(np.zeros((3, 3, 1)), neighborhood=int(rng.choice([0, 5, 6, 16])))),
        ("sample_method", lambda: L.FrankWolfeSSVM(inst, sample_method=str(rng.choice(["Perm", "random", ""])))),
        ("binary-label", lambda: M.BinaryClf(2).joint_feature(np.ones(2), int(rng.choice([0, 2, -2])))),
        ("no-y-true", lambda: inst.joint_feature(np.ones(2), 1)),
        ("no-y-true:batch", lambda: inst.batch_joint_feature(np.ones((1, 2)), np.array([1]))),
    ]
    for name, f in todo:
        rejects(obs, "constructor:" + name, f, d)
    defaults(rng, obs, S, F)
    # the same with correct arguments
    M.EdgeFeatureGraphCRF(S, F, E, symmetric_edge_features=[k])
    M.EdgeFeatureGraphCRF(S, F, E + 1, symmetric_edge_features=[k], antisymmetric_edge_features=[E])
    M.LatentGraphCRF(n_labels=3, n_features=F, n_states_per_label=per)
    M.GraphCRF(S, F, class_weight=np.ones(S))
    obs.nontrivial("constructor", d())


def defaults(rng, obs, S, F):
    """arguments left out have their documented values"""
    from pystruct import models as M
    obs.ev("defaults")
    sym = S * (S + 1) // 2
    sym2 = lambda k: k * (k + 1) // 2
    h, w, E = int(rng.integers(2, 4)), int(rng.integers(2, 4)), 1
    k = 2 * S
    four = h * (w - 1) + w * (h - 1)
    sizes = [
        ("graph", M.GraphCRF(S, F), S * F + sym),
        ("grid", M.GridCRF(S, F), S * F + sym),
        ("dirgrid", M.DirectionalGridCRF(S, F), S * F + 2 * S * S),
        ("edgefeat", M.EdgeFeatureGraphCRF(S, F, E), S * F + E * S * S),
        ("latgraph", M.LatentGraphCRF(S, F), k * F + sym2(k)),
        ("latgrid", M.LatentGridCRF(S, F), k * F + sym2(k)),
        ("latdirgrid", M.LatentDirectionalGridCRF(S, F), k * F + 2 * k * k),
        ("latnode", M.LatentNodeCRF(S, F), S * F + sym2(S + 2)),
        ("eflatnode", M.EdgeFeatureLatentNodeCRF(n_labels=2, n_features=F), 2 * F + 16),
        ("binary", M.BinaryClf(F), F), ("multiclass", M.MultiClassClf(F, S), F * S)]
    for name, m, size in sizes:
        obs.check(m.size_joint_feature == size, "default-size:" + name, lambda: "S=%d F=%d size %r expected %d" % (
            S, F, m.size_joint_feature, size))
    # the neighbours of a grid: all nodes in state 0, the pairwise features count the edges
    x, y = np.zeros((h, w, F)), np.zeros((h, w), int)
    for name, m in (("grid", M.GridCRF(S, F)), ("dirgrid", M.DirectionalGridCRF(S, F)), ("latgrid", M.LatentGridCRF(S, F)),
                    ("latdirgrid", M.LatentDirectionalGridCRF(S, F))):
        got = float(np.sum(m.joint_feature(x, y)))
        obs.check(got == four, "default-neighbours:" + name, lambda: "%d x %d: %r edges expected %d" % (h, w, got, four))
    # no rescaling: joint features do not need the truth; unit class weights in the loss
    m = M.MultiClassClf(F, S)
    v = m.joint_feature(np.ones(F), 0)
    obs.check(np.sum(v) == F, "default-rescale", lambda: repr(v))
    for m in (M.GraphCRF(S, F), M.ChainCRF(S, F), M.EdgeFeatureGraphCRF(S, F, E)):
        if S > 1:
            l = m.loss(np.zeros(3, int), np.array([1, 0, S - 1]))
            obs.check(l == 2, "default-class-weight", lambda: "%r %r" % (type(m), l))
    # first state: the same potentials in both directions unless directed
    if S > 1:
        m, d = M.GraphCRF(S, F), M.GraphCRF(S, F, directed=True)
        for a, b in ((0, S - 1), (S - 1, 0)):
            g = (np.zeros((2, F)), np.array([[0, 1]]))
            u, v = m.joint_feature(g, np.array([a, b])), m.joint_feature(g, np.array([b, a]))
            obs.check(np.array_equal(u, v), "default-directed", lambda: "%r %r" % (u, v))
        obs.check(d.size_joint_feature == S * F + S * S, "directed-size", lambda: repr(d.size_joint_feature))
    t = M.NodeTypeEdgeFeatureGraphCRF(2, [2, 3], [1, 2], [[1, 2], [2, 1]])
    xt = ([np.ones((1, 1)), np.ones((1, 2))], [np.zeros((0, 2), int)] * 4,
          [np.zeros((0, 1)), np.zeros((0, 2)), np.zeros((0, 2)), np.zeros((0, 1))])
    wt = np.zeros(t.size_joint_feature)
    wt[1], wt[2 + 4] = 1., 1.
    got = t.inference(xt, wt)
    obs.check(np.array_equal(got, [1, 4]), "default-typed", lambda: repr(got))
    l = t.loss(np.array([0, 2]), np.array([1, 3]))
    obs.check(l == 2, "default-typed-loss", lambda: repr(l))


def potentials(rng, obs):
    from pystruct.inference import inference_dispatch, compute_energy
    from pystruct import inference as I
    n, S = int(rng.integers(2, 6)), int(rng.integers(2, 4))
    edges = np.zeros((0, 2), int)
    while not len(edges):
        edges = gen_edges(rng, n, str(GRAPH_KINDS[int(rng.integers(len(GRAPH_KINDS)))]))
    E = len(edges)
    obs.ev("potentials")
    U = rng.normal(size=(n, S))
    shapes = [(E + 1, S, S), (E - 1, S, S), (S, S + 1), (E, S, S + 1), (E, S + 1, S + 1), (S + 1, S + 1), (S - 1, S),
              (E, S), (E, S * S), (S,)]
    shape = shapes[int(rng.integers(len(shapes)))]
    P = rng.normal(size=shape)
    d = lambda e="": "n=%d S=%d edges=%r pairwise %r\n%s" % (n, S, edges.tolist(), shape, e)
    lab = rng.integers(0, S, size=n)
    if shape not in ((S, S), (E, S, S)):
        for m in ("max-product", "lp", "ad3", "unary"):
            rejects(obs, "potentials:" + m, lambda: inference_dispatch(U, P, edges, m), d)
        for name in ("inference_max_product", "inference_lp", "inference_ad3"):
            if hasattr(I, name):
                rejects(obs, "potentials:" + name, lambda: getattr(I, name)(U, P, edges), d)
        rejects(obs, "potentials:compute_energy", lambda: compute_energy(U, P, edges, lab), d)
    good = rng.normal(size=(E, S, S))
    for m in ("max_product", "ad4", "", "LP", "exhaustive"):
        rejects(obs, "method:dispatch", lambda: inference_dispatch(U, good, edges, m), lambda e: d("%r %s" % (m, e)))
    obs.nontrivial("potentials", n, S, edges.tolist(), shape)


def learners(rng, obs, fam):
    """fit and predict with data that contradicts the model"""
    from pystruct import learners as L
    ds = Dataset(rng, fam, int(rng.integers(2, 4)), maxlab=100)
    q = ds.first
    if q.latent or not can_initialize(ds) or fam == "typed":
        obs.ev("not-usable")
        return
    obs.ev("fam:" + fam)
    obs.ev("learner")
    mk = lambda: ds.make() if q.scalar else ds.make("max-product")
    d = lambda e="": "%s\n%s" % (ds.describe(), e)
    X, Y = ds.X(), ds.Y()
    bads = [corrupt_x(s, rng) for s in ds.insts]
    arr = (lambda Z: np.array(Z)) if fam in ("multiclass", "binary", "multilabel") else (lambda Z: Z)
    kinds = [lambda m: L.OneSlackSSVM(m, max_iter=3), lambda m: L.NSlackSSVM(m, max_iter=3),
             lambda m: L.SubgradientSSVM(m, max_iter=3), lambda m: L.FrankWolfeSSVM(m, max_iter=3),
             lambda m: L.StructuredPerceptron(m, max_iter=3)]
    if getattr(q, "rescale", False):
        kinds = kinds[:3]
    j = int(rng.integers(len(kinds)))
    for k in ("feat+", "feat-"):
        if all(k in b for b in bads):
            model = mk()
            model.inference_calls = 0
            Xb = arr([b[k] for b in bads])
            rejects(obs, "fit:%s:%s" % (fam, k), lambda: kinds[j](model).fit(Xb, arr(Y)), d)
            obs.check(model.inference_calls == 0, "fit-computed:%s:%s" % (fam, k), lambda: d(model.inference_calls))
    learner = kinds[j](mk())
    learner.fit(arr(X), arr(Y))
    for k in sorted(bads[0]):
        if all(k in b for b in bads) and k not in ("edge-out-of-range", "edge-negative"):
            Xb = arr([b[k] for b in bads])
            rejects(obs, "predict:%s:%s" % (fam, k), lambda: learner.predict(Xb), d)
            if not getattr(q, "rescale", False):
                rejects(obs, "score:%s:%s" % (fam, k), lambda: learner.score(Xb, arr(Y)), d)
    learner.predict(arr(X))
    obs.nontrivial("learner", ds.describe(), j)


def inferred(rng, obs, fam):
    ds = Dataset(rng, fam, int(rng.integers(1, 4)), maxlab=200)
    q = ds.first
    ok = initable(ds) if q.latent else can_initialize(ds)
    if not ok or fam in ("eflatnode", "typed"):
        obs.ev("not-all-states")
        return
    obs.ev("fam:" + fam)
    obs.ev("inferred")
    method = None if q.scalar else "max-product"
    a = q.make(explicit=False) if q.scalar else q.make(method, explicit=False)
    b = q.make() if q.scalar else q.make(method)
    X, Y = ds.X(), ds.visible() if q.latent else ds.Y()
    if fam in ("multiclass", "binary", "multilabel") or q.latent and q.grid:
        X, Y = np.array(X), np.array(Y)
    d = lambda e="": "%s\n%s" % (ds.describe(), e)
    for _ in range(2):
        a.initialize(X, Y)
        names = ["size_joint_feature", "n_states", "n_features", "n_labels", "n_edge_features", "class_weight",
                 "n_states_per_label", "_states_map", "n_input_states"]
        for nm in names:
            if hasattr(b, nm):
                va, vb = getattr(a, nm, "missing"), getattr(b, nm)
                same = np.array_equal(np.asarray(va), np.asarray(vb)) if vb is not None else va is None
                obs.check(same, "inferred:%s:%s" % (fam, nm), lambda: d("%s: %r, expected %r" % (nm, va, vb)))
        obs.ev("reinitialised")
    w = rng.normal(size=ds.wdim)
    obs.ev("inferred-behaviour")
    for s in ds.insts:
        y = s.fmt(s.rand_flat(rng))
        for o, f in calls(a, s, s.x, y, w, rng).items():
            r, t = f(), calls(b, s, s.x, y, w, rng)[o]()
            obs.check(np.array_equal(np.asarray(r), np.asarray(t)), "inferred-behaviour:%s:%s" % (fam, o),
                      lambda: d("%s %r %r" % (o, r, t)))
        la, lb = a.loss(y, s.fmt(s.rand_flat(rng))), None
        obs.check(np.ndim(la) == 0 and a.max_loss(np.asarray(y)) == b.max_loss(np.asarray(y)), "inferred-behaviour:%s:loss" % fam, d)
    obs.nontrivial("inferred", ds.describe())
