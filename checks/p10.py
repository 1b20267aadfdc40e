"""Typed graphs: label ranges, flattening, isolation of the blocks of the joint feature, rejection of malformed data."""
import numpy as np
from vlib.inst import TypedInst, gen_edges, gen_feats, close

CASES = {"quick": 6400, "thorough": 60000}
MIN_EVENTS = {"range": 3000, "roundtrip": 3000, "isolation": 6000, "rejected": 30000, "constructor": 500,
              "empty-type": 300, "relaxed": 100, "edges-without-features": 200, "accepted": 3000, "constrained-exception": 40, "constrained-fractional": 4, "none-nodes": 150, "fractional": 60, "integral": 100}
RULE = ("Random typed models (1-4 types, 1-3 states, empty types, None blocks, edge types without features). Monitors: "
        "label ranges of inference and loss-augmented inference with ad3/ad3+ (rounded and relaxed), flatten/unflatten "
        "identity, which weight blocks change when the features, edges or labels of one type change, and an exception "
        "for each of ~25 kinds of corruption at every entry point. Non-trivial: at least two types, or an edge; "
        "distinct by instance.")


def copyx(x):
    return ([None if a is None else np.array(a) for a in x[0]], [None if a is None else np.array(a) for a in x[1]],
            [None if a is None else np.array(a) for a in x[2]])


def bad_inputs(rng, inst, x):
    """(name, x) pairs, each with exactly one defect"""
    T = inst.T
    out = []

    def add(name, f):
        b = copyx(x)
        b = f(b) or b
        out.append((name, b))
    t = int(rng.integers(T))
    nf = x[0][t] if x[0][t] is not None else np.zeros((0, inst.lF[t]))

    def width(b, d):
        b[0][t] = np.zeros((len(nf), inst.lF[t] + d)) + 1.
    add("node-width+", lambda b: width(b, 1))
    if inst.lF[t] > 1:
        add("node-width-", lambda b: width(b, -1))
    add("types-", lambda b: (b[0][:-1], b[1], b[2]))
    add("types+", lambda b: (b[0] + [np.ones((2, 1))], b[1], b[2]))
    add("edges-", lambda b: (b[0], b[1][:-1], b[2]))
    add("edges+", lambda b: (b[0], b[1] + [np.zeros((0, 2), int)], b[2]))
    add("efeats-", lambda b: (b[0], b[1], b[2][:-1]))
    add("efeats+", lambda b: (b[0], b[1], b[2] + [np.zeros((0, 1))]))
    ks = [k for k, e in enumerate(x[1]) if e is not None and len(e)]
    if ks:
        k = int(rng.choice(ks))
        t1, t2 = divmod(k, T)
        e = x[1][k]
        r = int(rng.integers(len(e)))

        def setedge(b, col, v):
            b[1][k][r, col] = v
        # an index just behind the nodes of the type (which may well be a node of the next type) and far outside
        for name, off in (("", 0), ("-far", 50)):
            add("source-missing" + name, lambda b: setedge(b, 0, inst.ln[t1] + off))
            add("target-missing" + name, lambda b: setedge(b, 1, inst.ln[t2] + off))
        add("source-negative", lambda b: setedge(b, 0, -1))
        add("target-negative", lambda b: setedge(b, 1, -1))

        def ef(b, v):
            b[2][k] = v

        def ed(b, v):
            b[1][k] = v
        f = x[2][k]
        add("efeat-rows+", lambda b: ef(b, np.vstack([f, f[:1]])))
        add("efeat-rows-", lambda b: ef(b, f[:-1]))
        add("efeat-cols+", lambda b: ef(b, np.hstack([f, np.ones((len(f), 1))])))
        if f.shape[1] > 0:
            add("efeat-cols-", lambda b: ef(b, f[:, :-1]))
        add("efeat-none", lambda b: ef(b, None))
        add("edges-none", lambda b: ed(b, None))
        add("edges-empty", lambda b: ed(b, np.zeros((0, 2), int)))
        add("edges-3col", lambda b: ed(b, np.hstack([e, e[:, :1]])))
        add("edges-1d", lambda b: ed(b, e.ravel()))
        add("edges-more", lambda b: ed(b, np.vstack([e, e[:1]])))
        if k != T * T - 1 and inst.nE.ravel()[k + 1] != inst.nE.ravel()[k]:
            def shift(b):
                b[1].insert(0, b[1].pop())
                b[2].insert(0, b[2].pop())
            k2 = (k + 1) % (T * T)
            if f.shape[1] != inst.nE.ravel()[k2]:
                add("blocks-shifted", shift)
    return out


def bad_labels(rng, inst, y):
    out = []
    n = len(y)
    tot = inst.start[-1]
    i = int(rng.integers(n))
    t = inst.typ[i]

    def put(name, v):
        b = y.copy()
        b[i] = v
        out.append((name, b))
    put("negative", -1)
    put("beyond", tot)
    put("far", tot + 1000)
    if t + 1 < inst.T:
        put("next-type", inst.start[t + 1])
    if t > 0:
        put("previous-type", inst.start[t] - 1)
        put("zero", 0)
    out.append(("short", y[:-1]))
    out.append(("long", np.hstack([y, y[-1:]])))
    if n > 1:
        out.append(("column", y[:, None]))
    return out


def rejected(obs, what, name, f, d):
    obs.n_checks += 1
    try:
        r = f()
    except (SystemError, MemoryError):
        raise
    except Exception:
        obs.ev("rejected")
        return
    obs.fail("accepted:%s:%s" % (what, name), lambda: d("%s with %s returned %r" % (what, name, r)))


def blocks(inst):
    out = {}
    for t in range(inst.T):
        out["u", t] = slice(inst.uoffs[t], inst.uoffs[t] + inst.lS[t] * inst.lF[t])
    for (a, b), o in inst.poffs.items():
        out["p", a, b] = slice(o, o + int(inst.nE[a, b]) * inst.lS[a] * inst.lS[b])
    return out


def only(obs, inst, v1, v2, allowed, what, d):
    obs.ev("isolation")
    bad = [k for k, s in blocks(inst).items() if k not in allowed and not close(v1[s], v2[s])]
    obs.check(not bad, "block:" + what, lambda: d("%s changed blocks %r" % (what, bad)))


def exceptions(rng, obs):
    """setInferenceException: rounding a fractional solution is refused exactly when asked for"""
    from pystruct.inference import InferenceException
    from pystruct.models import NodeTypeEdgeFeatureGraphCRF
    meth = str(rng.choice(["ad3", "ad3+"]))
    T = int(rng.choice([1, 1, 2]))
    if rng.random() < .6:
        # repulsive interactions around odd cycles
        S = [2] * T
        ln = [int(rng.integers(3, 6)) for _ in range(T)]
        model = NodeTypeEdgeFeatureGraphCRF(T, S, [1] * T, np.ones((T, T), int), inference_method=meth)
        edges, ef = [], []
        for a in range(T):
            for b in range(T):
                m = 3 + int(rng.integers(0, 3)) if a == b else int(rng.integers(0, 3))
                e = [(0, 1), (1, 2), (2, 0)] if a == b else []
                e += [(int(rng.integers(ln[a])), int(rng.integers(ln[b]))) for _ in range(m - len(e))]
                e = [q for q in e if a != b or q[0] != q[1]]
                edges.append(np.array(e, int).reshape(-1, 2))
                ef.append(np.ones((len(e), 1)))
        x = ([rng.normal(size=(k, 1)) * .2 for k in ln], edges, ef)
        pw = [np.array([[-1., 1.], [1., -1.]]) * float(rng.choice([1., 2.])) for _ in range(T * T)]
        w = np.hstack([rng.normal(size=2 * T) * .3] + [q.ravel() for q in pw])
        starts = np.cumsum([0] + S)
    else:
        inst = TypedInst(rng, T=int(rng.choice([1, 2, 3])), maxlab=600, acyclic=False)
        model, x, w = inst.make(meth), inst.x, inst.rand_w(rng)
        T, ln, starts = inst.T, inst.ln, inst.start
    d = lambda e="": "%s x=%r w=%r\n%s" % (meth, x, w.tolist(), e)

    def valid(y):
        y = np.asarray(y)
        off = np.cumsum([0] + list(ln))
        return y.shape == (off[-1],) and y.dtype.kind in "iu" and all(
            ((y[off[t]:off[t + 1]] >= starts[t]) & (y[off[t]:off[t + 1]] < starts[t + 1])).all() for t in range(T))
    if rng.random() < .3:
        model.setInferenceException(True)
        model.setInferenceException(False)
    r = model.inference(x, w, relaxed=True)
    fractional = isinstance(r, tuple)
    y = model.inference(x, w)
    obs.check(valid(y), "rounded", lambda: d("%r" % (y,)))
    model.setInferenceException(True)
    r2 = model.inference(x, w, relaxed=True)
    obs.check(isinstance(r2, tuple) == fractional, "exception:relaxed", lambda: d("%r %r" % (r, r2)))
    try:
        z = model.inference(x, w)
        raised = False
    except InferenceException:
        raised = True
    obs.ev("fractional" if fractional else "integral")
    obs.check(raised == fractional, "exception:inference", lambda: d("raised %r, relaxed solution %r" % (raised, r)))
    obs.check(raised or np.array_equal(z, y), "exception:result", lambda: d("%r %r" % (z, y)))
    model.setInferenceException(False)
    obs.check(np.array_equal(model.inference(x, w), y), "exception:off", d)


def constrained_exceptions(rng, obs):
    """the same under hard logic constraints (in a child process: the external solver can crash)"""
    from pystruct.inference import InferenceException
    from checks.p11 import forked, gen_set

    class Quiet(object):
        def ev(self, *a):
            pass
    for _ in range(40):
        inst = TypedInst(rng, T=int(rng.choice([1, 2, 3])), maxlab=300, acyclic=False)
        w = inst.rand_w(rng)
        al = inst.all_flat()
        if len(inst.edges) and len(inst.doms) > 1 and np.abs(inst.scores(w, al)).max() < 1e3:
            break
    else:
        return
    cons, _ = gen_set(rng, inst, al, Quiet())
    if not cons:
        return
    model, x = inst.make("ad3+"), inst.x
    d = lambda e="": "%s constraints=%r w=%r\n%s" % (inst.describe(), cons, w.tolist(), e)

    def run():
        out = [model.inference(x, w, constraints=cons, relaxed=True), model.inference(x, w, constraints=cons)]
        model.setInferenceException(True)
        for f in (lambda: model.inference(x, w, constraints=cons),
                  lambda: model.batch_inference([x], w, constraints=[cons])[0]):
            try:
                out.append(f())
            except InferenceException:
                out.append("refused")
        return out
    r = forked(run)
    if r is None:
        obs.ev("solver-crash")
        return
    obs.ev("constrained-exception")
    fractional = isinstance(r[0], tuple)
    obs.ev("constrained-fractional", fractional)
    for z in r[2:]:
        obs.check((isinstance(z, str)) == fractional, "exception:constrained", lambda: d("%r" % (r,)))
        obs.check(isinstance(z, str) or np.array_equal(z, r[1]), "exception:constrained-result", lambda: d("%r" % (r,)))
    obs.nontrivial("constrained-exception", inst.describe(), repr(cons), w.tobytes())


def case(rng, i, obs, tier):
    if i % 8 == 6:
        constrained_exceptions(rng, obs) if i % 5 == 3 else exceptions(rng, obs)
        return
    inst = TypedInst(rng, T=int(rng.choice([1, 2, 2, 2, 3, 3, 4])), maxlab=600)
    T = inst.T
    x = inst.x
    d = lambda e="": "%s cw=%s\nx=%r\n%s" % (inst.describe(), inst.lcw, x, e)
    # edges of a type pair without features: documented to be ignored
    nofeat = False
    if rng.random() < .3:
        for k in range(T * T):
            a, b = divmod(k, T)
            if inst.nE[a, b] == 0 and inst.ln[a] and inst.ln[b] and rng.random() < .7:
                m = int(rng.integers(1, 3))
                x[1][k] = np.c_[rng.integers(0, inst.ln[a], m), rng.integers(0, inst.ln[b], m)]
                x[2][k] = np.zeros((m, 0))
                nofeat = True
    if nofeat:
        obs.ev("edges-without-features")
    none_nodes = any(k == 0 for k in inst.ln) and rng.random() < .5
    if none_nodes:
        obs.ev("none-nodes")
        for t in range(T):
            if inst.ln[t] == 0:
                x[0][t] = None
    if any(k == 0 for k in inst.ln):
        obs.ev("empty-type")
    if inst.lcw is not None and rng.random() < .5:
        obs.ev("class-weights")
    meth = ["ad3", "ad3+", ("ad3", {"branch_and_bound": True})][rng.integers(3)]
    model = inst.make(meth)
    w = inst.rand_w(rng)
    y = inst.rand_flat(rng)
    # --- valid data is accepted
    model.initialize([x, copyx(x)], [y, y])
    model.initialize(x, y)
    model.initialize(x)
    obs.ev("accepted")
    # --- label ranges
    for mode in ("inference", "lai"):
        rel = rng.random() < .4
        r = model.inference(x, w, relaxed=rel) if mode == "inference" else \
            model.loss_augmented_inference(x, y, w, relaxed=rel)
        if isinstance(r, tuple):
            obs.ev("relaxed")
            u, p = r
            obs.check(rel and [np.shape(a) for a in u] == [(inst.ln[t], inst.lS[t]) for t in range(T)],
                      "relaxed-shape", lambda: d("%s %r" % (mode, r)))
            obs.check(model.joint_feature(x, r).shape == (inst.wdim,), "relaxed-jf", d)
        else:
            obs.ev("range")
            obs.check(inst.ok_labels(r), "label-range:" + mode, lambda: d("%s %r w=%r" % (meth, r, w.tolist())))
    # --- flatten / unflatten
    per = [y[inst.noff[t]:inst.noff[t + 1] if t + 1 < T else None][:inst.ln[t]] - inst.start[t] for t in range(T)]
    style = rng.integers(3)
    src = [p.tolist() if style == 1 else p.astype(np.int32) if style == 2 else p for p in per]
    fl = model.flattenY(src)
    obs.ev("roundtrip")
    obs.check(np.asarray(fl).dtype.kind == "i" and np.array_equal(fl, y), "flatten", lambda: d("%r -> %r" % (src, fl)))
    back = model.unflattenY(x, fl)
    obs.check(len(back) == T and all(np.array_equal(a, b) for a, b in zip(back, per)), "unflatten",
              lambda: d("%r -> %r" % (fl, back)))
    obs.check(np.array_equal(model.flattenY(back), y), "round-trip", d)
    rejected(obs, "unflattenY", "long", lambda: model.unflattenY(x, np.hstack([y, y[-1:]])), d)
    rejected(obs, "unflattenY", "short", lambda: model.unflattenY(x, y[:-1]), d)
    rejected(obs, "flattenY", "types-", lambda: model.flattenY(per[:-1]), d)
    rejected(obs, "flattenY", "types+", lambda: model.flattenY(per + [per[-1]]), d)
    # --- isolation of the blocks
    v = model.joint_feature(x, y)
    obs.check(v.shape == (inst.wdim,) == (model.size_joint_feature,), "size", lambda: d("%r" % v))
    rel = inst.onehot_lists(y)
    if not nofeat:
        obs.check(close(model.joint_feature(x, rel), v), "onehot", d)
    t = int(rng.integers(T))
    if inst.ln[t]:
        b = copyx(x)
        b[0][t] = gen_feats(rng, b[0][t].shape)
        only(obs, inst, v, model.joint_feature(b, y), {("u", t)}, "node-features", d)
        y2 = y.copy()
        sl = slice(inst.noff[t], inst.noff[t] + inst.ln[t])
        y2[sl] = rng.integers(inst.start[t], inst.start[t + 1], size=inst.ln[t])
        ok = {("u", t)} | {("p", t, s) for s in range(T)} | {("p", s, t) for s in range(T)}
        only(obs, inst, v, model.joint_feature(x, y2), ok, "labels", d)
    k = int(rng.integers(T * T))
    t1, t2 = divmod(k, T)
    if inst.ln[t1] and inst.ln[t2] and inst.nE[t1, t2]:
        b = copyx(x)
        m = int(rng.integers(0, 4))
        b[1][k] = np.c_[rng.integers(0, inst.ln[t1], m), rng.integers(0, inst.ln[t2], m)].astype(int)
        b[2][k] = gen_feats(rng, (m, int(inst.nE[t1, t2])))
        only(obs, inst, v, model.joint_feature(b, y), {("p", t1, t2)}, "edges", d)
    # --- malformed instances
    for name, b in bad_inputs(rng, inst, x):
        rejected(obs, "initialize", name, lambda: model.initialize([x, b], [y, y]), d)
        rejected(obs, "initialize1", name, lambda: model.initialize(b), d)
        rejected(obs, "joint_feature", name, lambda: model.joint_feature(b, y), d)
        rejected(obs, "inference", name, lambda: model.inference(b, w), d)
        rejected(obs, "lai", name, lambda: model.loss_augmented_inference(b, y, w), d)
    for name, b in bad_labels(rng, inst, y):
        rejected(obs, "initialize-y", name, lambda: model.initialize([x, x], [y, b]), d)
        rejected(obs, "initialize1-y", name, lambda: model.initialize(x, b), d)
        rejected(obs, "joint_feature-y", name, lambda: model.joint_feature(x, b), d)
        rejected(obs, "lai-y", name, lambda: model.loss_augmented_inference(x, b, w), d)
    if i % 4 == 0:
        from pystruct.models import NodeTypeEdgeFeatureGraphCRF as N
        obs.ev("constructor")
        lS, lF, nE = list(inst.lS), list(inst.lF), inst.nE.tolist()
        rejected(obs, "constructor", "states+", lambda: N(T, lS + [2], lF, nE), d)
        rejected(obs, "constructor", "states-", lambda: N(T, lS[:-1], lF, nE), d)
        rejected(obs, "constructor", "features+", lambda: N(T, lS, lF + [1], nE), d)
        rejected(obs, "constructor", "matrix", lambda: N(T, lS, lF, np.ones((T + 1, T + 1), int)), d)
        if T > 1:
            A = inst.nE.copy()
            A[0, 1] = A[1, 0] + 1
            rejected(obs, "constructor", "asymmetric", lambda: N(T, lS, lF, A), d)
        rejected(obs, "constructor", "method", lambda: N(T, lS, lF, nE, inference_method="lp"), d)
        cw = [np.ones(s) for s in lS]
        N(T, lS, lF, nE, l_class_weight=cw)
        rejected(obs, "constructor", "weights-", lambda: N(T, lS, lF, nE, l_class_weight=cw[:-1] + [
            np.ones(lS[-1] + 1)]), d)
        if T > 1:
            rejected(obs, "constructor", "weights-types", lambda: N(T, lS, lF, nE, l_class_weight=cw[:-1]), d)
        for wl in (len(w) + 1, len(w) - 1):
            rejected(obs, "inference", "weights", lambda: model.inference(x, np.ones(wl)), d)
            rejected(obs, "lai", "weights", lambda: model.loss_augmented_inference(x, y, np.ones(wl)), d)
    if T > 1 or len(inst.edges):
        obs.nontrivial(inst.describe(), w[:4].round(4).tolist())
        obs.sample(d())
