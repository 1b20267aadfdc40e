"""Metamorphic comparison: the same problem through different models, and relabelled problems."""
import copy

import numpy as np
from vlib.inst import (GraphInst, ChainInst, GridInst, EdgeFeatInst, DirGridInst, LatGraphInst, MultiClassInst,
                       MultiLabelInst, TypedInst, BinaryInst, close)

CASES = {"quick": 5000, "thorough": 70000}
KINDS = ("chain-graph", "grid-graph", "dirgrid-edgefeat", "edgefeat-directed", "typed-edgefeat", "latgraph-graph",
         "multiclass-graph", "binary-multilabel", "latgrid-grid", "multilabel-graph", "perm-graph", "perm-edgefeat",
         "perm-typed", "perm-multilabel", "states-graph", "states-edgefeat", "reverse-graph", "reverse-edgefeat",
         "types-typed")
MIN_EVENTS = {"large": 800, "optimum_compared": 3000, "loss": 5000}
MIN_EVENTS.update({k: 120 for k in KINDS})
RULE = ("19 pairs of equivalent formulations (model families, node permutation, edge order and direction, state and "
        "type renaming) on random instances up to 60 nodes: joint features, scores, losses of random labelings and the "
        "optimal objectives of both sides. Non-trivial: more than one labeling; distinct by instance and weights.")
BB = ("ad3", {"branch_and_bound": True})
BIG = 10 ** 40


class Side(object):
    """one formulation: model, input, weights; enc maps a flat labeling of the first formulation to a y here"""

    def __init__(self, model, x, w, enc, dec):
        self.model, self.x, self.w, self.enc, self.dec = model, x, np.asarray(w, float), enc, dec


def ident(shape=None):
    return lambda f: np.asarray(f) if shape is None else np.asarray(f).reshape(shape)


def small(rng, cls, **kw):
    if rng.random() < .35:
        return cls(rng, maxlab=BIG, **kw), True
    return cls(rng, maxlab=3000, **kw), False


def biggraph(rng, cls, big, **kw):
    """large instances are acyclic, so that max-product is exact"""
    if big:
        kw.update(n=int(rng.integers(8, 60)), maxlab=BIG)
        if cls is not ChainInst:
            kw["kind"] = ["chain", "chain_perm", "star", "tree", "forest", "pairs"][rng.integers(6)]
    return cls(rng, **kw)


def case(rng, i, obs, tier):
    from pystruct import models as M
    kind = KINDS[i % len(KINDS)]
    obs.ev(kind)
    big = rng.random() < .3
    jf_same = lambda a, b: close(a, b, rtol=1e-8, atol=1e-7)
    jmap = None
    loss_scale = 1.
    score_scale = 1.
    if kind == "chain-graph":
        inst = biggraph(rng, ChainInst, big)
        meth = "max-product" if big else BB
        A = inst.make(meth)
        B = M.GraphCRF(n_states=inst.n_states, n_features=inst.F, directed=inst.directed, inference_method=meth,
                       class_weight=inst.class_weight)
        w = inst.rand_w(rng)
        x2 = (inst.feats, inst.edges)
        a, b = Side(A, inst.x, w, ident(), ident()), Side(B, x2, w, ident(), ident())
        jmap = lambda v: v
    elif kind in ("grid-graph", "dirgrid-edgefeat"):
        cls = GridInst if kind == "grid-graph" else DirGridInst
        inst = cls(rng, h=1, w=int(rng.integers(8, 40)), maxlab=BIG) if big else cls(rng)
        meth = "max-product" if big else BB
        A = inst.make(meth)
        w = inst.rand_w(rng)
        X = inst.x.reshape(-1, inst.F)
        if kind == "grid-graph":
            B = M.GraphCRF(n_states=inst.n_states, n_features=inst.F, inference_method=meth)
            x2 = (X, inst.edges)
        else:
            B = M.EdgeFeatureGraphCRF(n_states=inst.n_states, n_features=inst.F, n_edge_features=inst.E,
                                      inference_method=meth)
            x2 = (X, inst.edges, inst.efeats)
        a = Side(A, inst.x, w, ident(inst.shape), np.ravel)
        b = Side(B, x2, w, ident(), ident())
        jmap = lambda v: v
    elif kind == "edgefeat-directed":
        inst = biggraph(rng, EdgeFeatInst, big, E=1, sym=None)
        inst.efeats = np.ones((len(inst.edges), 1))
        meth = "max-product" if big else BB
        w = inst.rand_w(rng)
        A = inst.make(meth)
        B = M.GraphCRF(n_states=inst.n_states, n_features=inst.F, directed=True, inference_method=meth,
                       class_weight=inst.class_weight)
        a = Side(A, (inst.feats, inst.edges, inst.efeats), w, ident(), ident())
        b = Side(B, (inst.feats, inst.edges), w, ident(), ident())
        jmap = lambda v: v
    elif kind == "typed-edgefeat":
        big = False
        inst = TypedInst(rng, T=1, empty_ok=False)
        k = int(inst.nE[0, 0])
        w = inst.rand_w(rng)
        A = inst.make(BB)
        B = M.EdgeFeatureGraphCRF(n_states=inst.lS[0], n_features=inst.lF[0], n_edge_features=k,
                                  inference_method=BB, class_weight=inst.class_weight)
        e = inst.ledges[0]
        ef = inst.lef[0]
        x2 = (inst.nfeats[0], np.zeros((0, 2), int) if e is None else e, np.zeros((0, k)) if ef is None else ef)
        a, b = Side(A, inst.x, w, ident(), ident()), Side(B, x2, w, ident(), ident())
        jmap = lambda v: v
    elif kind == "latgraph-graph":
        inst = biggraph(rng, GraphInst, big, directed=False, cw=None)
        meth = "max-product" if big else BB
        w = inst.rand_w(rng)
        S = inst.n_states
        A = inst.make(meth)
        B = M.LatentGraphCRF(n_labels=S, n_features=inst.F, n_states_per_label=1 if rng.random() < .5 else [1] * S,
                             inference_method=meth)
        a, b = Side(A, inst.x, w, ident(), ident()), Side(B, inst.x, w, ident(), ident())
        jmap = lambda v: v
    elif kind == "latgrid-grid":
        inst = GridInst(rng, h=1, w=int(rng.integers(8, 40)), maxlab=BIG) if big else GridInst(rng)
        meth = "max-product" if big else BB
        w = inst.rand_w(rng)
        A = inst.make(meth)
        B = M.LatentGridCRF(n_labels=inst.n_states, n_features=inst.F, n_states_per_label=1, inference_method=meth,
                            neighborhood=inst.neighborhood)
        a, b = Side(A, inst.x, w, ident(inst.shape), np.ravel), Side(B, inst.x, w, ident(inst.shape), np.ravel)
        jmap = lambda v: v
    elif kind == "multiclass-graph":
        big = False
        inst = MultiClassInst(rng, rescale=False)
        w = inst.rand_w(rng)
        S, F = inst.n_states, inst.F
        A = inst.make()
        B = M.GraphCRF(n_states=S, n_features=F, inference_method=BB, class_weight=inst.class_weight, directed=True)
        w2 = np.hstack([w, rng.normal(size=S * S)])
        a = Side(A, inst.x, w, lambda f: int(f[0]), lambda y: np.array([int(y)]))
        b = Side(B, (np.asarray(inst.x)[None, :], np.zeros((0, 2), int)), w2, ident(), ident())
        jmap = lambda v: np.hstack([v, np.zeros(S * S)])
    elif kind == "binary-multilabel":
        big = False
        inst = BinaryInst(rng)
        w = inst.rand_w(rng)
        A = inst.make()
        B = M.MultiLabelClf(n_labels=1, n_features=inst.F, inference_method=BB)
        a = Side(A, inst.x, w, lambda f: int(f[0]), lambda y: np.array([int(y)]))
        b = Side(B, np.asarray(inst.x, float), w / 2, lambda f: np.array([(int(f[0]) + 1) // 2]),
                 lambda y: 2 * np.asarray(y) - 1)
        jmap = lambda v: 2 * v
    elif kind == "multilabel-graph":
        # labels as nodes with features +-: unary potential +-u is a two-state graph on a one-dimensional feature
        big = False
        inst = MultiLabelInst(rng)
        w = inst.rand_w(rng)
        n, F = len(inst.doms), inst.F
        A = inst.make(BB)
        B = M.EdgeFeatureGraphCRF(n_states=2, n_features=1, n_edge_features=max(1, len(inst.edges)),
                                  inference_method=BB)
        u = np.array([np.dot(w[l * F:(l + 1) * F], inst.x) for l in range(n)])[:, None]
        x2 = (u, inst.edges, np.eye(max(1, len(inst.edges)))[:len(inst.edges)])
        w2 = np.hstack([[-1., 1.], w[n * F:] if len(inst.edges) else np.zeros(4)])
        a, b = Side(A, inst.x, w, ident(), ident()), Side(B, x2, w2, ident(), ident())
    elif kind in ("perm-graph", "perm-edgefeat"):
        ef = kind == "perm-edgefeat"
        inst = biggraph(rng, EdgeFeatInst if ef else GraphInst, big)
        meth = "max-product" if big else BB
        w = inst.rand_w(rng)
        n = len(inst.doms)
        p = rng.permutation(n)          # new node k is old node p[k]
        inv = np.argsort(p)
        q = rng.permutation(len(inst.edges))
        e2 = inv[inst.edges][q].reshape(-1, 2)
        A = B = inst.make(meth)
        x2 = (inst.feats[p], e2) + ((inst.efeats[q],) if ef else ())
        a = Side(A, inst.x, w, ident(), ident())
        b = Side(B, x2, w, lambda f: np.asarray(f)[p], lambda y: np.asarray(y)[inv])
        jmap = lambda v: v
    elif kind in ("reverse-graph", "reverse-edgefeat"):
        ef = kind == "reverse-edgefeat"
        inst = biggraph(rng, EdgeFeatInst if ef else GraphInst, big)
        meth = "max-product" if big else BB
        w = inst.rand_w(rng)
        S, F = inst.n_states, inst.F
        A = B = inst.make(meth)
        if not ef and not inst.directed:
            # undirected: any subset of edges may be reversed
            fl = rng.random(len(inst.edges)) < .5
            e2 = inst.edges.copy()
            e2[fl] = e2[fl][:, ::-1]
            w2, jmap = w, (lambda v: v)
        else:
            # all edges reversed and all interaction blocks transposed
            e2 = inst.edges[:, ::-1].copy()
            k = inst.E if ef else 1

            def tr(v):
                return np.hstack([v[:S * F], v[S * F:].reshape(k, S, S).transpose(0, 2, 1).ravel()])
            w2, jmap = tr(w), tr
        x2 = (inst.feats, e2) + ((inst.efeats,) if ef else ())
        a, b = Side(A, inst.x, w, ident(), ident()), Side(B, x2, w2, ident(), ident())
    elif kind in ("states-graph", "states-edgefeat"):
        ef = kind == "states-edgefeat"
        inst = biggraph(rng, EdgeFeatInst if ef else GraphInst, big, **({} if ef else {"directed": True}))
        meth = "max-product" if big else BB
        w = inst.rand_w(rng)
        S, F = inst.n_states, inst.F
        p = rng.permutation(S)          # new state p[s] is old state s
        k = inst.E if ef else 1

        def ren(v):
            u, q = np.zeros((S, F)), np.zeros((k, S, S))
            U, Q = v[:S * F].reshape(S, F), v[S * F:].reshape(k, S, S)
            for s in range(S):
                u[p[s]] = U[s]
                for t in range(S):
                    q[:, p[s], p[t]] = Q[:, s, t]
            return np.hstack([u.ravel(), q.ravel()])
        cw2 = None
        if inst.class_weight is not None:
            cw2 = np.zeros(S)
            cw2[p] = inst.class_weight
        i2 = copy.copy(inst)
        i2.class_weight = cw2
        A, B = inst.make(meth), i2.make(meth)
        inv = np.argsort(p)
        a = Side(A, inst.x, w, ident(), ident())
        b = Side(B, inst.x, ren(w), lambda f: p[np.asarray(f)], lambda y: inv[np.asarray(y)])
        jmap = ren
    elif kind == "perm-multilabel":
        big = False
        inst = MultiLabelInst(rng)
        n, F, E = len(inst.doms), inst.F, len(inst.edges)
        w = inst.rand_w(rng)
        p = rng.permutation(n)
        inv = np.argsort(p)
        q = rng.permutation(E)
        A = inst.make(BB)
        B = M.MultiLabelClf(n_labels=n, n_features=F, edges=inv[inst.edges][q].reshape(-1, 2), inference_method=BB)

        def mv(v):
            return np.hstack([v[:n * F].reshape(n, F)[p].ravel(), v[n * F:].reshape(E, 4)[q].ravel()])
        a = Side(A, inst.x, w, ident(), ident())
        b = Side(B, inst.x, mv(w), lambda f: np.asarray(f)[p], lambda y: np.asarray(y)[inv])
        jmap = mv
    elif kind == "perm-typed":
        big = False
        inst = TypedInst(rng)
        w = inst.rand_w(rng)
        A = B = inst.make(BB)
        T = inst.T
        ps = [rng.permutation(k) for k in inst.ln]
        invs = [np.argsort(p) for p in ps]
        nf2 = [f if f is None else f[p] for f, p in zip(inst.nfeats, ps)]
        le2, lf2 = [], []
        for t1 in range(T):
            for t2 in range(T):
                e, f = inst.ledges[t1 * T + t2], inst.lef[t1 * T + t2]
                if e is None or not len(e):
                    le2.append(e)
                    lf2.append(f)
                    continue
                q = rng.permutation(len(e))
                le2.append(np.c_[invs[t1][e[:, 0]], invs[t2][e[:, 1]]][q])
                lf2.append(f[q])
        gp = np.hstack([p + o for p, o in zip(ps, inst.noff)]).astype(int)
        gi = np.argsort(gp)
        a = Side(A, inst.x, w, ident(), ident())
        b = Side(B, (nf2, le2, lf2), w, lambda f: np.asarray(f)[gp], lambda y: np.asarray(y)[gi])
        jmap = lambda v: v
    elif kind == "types-typed":
        # exchange the order of the node types
        big = False
        inst = TypedInst(rng)
        w = inst.rand_w(rng)
        T = inst.T
        o = rng.permutation(T)          # new type k is old type o[k]
        A = inst.make(BB)
        B = M.NodeTypeEdgeFeatureGraphCRF(
            T, [inst.lS[t] for t in o], [inst.lF[t] for t in o], inst.nE[np.ix_(o, o)].tolist(),
            inference_method="ad3",
            l_class_weight=None if inst.lcw is None else [inst.lcw[t] for t in o])
        B.inference_method = BB
        x2 = ([inst.nfeats[t] for t in o], [inst.ledges[s * T + t] for s in o for t in o],
              [inst.lef[s * T + t] for s in o for t in o])

        def mv(v):
            out = [v[inst.uoffs[t]:inst.uoffs[t] + inst.lS[t] * inst.lF[t]] for t in o]
            for s in o:
                for t in o:
                    k = int(inst.nE[s, t]) * inst.lS[s] * inst.lS[t]
                    out.append(v[inst.poffs[s, t]:inst.poffs[s, t] + k])
            return np.hstack(out)
        gp = np.hstack([np.arange(inst.ln[t]) + inst.noff[t] for t in o]).astype(int)
        st = np.cumsum([0] + [inst.lS[t] for t in o])
        newstart = {int(t): int(st[k]) for k, t in enumerate(o)}
        mapl = {inst.start[t] + s: newstart[t] + s for t in range(T) for s in range(inst.lS[t])}
        back = {v: k for k, v in mapl.items()}
        gi = np.argsort(gp)
        a = Side(A, inst.x, w, ident(), ident())
        b = Side(B, x2, mv(w), lambda f: np.array([mapl[int(v)] for v in np.asarray(f)[gp]]),
                 lambda y: np.array([back[int(v)] for v in np.asarray(y)])[gi])
        jmap = mv
    if big:
        obs.ev("large")
    d = lambda e="": "%s %s cw=%s w=%s\n%s" % (kind, inst.describe(), inst.class_weight if inst.class_weight is None
                                               else inst.class_weight.tolist(), np.round(a.w, 5).tolist()[:40], e)
    ys = [inst.rand_flat(rng) for _ in range(3)]
    scale = 1.
    for y in ys:
        ja, jb = a.model.joint_feature(a.x, a.enc(y)), b.model.joint_feature(b.x, b.enc(y))
        sa, sb = float(np.dot(a.w, ja)), float(np.dot(b.w, jb))
        scale = max(scale, float(np.abs(a.w).dot(np.abs(ja))), float(np.abs(b.w).dot(np.abs(jb))))
        if jmap is not None:
            obs.check(jf_same(jmap(np.asarray(ja, float)), jb), "jf:" + kind, lambda: d("y=%r\n%r\n%r" % (y, ja, jb)))
        obs.check(abs(sa - sb) <= 1e-9 * scale + 1e-12, "score:" + kind, lambda: d("y=%r %r %r" % (y, sa, sb)))
        la, lb = a.model.loss(a.enc(ys[0]), a.enc(y)), b.model.loss(b.enc(ys[0]), b.enc(y))
        obs.ev("loss")
        obs.check(close(la, lb), "loss:" + kind, lambda: d("y=%r %r: %r %r" % (ys[0], y, la, lb)))
    # optimal objectives
    y = ys[0]
    for mode in ("inference", "lai"):
        objs = []
        for s in (a, b):
            r = s.model.inference(s.x, s.w) if mode == "inference" else \
                s.model.loss_augmented_inference(s.x, s.enc(y), s.w)
            f = np.asarray(s.dec(r)).astype(int).ravel()
            # judged in the first formulation
            v = float(np.dot(a.w, a.model.joint_feature(a.x, a.enc(f))))
            if mode == "lai":
                v += float(a.model.loss(a.enc(y), a.enc(f)))
            objs.append(v)
        obs.ev("optimum_compared")
        obs.check_exact(abs(objs[0] - objs[1]) <= 1e-6 * (scale + abs(objs[0])), "%s:%s" % (mode, kind), lambda: d(
            "y=%r objectives %r" % (y, objs)))
    if sum(np.log(len(q)) for q in inst.doms) > 0:
        obs.nontrivial(inst.describe(), np.round(a.w, 4).tolist(), kind)
        obs.sample(d("objectives %r" % objs))
