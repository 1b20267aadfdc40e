"""Generated problem instances for every model family together with an independent reference semantics
(parameter layout, joint features, potentials, loss, enumeration).  Nothing here calls the code under test except
`make`, which constructs the model."""
import itertools

import numpy as np


# ---------------------------------------------------------------------------------------------- graphs
def is_acyclic(n, edges):
    """union-find; self loops and double edges are cycles"""
    par = list(range(n))

    def find(a):
        while par[a] != a:
            par[a] = par[par[a]]
            a = par[a]
        return a
    for a, b in edges:
        ra, rb = find(int(a)), find(int(b))
        if ra == rb:
            return False
        par[ra] = rb
    return True


GRAPH_KINDS = ("empty", "chain", "chain_perm", "star", "tree", "forest", "cycle", "full", "random", "pairs")
ACYCLIC_KINDS = ("empty", "chain", "chain_perm", "star", "tree", "forest", "pairs")


def gen_edges(rng, n, kind):
    """(n_edges, 2) int array; edge directions and order are random except for 'chain'"""
    e = []
    if kind == "empty" or n == 1:
        return np.zeros((0, 2), dtype=int)
    if kind == "chain":
        return np.array([[i, i + 1] for i in range(n - 1)], dtype=int)
    if kind == "chain_perm":
        p = rng.permutation(n)
        e = [[p[i], p[i + 1]] for i in range(n - 1)]
    elif kind == "star":
        c = int(rng.integers(n))
        e = [[c, i] for i in range(n) if i != c]
    elif kind == "tree":
        p = rng.permutation(n)
        e = [[p[i], p[rng.integers(i)]] for i in range(1, n)]
    elif kind == "forest":
        p = rng.permutation(n)
        e = [[p[i], p[rng.integers(i)]] for i in range(1, n) if rng.random() < .6]
    elif kind == "pairs":
        p = rng.permutation(n)
        e = [[p[i], p[i + 1]] for i in range(0, n - 1, 2)]
    elif kind == "cycle":
        p = rng.permutation(n)
        e = [[p[i], p[(i + 1) % n]] for i in range(n)] if n > 2 else [[0, 1]]
    elif kind == "full":
        e = [[i, j] for i in range(n) for j in range(i)]
    elif kind == "random":
        e = [[i, j] for i in range(n) for j in range(i) if rng.random() < .5]
    if not len(e):
        return np.zeros((0, 2), dtype=int)
    e = np.array(e, dtype=int)
    flip = rng.random(len(e)) < .5
    e[flip] = e[flip][:, ::-1]
    return np.ascontiguousarray(e[rng.permutation(len(e))])


def grid_edge_lists(h, w, neighborhood):
    idx = lambda r, c: r * w + c
    right = [(idx(r, c), idx(r, c + 1)) for r in range(h) for c in range(w - 1)]
    down = [(idx(r, c), idx(r + 1, c)) for r in range(h - 1) for c in range(w)]
    out = [right, down]
    if neighborhood == 8:
        out.append([(idx(r + 1, c), idx(r, c + 1)) for r in range(h - 1) for c in range(w - 1)])
        out.append([(idx(r, c), idx(r + 1, c + 1)) for r in range(h - 1) for c in range(w - 1)])
    return out


# ---------------------------------------------------------------------------------------------- numbers
def gen_feats(rng, shape, style=None):
    style = style or rng.choice(["normal", "int", "onehot", "zero", "big", "tiny", "f32", "intdtype", "fortran",
                                 "strided", "smallint"], p=[.33, .16, .08, .04, .06, .04, .06, .07, .06, .05, .05])
    a = rng.normal(size=shape)
    if style == "int":
        a = np.round(a * 1.5)
    elif style == "onehot":
        a = (rng.random(shape) < .4).astype(float)
    elif style == "zero":
        a = np.zeros(shape)
    elif style == "big":
        a = a * 100
    elif style == "tiny":
        a = a * 1e-3
    elif style == "f32":
        a = a.astype(np.float32)
    elif style == "intdtype":
        a = np.round(a * 2).astype(int)
    elif style == "smallint":  # values that sums of a narrow type do not hold
        dt = rng.choice([np.uint8, np.int8, np.int16, np.bool_])
        hi = 2 if dt is np.bool_ else min(np.iinfo(dt).max, 1000)
        a = rng.integers(0 if dt in (np.uint8, np.bool_) else -hi, hi + 1 if dt is not np.bool_ else hi, size=shape).astype(dt)
    elif style == "fortran":
        a = np.asfortranarray(a)
    elif style == "strided":
        b = np.zeros(tuple(2 * s for s in shape))
        v = b[tuple(slice(None, None, 2) for _ in shape)]
        v[...] = a
        a = v
    return a


def gen_w(rng, d, style=None):
    style = style or rng.choice(["normal", "int", "zero", "big", "neg", "pos", "sparse"],
                                p=[.45, .2, .05, .08, .08, .07, .07])
    w = rng.normal(size=d)
    if style == "int":
        w = rng.integers(-2, 3, size=d).astype(float)
    elif style == "zero":
        w = np.zeros(d)
    elif style == "big":
        w = w * 30
    elif style == "neg":
        w = -np.abs(w) * 3
    elif style == "pos":
        w = np.abs(w) * 3
    elif style == "sparse":
        w = w * (rng.random(d) < .4)
    return w


Y_DTYPES = (np.int64, np.int64, np.int64, np.int32, np.int16, np.uint8)


# ---------------------------------------------------------------------------------------------- instances
class Inst(object):
    """fields: fam, opts, x, doms (allowed states per node, in the model's label encoding), shape (of y), wdim, edges
    (flat node indices), visible (number of visible nodes or None)"""
    latent = False
    grid = False
    relaxed_ok = True
    scalar = False
    class_weight = None

    def describe(self):
        return "%s%r nodes=%d edges=%s doms=%s" % (self.fam, self.opts, len(self.doms),
                                                  [tuple(map(int, e)) for e in self.edges][:12],
                                                  [len(d) for d in self.doms][:12])

    # --- labels
    def fmt(self, flat, dtype=int):
        if self.scalar:
            return int(np.asarray(flat).ravel()[0])
        return np.asarray(flat).reshape(self.shape).astype(dtype)

    def unfmt(self, y):
        return np.asarray(y).reshape(-1)

    def rand_flat(self, rng):
        return np.array([rng.choice(d) for d in self.doms], dtype=int)

    def n_labelings(self):
        r = 1
        for d in self.doms:
            r *= len(d)
        return r

    def all_flat(self, doms=None):
        doms = doms or self.doms
        if not hasattr(self, "_all") or doms is not self.doms:
            a = np.array(list(itertools.product(*[list(d) for d in doms])), dtype=int).reshape(-1, len(doms))
            if doms is not self.doms:
                return a
            self._all = a
        return self._all

    def acyclic(self):
        return is_acyclic(len(self.doms), self.edges)

    # --- scores.  potentials: U list over nodes of dict-like arrays indexed by state id, P list over edges
    def scores(self, w, flats):
        """reference scores of many flat labelings at once"""
        U, P = self.potentials(np.asarray(w, dtype=float))
        flats = np.asarray(flats)
        s = np.zeros(len(flats))
        for i, u in enumerate(U):
            s += u[flats[:, i] - self.uoff[i]]
        for (a, b), p in zip(self.edges, P):
            s += p[flats[:, a] - self.uoff[a], flats[:, b] - self.uoff[b]]
        return s

    def score(self, w, flat):
        return float(self.scores(w, [flat])[0])

    def losses(self, y, flats):
        flats = np.asarray(flats)
        out = np.zeros(len(flats))
        ly = self.visible_labels(y)
        for i in range(len(ly)):
            cw = 1. if self.class_weight is None else float(self.class_weight[ly[i]])
            out += cw * (self.visible_labels_many(flats)[:, i] != ly[i])
        return out

    def visible_labels(self, flat):
        return np.asarray(flat)

    def visible_labels_many(self, flats):
        return np.asarray(flats)

    def loss(self, y, flat):
        return float(self.losses(y, [flat])[0])

    def max_loss(self, y):
        ly = self.visible_labels(y)
        if self.class_weight is None:
            return float(len(ly))
        return float(np.sum(np.asarray(self.class_weight)[ly]))

    def rand_w(self, rng, style=None):
        w = gen_w(rng, self.wdim, style)
        return self.project(w) if rng.random() < .5 else w

    def project(self, w):
        return w

    def ok_labels(self, y):
        """is y a valid labeling (shape, integer, in range) for this instance?"""
        if self.scalar:
            a = np.asarray(y)
            return a.size == 1 and float(a.ravel()[0]) in [float(v) for v in self.doms[0]]
        a = np.asarray(y)
        if a.shape != tuple(self.shape) or a.dtype.kind not in "iu":
            return False
        f = a.reshape(-1)
        return all(int(v) in d for v, d in zip(f, self.domsets()))

    def domsets(self):
        if not hasattr(self, "_ds"):
            self._ds = [set(int(v) for v in d) for d in self.doms]
        return self._ds

    # one-hot marginals in the format of the model's relaxed results
    def marginals(self, unary, pair):
        """unary (n, S) and pair (n_edges, S, S) arrays -> tuple in the model's format"""
        S = unary.shape[1]
        u = unary.reshape(tuple(self.shape) + (S,)) if self.grid else unary
        return (u, pair.reshape(len(pair), S * S))

    def S(self):
        return self.n_states

    def onehot(self, flat):
        S = self.S()
        n = len(self.doms)
        u = np.zeros((n, S))
        u[np.arange(n), np.asarray(flat)] = 1
        p = np.zeros((len(self.edges), S, S))
        for e, (a, b) in enumerate(self.edges):
            p[e, flat[a], flat[b]] = 1
        return u, p

    def batch_X(self):
        return [self.x]


def _cw(rng, n, prob=.35):
    if rng.random() > prob:
        return None
    if rng.random() < .2:
        return rng.integers(1, 5, size=n)
    return np.round(rng.uniform(.1, 3., size=n), 3)


class GraphInst(Inst):
    fam = "graph"

    def __init__(self, rng, n=None, S=None, F=None, kind=None, directed=None, cw="auto", maxlab=3000, feat=None):
        self.F = F or int(rng.integers(1, 4))
        self.n_states = S or int(rng.choice([1, 2, 2, 3, 3, 4]))
        n = n or int(rng.integers(1, 8))
        while self.n_states ** n > maxlab:
            n -= 1
        kind = kind or rng.choice(GRAPH_KINDS)
        self.edges = gen_edges(rng, n, kind)
        self.directed = bool(rng.random() < .5) if directed is None else directed
        self.class_weight = _cw(rng, self.n_states) if isinstance(cw, str) else cw
        self.feats = gen_feats(rng, (n, self.F), feat)
        self.doms = [np.arange(self.n_states)] * n
        self.uoff = [0] * n
        self.shape = (n,)
        self.x = (self.feats, self.edges.copy())
        self.opts = dict(kind=str(kind), S=self.n_states, F=self.F, directed=self.directed,
                         cw=self.class_weight is not None, dt=str(self.feats.dtype))
        self.wdim = self.n_states * self.F + (self.n_states ** 2 if self.directed
                                              else self.n_states * (self.n_states + 1) // 2)

    def make(self, method=None, explicit=True):
        from pystruct.models import GraphCRF
        return GraphCRF(n_states=self.n_states if explicit else None, n_features=self.F if explicit else None,
                        inference_method=method,
                        class_weight=None if self.class_weight is None else self.class_weight.copy(),
                        directed=self.directed)

    def pairmat(self, w):
        S = self.n_states
        pw = w[S * self.F:]
        m = np.zeros((S, S))
        for a in range(S):
            for b in range(S):
                if self.directed:
                    m[a, b] = pw[a * S + b]
                else:
                    hi, lo = max(a, b), min(a, b)
                    m[a, b] = pw[hi * (hi + 1) // 2 + lo]
        return m

    def potentials(self, w):
        W = w[:self.n_states * self.F].reshape(self.n_states, self.F)
        X = np.asarray(self.feats, dtype=float)
        U = [W.dot(X[i]) for i in range(len(X))]
        m = self.pairmat(w)
        return U, [m] * len(self.edges)

    def psi(self, flat):
        S, F = self.n_states, self.F
        v = np.zeros(self.wdim)
        for i, s in enumerate(flat):
            for f in range(F):
                v[s * F + f] += float(self.feats[i, f])
        off = S * F
        for a, b in self.edges:
            s, t = int(flat[a]), int(flat[b])
            if self.directed:
                v[off + s * S + t] += 1
            else:
                hi, lo = max(s, t), min(s, t)
                v[off + hi * (hi + 1) // 2 + lo] += 1
        return v


class ChainInst(GraphInst):
    fam = "chain"

    def __init__(self, rng, **kw):
        kw["kind"] = "chain"
        GraphInst.__init__(self, rng, **kw)
        self.x = self.feats

    def make(self, method=None, explicit=True):
        from pystruct.models import ChainCRF
        return ChainCRF(n_states=self.n_states if explicit else None, n_features=self.F if explicit else None,
                        inference_method=method,
                        class_weight=None if self.class_weight is None else self.class_weight.copy(),
                        directed=self.directed)


class GridInst(GraphInst):
    fam = "grid"
    grid = True

    def __init__(self, rng, h=None, w=None, S=None, F=None, neighborhood=None, maxlab=3000, feat=None):
        self._setup(rng, h, w, S or int(rng.choice([1, 2, 2, 3, 3])), F, neighborhood, maxlab, feat)
        self.directed = False
        self.x = self.feats3
        self.edges = np.array([e for l in self.lists for e in l], dtype=int).reshape(-1, 2)
        self.wdim = self.n_states * self.F + self.n_states * (self.n_states + 1) // 2

    def _setup(self, rng, h, w, S, F, neighborhood, maxlab, feat, limit_states=None):
        self.F = F or int(rng.integers(1, 4))
        self.n_states = S
        h = h or int(rng.integers(1, 5))
        w = w or int(rng.integers(1, 5))
        while (limit_states or S) ** (h * w) > maxlab:
            if h > w:
                h -= 1
            else:
                w -= 1
        self.h, self.w = h, w
        self.neighborhood = neighborhood or int(rng.choice([4, 4, 8]))
        self.feats3 = gen_feats(rng, (h, w, self.F), feat)
        self.feats = self.feats3.reshape(-1, self.F)
        self.lists = grid_edge_lists(h, w, self.neighborhood)
        n = h * w
        self.doms = [np.arange(S)] * n
        self.uoff = [0] * n
        self.shape = (h, w)
        self.opts = dict(h=h, w=w, S=S, F=self.F, nb=self.neighborhood, dt=str(self.feats3.dtype))

    def make(self, method=None, explicit=True):
        from pystruct.models import GridCRF
        return GridCRF(n_states=self.n_states if explicit else None, n_features=self.F if explicit else None,
                       inference_method=method, neighborhood=self.neighborhood)


class EdgeFeatInst(GraphInst):
    fam = "edgefeat"

    def __init__(self, rng, n=None, S=None, F=None, E=None, kind=None, cw="auto", maxlab=3000, feat=None, sym="auto"):
        GraphInst.__init__(self, rng, n=n, S=S, F=F, kind=kind, directed=True, cw=cw, maxlab=maxlab, feat=feat)
        self.E = E or int(rng.integers(1, 4))
        self.efeats = gen_feats(rng, (len(self.edges), self.E), feat if feat != "onehot" else None)
        self.sym, self.anti = [], []
        if sym == "auto" and rng.random() < .5:
            for f in range(self.E):
                r = rng.random()
                if r < .35:
                    self.sym.append(f)
                elif r < .7:
                    self.anti.append(f)
        self.x = (self.feats, self.edges.copy(), self.efeats)
        self.wdim = self.n_states * self.F + self.E * self.n_states ** 2
        self.opts.update(E=self.E, sym=self.sym, anti=self.anti)
        self.opts.pop("directed")

    def make(self, method=None, explicit=True):
        from pystruct.models import EdgeFeatureGraphCRF
        return EdgeFeatureGraphCRF(n_states=self.n_states if explicit else None,
                                   n_features=self.F if explicit else None,
                                   n_edge_features=self.E if explicit else None, inference_method=method,
                                   class_weight=None if self.class_weight is None else self.class_weight.copy(),
                                   symmetric_edge_features=list(self.sym) or None,
                                   antisymmetric_edge_features=list(self.anti) or None)

    def blocks(self, w):
        S = self.n_states
        Wp = np.array(w[-self.E * S * S:]).reshape(self.E, S, S)
        for f in self.sym:
            Wp[f] = (Wp[f] + Wp[f].T) / 2
        for f in self.anti:
            Wp[f] = (Wp[f] - Wp[f].T) / 2
        return Wp

    def project(self, w):
        w = np.array(w)
        w[-self.E * self.n_states ** 2:] = self.blocks(w).ravel()
        return w

    def pair_potentials(self, w):
        Wp = self.blocks(w)
        ef = np.asarray(self.efeats, dtype=float)
        return [sum((ef[e, f] * Wp[f] for f in range(self.E)), np.zeros((self.n_states,) * 2))
                for e in range(len(self.edges))]

    def potentials(self, w):
        W = w[:self.n_states * self.F].reshape(self.n_states, self.F)
        X = np.asarray(self.feats, dtype=float)
        return [W.dot(X[i]) for i in range(len(X))], self.pair_potentials(w)

    def pair_psi(self, flat, v, off):
        S = self.n_states
        for e, (a, b) in enumerate(self.edges):
            s, t = int(flat[a]), int(flat[b])
            for f in range(self.E):
                val = float(self.efeats[e, f])
                if f in self.sym:
                    v[off + f * S * S + s * S + t] += val / 2
                    v[off + f * S * S + t * S + s] += val / 2
                elif f in self.anti:
                    v[off + f * S * S + s * S + t] += val / 2
                    v[off + f * S * S + t * S + s] -= val / 2
                else:
                    v[off + f * S * S + s * S + t] += val

    def psi(self, flat):
        S, F = self.n_states, self.F
        v = np.zeros(self.wdim)
        for i, s in enumerate(flat):
            for f in range(F):
                v[s * F + f] += float(self.feats[i, f])
        self.pair_psi(flat, v, S * F)
        return v


class DirGridInst(EdgeFeatInst):
    fam = "dirgrid"
    grid = True
    sym = anti = ()

    def __init__(self, rng, h=None, w=None, S=None, F=None, neighborhood=None, maxlab=3000, feat=None):
        GridInst._setup(self, rng, h, w, S or int(rng.choice([1, 2, 2, 3, 3])), F, neighborhood, maxlab, feat)
        self._dir()

    def _dir(self):
        self.E = len(self.lists)
        self.edges = np.array([e for l in self.lists for e in l], dtype=int).reshape(-1, 2)
        ef = []
        for d, l in enumerate(self.lists):
            for _ in l:
                r = [0.] * self.E
                r[d] = 1.
                ef.append(r)
        self.efeats = np.array(ef).reshape(-1, self.E)
        self.x = self.feats3
        self.wdim = self.n_states * self.F + self.E * self.n_states ** 2

    def make(self, method=None, explicit=True):
        from pystruct.models import DirectionalGridCRF
        return DirectionalGridCRF(n_states=self.n_states if explicit else None,
                                  n_features=self.F if explicit else None, inference_method=method,
                                  neighborhood=self.neighborhood)


class MultiLabelInst(Inst):
    fam = "multilabel"

    def __init__(self, rng, n=None, F=None, kind=None, feat=None, maxlab=3000):
        n = n or int(rng.integers(1, 8))
        while 2 ** n > maxlab:
            n -= 1
        self.F = F or int(rng.integers(1, 4))
        self.n_states = 2
        kind = kind or rng.choice(GRAPH_KINDS)
        self.edges = gen_edges(rng, n, kind)
        self.no_edges_arg = kind == "empty" and rng.random() < .5
        self.x = gen_feats(rng, (self.F,), feat)
        self.edges_list = int(np.abs(np.asarray(self.x, float)).sum() * 1000) % 4 == 0
        self.doms = [np.arange(2)] * n
        self.uoff = [0] * n
        self.shape = (n,)
        self.wdim = n * self.F + 4 * len(self.edges)
        self.opts = dict(kind=str(kind), n=n, F=self.F, dt=str(self.x.dtype))

    def make(self, method=None, explicit=True):
        from pystruct.models import MultiLabelClf
        m = MultiLabelClf(n_labels=len(self.doms) if explicit else None, n_features=self.F if explicit else None,
                          edges=None if self.no_edges_arg else self.edges.tolist() if self.edges_list else self.edges.copy(),
                          inference_method=method)
        return m

    def potentials(self, w):
        n = len(self.doms)
        U = []
        for l in range(n):
            u = float(np.dot(w[l * self.F:(l + 1) * self.F], np.asarray(self.x, float)))
            U.append(np.array([-u, u]))
        off = n * self.F
        P = [w[off + 4 * e: off + 4 * e + 4].reshape(2, 2) for e in range(len(self.edges))]
        return U, P

    def psi(self, flat):
        n = len(self.doms)
        v = np.zeros(self.wdim)
        for l in range(n):
            for f in range(self.F):
                v[l * self.F + f] = (1. if flat[l] else -1.) * float(self.x[f])
        for e, (a, b) in enumerate(self.edges):
            v[n * self.F + 4 * e + 2 * int(flat[a]) + int(flat[b])] += 1
        return v


class BinaryInst(Inst):
    fam = "binary"
    scalar = True
    relaxed_ok = False

    def __init__(self, rng, F=None, feat=None):
        self.F = F or int(rng.integers(1, 6))
        self.x = gen_feats(rng, (self.F,), feat)
        self.edges = np.zeros((0, 2), int)
        self.doms = [np.array([-1, 1])]
        self.uoff = [-1]
        self.shape = ()
        self.wdim = self.F
        self.opts = dict(F=self.F)

    def make(self, method=None, explicit=True):
        from pystruct.models import BinaryClf
        return BinaryClf(n_features=self.F if explicit else None)

    def potentials(self, w):
        u = float(np.dot(w, np.asarray(self.x, float))) / 2
        return [np.array([-u, 0., u])], []

    def psi(self, flat):
        return float(flat[0]) * np.asarray(self.x, float) / 2


class MultiClassInst(Inst):
    fam = "multiclass"
    scalar = True
    relaxed_ok = False

    def __init__(self, rng, F=None, S=None, feat=None, cw="auto", rescale=None):
        self.F = F or int(rng.integers(1, 6))
        self.n_states = S or int(rng.integers(1, 6))
        self.x = gen_feats(rng, (self.F,), feat)
        self.edges = np.zeros((0, 2), int)
        self.doms = [np.arange(self.n_states)]
        self.uoff = [0]
        self.shape = ()
        self.wdim = self.F * self.n_states
        self.class_weight = _cw(rng, self.n_states) if isinstance(cw, str) else cw
        self.rescale = (bool(rng.random() < .3) if rescale is None else rescale)
        self.opts = dict(F=self.F, S=self.n_states, cw=self.class_weight is not None, rescale=self.rescale)

    def make(self, method=None, explicit=True):
        from pystruct.models import MultiClassClf
        return MultiClassClf(n_features=self.F if explicit else None, n_classes=self.n_states if explicit else None,
                             class_weight=None if self.class_weight is None else self.class_weight.copy(),
                             rescale_C=self.rescale)

    def potentials(self, w):
        return [w.reshape(self.n_states, self.F).dot(np.asarray(self.x, float))], []

    def psi(self, flat):
        v = np.zeros(self.wdim)
        s = int(flat[0])
        v[s * self.F:(s + 1) * self.F] = np.asarray(self.x, float)
        return v


class _LatMix(object):
    """state-splitting latent models"""
    latent = True

    def _lat(self, rng, like=None):
        if like is not None:
            self.n_labels, self.spl, self.per = like.n_labels, like.spl, list(like.per)
            self.smap, self.n_states = like.smap, like.n_states
            return
        self.n_labels = int(rng.choice([1, 2, 2, 2, 3]))
        if rng.random() < .5:
            k = int(rng.integers(1, 4))
            self.spl = k
            per = [k] * self.n_labels
        else:
            per = [int(v) for v in rng.integers(1, 3, size=self.n_labels)]
            self.spl = per
        while sum(per) > 5:
            per = [max(1, v - 1) for v in per]
            self.spl = per
        self.per = per
        self.smap = np.array([l for l, k in enumerate(per) for _ in range(k)], dtype=int)
        self.n_states = len(self.smap)

    def spl_arg(self):
        return self.spl if np.isscalar(self.spl) else list(self.spl)

    def visible_labels(self, flat):
        return self.smap[np.asarray(flat)]

    def visible_labels_many(self, flats):
        return self.smap[np.asarray(flats)]

    def completions(self, lab):
        return [np.where(self.smap == l)[0] for l in lab]

    def visible_shape(self):
        return self.shape


class LatGraphInst(_LatMix, GraphInst):
    fam = "latgraph"

    def __init__(self, rng, n=None, F=None, kind=None, maxlab=3000, feat=None, like=None):
        self._lat(rng, like)
        GraphInst.__init__(self, rng, n=n, S=self.n_states, F=F, kind=kind, directed=False, cw=None, maxlab=maxlab,
                           feat=feat)
        self.opts.update(per=self.per)

    def make(self, method=None, explicit=True):
        from pystruct.models import LatentGraphCRF
        return LatentGraphCRF(n_labels=self.n_labels if explicit else None, n_features=self.F if explicit else None,
                              n_states_per_label=self.spl_arg(), inference_method=method)


class LatGridInst(_LatMix, GridInst):
    fam = "latgrid"

    def __init__(self, rng, h=None, w=None, F=None, neighborhood=None, maxlab=3000, feat=None, like=None):
        self._lat(rng, like)
        GridInst.__init__(self, rng, h=h, w=w, S=self.n_states, F=F, neighborhood=neighborhood, maxlab=maxlab,
                          feat=feat)
        self.opts.update(per=self.per)

    def make(self, method=None, explicit=True):
        from pystruct.models import LatentGridCRF
        return LatentGridCRF(n_labels=self.n_labels if explicit else None, n_features=self.F if explicit else None,
                             n_states_per_label=self.spl_arg(), inference_method=method,
                             neighborhood=self.neighborhood)


class LatDirGridInst(_LatMix, DirGridInst):
    fam = "latdirgrid"

    def __init__(self, rng, h=None, w=None, F=None, neighborhood=None, maxlab=3000, feat=None, like=None):
        self._lat(rng, like)
        DirGridInst.__init__(self, rng, h=h, w=w, S=self.n_states, F=F, neighborhood=neighborhood, maxlab=maxlab,
                             feat=feat)
        self.opts.update(per=self.per)

    def make(self, method=None, explicit=True):
        from pystruct.models import LatentDirectionalGridCRF
        return LatentDirectionalGridCRF(n_labels=self.n_labels if explicit else None,
                                        n_features=self.F if explicit else None,
                                        n_states_per_label=self.spl_arg(), inference_method=method,
                                        neighborhood=self.neighborhood)


class LatNodeInst(Inst):
    """hidden nodes with their own state space; edge features if E"""
    fam = "latnode"
    latent = True
    hidden_nodes = True

    def rand_w(self, rng, style=None):
        """the model punishes forbidden labels with 100 times the largest potential, which is kept within what the
        solvers can work with"""
        w = super().rand_w(rng, style)
        U, P = self.potentials(w)
        top = max([np.abs(p).max() for p in list(U) + list(P) if p.size] + [0])
        return w * (2e3 / top) if top > 2e3 else w

    def __init__(self, rng, nv=None, nh=None, L=None, H=None, F=None, E=None, kind=None, nodefeat=None, cw="auto",
                 maxlab=3000, feat=None, sym="auto"):
        self.n_labels = L or int(rng.choice([1, 2, 2, 3]))
        self.n_hidden_states = H or int(rng.choice([1, 2, 2, 3]))
        self.n_states = self.n_labels + self.n_hidden_states
        self.F = F or int(rng.integers(1, 4))
        nv = nv or int(rng.integers(1, 5))
        nh = nh or int(rng.integers(1, 4))
        while self.n_labels ** nv * self.n_hidden_states ** nh > maxlab:
            nv -= 1
        self.nv, self.nh = nv, nh
        n = nv + nh
        self.nodefeat = bool(rng.random() < .4) if nodefeat is None else nodefeat
        kind = kind or rng.choice(GRAPH_KINDS)
        self.edges = gen_edges(rng, n, kind)
        self.class_weight = _cw(rng, self.n_labels) if isinstance(cw, str) else cw
        self.feats = gen_feats(rng, (n if self.nodefeat else nv, self.F), feat)
        self.E = E
        self.sym, self.anti = [], []
        if self.E:
            self.efeats = gen_feats(rng, (len(self.edges), E), feat)
            if sym == "auto" and rng.random() < .5:
                for f in range(self.E):
                    r = rng.random()
                    if r < .35:
                        self.sym.append(f)
                    elif r < .7:
                        self.anti.append(f)
        self.doms = [np.arange(self.n_labels)] * nv + [np.arange(self.n_labels, self.n_states)] * nh
        self.uoff = [0] * n
        self.shape = (n,)
        self.n_in = self.n_states if self.nodefeat else self.n_labels
        S = self.n_states
        self.wdim = self.n_in * self.F + (E * S * S if E else S * (S + 1) // 2)
        self.x = (self.feats, self.edges.copy(), self.efeats, nh) if E else (self.feats, self.edges.copy(), nh)
        self.opts = dict(kind=str(kind), nv=nv, nh=nh, L=self.n_labels, H=self.n_hidden_states, F=self.F, E=E,
                         nodefeat=self.nodefeat, cw=self.class_weight is not None, sym=self.sym, anti=self.anti)

    directed = False
    blocks = EdgeFeatInst.blocks
    pair_potentials = EdgeFeatInst.pair_potentials
    pair_psi = EdgeFeatInst.pair_psi

    def project(self, w):
        if not self.E:
            return w
        return EdgeFeatInst.project(self, w)

    def make(self, method=None, explicit=True):
        from pystruct.models import LatentNodeCRF, EdgeFeatureLatentNodeCRF
        cw = None if self.class_weight is None else self.class_weight.copy()
        if self.E:
            return EdgeFeatureLatentNodeCRF(
                n_labels=self.n_labels, n_features=self.F, n_edge_features=self.E,
                n_hidden_states=self.n_hidden_states, inference_method=method, class_weight=cw,
                latent_node_features=self.nodefeat, symmetric_edge_features=list(self.sym) or None,
                antisymmetric_edge_features=list(self.anti) or None)
        return LatentNodeCRF(n_labels=self.n_labels if explicit else None, n_features=self.F if explicit else None,
                             n_hidden_states=self.n_hidden_states, inference_method=method, class_weight=cw,
                             latent_node_features=self.nodefeat)

    def potentials(self, w):
        S, n = self.n_states, self.nv + self.nh
        W = w[:self.n_in * self.F].reshape(self.n_in, self.F)
        X = np.asarray(self.feats, float)
        U = []
        for i in range(n):
            u = np.zeros(S)
            if i < len(X):
                u[:self.n_in] = W.dot(X[i])
            U.append(u)
        if self.E:
            return U, self.pair_potentials(w)
        m = np.zeros((S, S))
        pw = w[self.n_in * self.F:]
        for a in range(S):
            for b in range(S):
                hi, lo = max(a, b), min(a, b)
                m[a, b] = pw[hi * (hi + 1) // 2 + lo]
        return U, [m] * len(self.edges)

    def psi(self, flat):
        v = np.zeros(self.wdim)
        for i in range(len(self.feats)):
            s = int(flat[i])
            if s < self.n_in:
                for f in range(self.F):
                    v[s * self.F + f] += float(self.feats[i, f])
        off = self.n_in * self.F
        if self.E:
            self.pair_psi(flat, v, off)
        else:
            for a, b in self.edges:
                s, t = int(flat[a]), int(flat[b])
                hi, lo = max(s, t), min(s, t)
                v[off + hi * (hi + 1) // 2 + lo] += 1
        return v

    def visible_labels(self, flat):
        return np.asarray(flat)[:self.nv]

    def visible_labels_many(self, flats):
        return np.asarray(flats)[:, :self.nv]

    def completions(self, lab):
        return [np.array([l]) for l in lab] + [np.arange(self.n_labels, self.n_states)] * self.nh

    def visible_shape(self):
        return (self.nv,)


class EFLatNodeInst(LatNodeInst):
    fam = "eflatnode"

    def __init__(self, rng, **kw):
        kw.setdefault("E", int(rng.integers(1, 3)))
        LatNodeInst.__init__(self, rng, **kw)


class TypedInst(Inst):
    fam = "typed"

    def __init__(self, rng, T=None, maxlab=2500, feat=None, acyclic=None, empty_ok=True, full=False, S=None, cw="auto",
                 like=None, nmax=4):
        if like is not None:
            self.T, self.lS, self.lF, self.nE = like.T, list(like.lS), list(like.lF), like.nE
            T = self.T
        else:
            self.T = T or int(rng.choice([1, 2, 2, 2, 3]))
            T = self.T
            self.lS = list(S) if S else [int(rng.integers(1, 4)) for _ in range(T)]
            self.lF = [int(rng.integers(1, 4)) for _ in range(T)]
            nf = rng.integers(0 if empty_ok else 1, 3, size=(T, T))
            self.nE = np.maximum(nf, nf.T)
        ln = [int(rng.integers(0 if (empty_ok and T > 1 and rng.random() < .3) else 1, nmax)) for _ in range(T)]
        if sum(ln) == 0:
            ln[0] = 1
        while np.prod([float(s) ** n for s, n in zip(self.lS, ln)]) > maxlab:
            k = int(np.argmax(ln))
            ln[k] -= 1
        self.ln = ln
        self.start = [sum(self.lS[:t]) for t in range(T + 1)]
        noff = [sum(ln[:t]) for t in range(T + 1)]
        self.noff = noff
        self.nfeats = [gen_feats(rng, (ln[t], self.lF[t]), feat) for t in range(T)]
        # edges by type pair
        n = sum(ln)
        typ = [t for t in range(T) for _ in range(ln[t])]
        self.typ = typ
        acyclic = bool(rng.random() < .5) if acyclic is None else acyclic
        cand = gen_edges(rng, n, rng.choice(ACYCLIC_KINDS if acyclic else GRAPH_KINDS)) if n > 1 else []
        by = {}
        for a, b in cand:
            if self.nE[typ[a], typ[b]] > 0:
                by.setdefault((typ[a], typ[b]), []).append((a - noff[typ[a]], b - noff[typ[b]]))
        self.ledges, self.lef = [], []
        flat = []
        self.etype = []
        self.none_style = int(rng.integers(3))
        if self.none_style == 0:  # a type without nodes
            self.nfeats = [f if len(f) else None for f in self.nfeats]
        for t1 in range(T):
            for t2 in range(T):
                e = by.get((t1, t2), [])
                k = int(self.nE[t1, t2])
                if not e and self.none_style == 0:
                    self.ledges.append(None)
                    self.lef.append(None)
                else:
                    self.ledges.append(np.array(e, dtype=int).reshape(-1, 2))
                    self.lef.append(gen_feats(rng, (len(e), k), feat))
                for q, (a, b) in enumerate(e):
                    flat.append((a + noff[t1], b + noff[t2]))
                    self.etype.append((t1, t2, q))
        self.edges = np.array(flat, dtype=int).reshape(-1, 2)
        self.lcw = None
        if like is not None:
            self.lcw, self.class_weight = like.lcw, like.class_weight
        elif (isinstance(cw, str) and rng.random() < .35) or cw is True:
            ic = rng.random() < .2
            self.lcw = [rng.integers(1, 5, size=s) if ic else np.round(rng.uniform(.2, 3, size=s), 3)
                        for s in self.lS]
            self.class_weight = np.hstack(self.lcw)
        self.doms = [np.arange(self.start[t], self.start[t + 1]) for t in typ]
        self.uoff = [self.start[t] for t in typ]
        self.shape = (n,)
        self.x = (self.nfeats, self.ledges, self.lef)
        # layout
        self.uoffs = []
        o = 0
        for t in range(T):
            self.uoffs.append(o)
            o += self.lS[t] * self.lF[t]
        self.poffs = {}
        for t1 in range(T):
            for t2 in range(T):
                self.poffs[t1, t2] = o
                o += int(self.nE[t1, t2]) * self.lS[t1] * self.lS[t2]
        self.wdim = o
        self.opts = dict(T=T, lS=self.lS, lF=self.lF, ln=ln, nE=self.nE.tolist(), cw=self.lcw is not None,
                         none=self.none_style)

    def make(self, method="ad3", explicit=True):
        from pystruct.models import NodeTypeEdgeFeatureGraphCRF
        m = NodeTypeEdgeFeatureGraphCRF(
            self.T, list(self.lS), list(self.lF), self.nE.tolist(),
            inference_method=method if isinstance(method, str) else "ad3",
            l_class_weight=None if self.lcw is None else [c.copy() for c in self.lcw])
        if isinstance(method, tuple):
            m.inference_method = method
        return m

    def potentials(self, w):
        U = []
        for i, t in enumerate(self.typ):
            W = w[self.uoffs[t]: self.uoffs[t] + self.lS[t] * self.lF[t]].reshape(self.lS[t], self.lF[t])
            U.append(W.dot(np.asarray(self.nfeats[t][i - self.noff[t]], float)))
        P = []
        for (t1, t2, q) in self.etype:
            k = int(self.nE[t1, t2])
            B = w[self.poffs[t1, t2]: self.poffs[t1, t2] + k * self.lS[t1] * self.lS[t2]].reshape(
                k, self.lS[t1], self.lS[t2])
            f = np.asarray(self.lef[t1 * self.T + t2][q], float)
            P.append(sum((f[j] * B[j] for j in range(k)), np.zeros((self.lS[t1], self.lS[t2]))))
        return U, P

    def psi(self, flat):
        v = np.zeros(self.wdim)
        for i, t in enumerate(self.typ):
            s = int(flat[i]) - self.start[t]
            for f in range(self.lF[t]):
                v[self.uoffs[t] + s * self.lF[t] + f] += float(self.nfeats[t][i - self.noff[t], f])
        for (t1, t2, q), (a, b) in zip(self.etype, self.edges):
            s, r = int(flat[a]) - self.start[t1], int(flat[b]) - self.start[t2]
            for f in range(int(self.nE[t1, t2])):
                v[self.poffs[t1, t2] + (f * self.lS[t1] + s) * self.lS[t2] + r] += float(
                    self.lef[t1 * self.T + t2][q, f])
        return v

    def onehot_lists(self, flat):
        lu = []
        for t in range(self.T):
            u = np.zeros((self.ln[t], self.lS[t]))
            for k in range(self.ln[t]):
                u[k, flat[self.noff[t] + k] - self.start[t]] = 1
            lu.append(u)
        lp = []
        for t1 in range(self.T):
            for t2 in range(self.T):
                e = self.ledges[t1 * self.T + t2]
                n = 0 if e is None else len(e)
                p = np.zeros((n, self.lS[t1] * self.lS[t2]))
                for q in range(n):
                    a = flat[self.noff[t1] + e[q, 0]] - self.start[t1]
                    b = flat[self.noff[t2] + e[q, 1]] - self.start[t2]
                    p[q, a * self.lS[t2] + b] = 1
                lp.append(p)
        return lu, lp


FAMS = {"graph": GraphInst, "chain": ChainInst, "grid": GridInst, "dirgrid": DirGridInst, "edgefeat": EdgeFeatInst,
        "multilabel": MultiLabelInst, "binary": BinaryInst, "multiclass": MultiClassInst, "latgraph": LatGraphInst,
        "latgrid": LatGridInst, "latdirgrid": LatDirGridInst, "latnode": LatNodeInst, "eflatnode": EFLatNodeInst,
        "typed": TypedInst}
FAM_LIST = sorted(FAMS)


def close(a, b, rtol=1e-9, atol=1e-9):
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol))
