"""Data sets: several instances of one family that share a model, plus certified optima of the structured SVM."""
import copy

import numpy as np

from .inst import FAMS, gen_feats, is_acyclic
from .runner import HarnessError


def sibling(inst, rng, maxlab=3000, feat=None, same_shape=False, kinds=None):
    """another random instance for the same model"""
    f = inst.fam
    kw = dict(maxlab=maxlab, feat=feat)
    if f in ("graph", "chain", "edgefeat", "latgraph"):
        if same_shape:
            kw["n"] = len(inst.doms)
        if kinds is not None and f != "chain":
            kw["kind"] = rng.choice(kinds)
    if f in ("grid", "dirgrid", "latgrid", "latdirgrid") and same_shape:
        kw.update(h=inst.h, w=inst.w)
    if f in ("graph", "chain"):
        return FAMS[f](rng, S=inst.n_states, F=inst.F, directed=inst.directed, cw=inst.class_weight, **kw)
    if f in ("grid", "dirgrid"):
        return FAMS[f](rng, S=inst.n_states, F=inst.F, neighborhood=inst.neighborhood, **kw)
    if f == "edgefeat":
        r = FAMS[f](rng, S=inst.n_states, F=inst.F, E=inst.E, cw=inst.class_weight, sym=None, **kw)
        r.sym, r.anti = inst.sym, inst.anti
        return r
    if f in ("multilabel", "binary", "multiclass"):
        r = copy.copy(inst)
        r.x = gen_feats(rng, np.shape(inst.x), feat)
        return r
    if f == "latgraph":
        return FAMS[f](rng, F=inst.F, like=inst, **kw)
    if f in ("latgrid", "latdirgrid"):
        return FAMS[f](rng, F=inst.F, neighborhood=inst.neighborhood, like=inst, **kw)
    if f in ("latnode", "eflatnode"):
        if kinds is not None:
            kw["kind"] = rng.choice(kinds)
        kw["E"] = inst.E
        r = FAMS[f](rng, L=inst.n_labels, H=inst.n_hidden_states, F=inst.F, nodefeat=inst.nodefeat,
                    cw=inst.class_weight, sym=None, nv=inst.nv if same_shape else None,
                    nh=inst.nh if same_shape else None, **kw)
        r.sym, r.anti = inst.sym, inst.anti
        return r
    if f == "typed":
        return FAMS[f](rng, like=inst, **kw)
    raise ValueError(f)


class Dataset(object):
    """n instances for one model and ground truth labelings (flat, latent state labelings for latent families)"""

    def __init__(self, rng, fam, n, maxlab=3000, feat=None, same_shape=False, truth=None, kinds=None, first=None, **kw):
        self.fam = fam
        if feat is None and first is None and fam in ("binary", "multiclass", "multilabel") and rng.random() < .12:
            feat = rng.choice(["intdtype", "smallint"])
        if first is None:
            k = dict(kw)
            if kinds is not None and fam in ("graph", "edgefeat", "latgraph", "latnode", "eflatnode", "multilabel"):
                k["kind"] = rng.choice(kinds)
            if fam in ("binary", "multiclass"):
                first = FAMS[fam](rng, feat=feat, **k)
            else:
                first = FAMS[fam](rng, maxlab=maxlab, feat=feat, **k)
        self.first = first
        self.insts = [first] + [sibling(first, rng, maxlab=maxlab, feat=feat, same_shape=same_shape, kinds=kinds)
                                for _ in range(n - 1)]
        self.n = n
        self.wdim = first.wdim
        truth = truth or rng.choice(["random", "model", "noisy"])
        w0 = first.rand_w(rng, "normal")
        self.truth = truth
        self.flats = []
        for inst in self.insts:
            if truth == "random":
                y = inst.rand_flat(rng)
            else:
                al = inst.all_flat()
                y = np.array(al[int(np.argmax(inst.scores(w0, al)))])
                if truth == "noisy" and rng.random() < .5:
                    k = int(rng.integers(len(y)))
                    y[k] = rng.choice(inst.doms[k])
            self.flats.append(np.asarray(y, dtype=int))
        self.array_like = fam in ("binary", "multiclass", "multilabel")

    def X(self, container=None):
        xs = [i.x for i in self.insts]
        if self.array_like:  # whole-number features stay what they are
            xs = np.array(xs)
            return xs.astype(float) if xs.dtype.kind == "f" else xs
        if container == "array" and self.first.grid and len({np.shape(x) for x in xs}) == 1:
            return np.array(xs)
        return list(xs)

    def pack(self, flats, dtype=int):
        ys = [i.fmt(f, dtype) for i, f in zip(self.insts, flats)]
        if self.array_like:
            return np.array(ys)
        return ys

    def Y(self, dtype=int):
        return self.pack(self.flats, dtype)

    def visible(self, flats=None):
        """visible labels in the shape latent learners take them"""
        out = []
        for i, f in zip(self.insts, self.flats if flats is None else flats):
            v = i.visible_labels(f)
            out.append(v.reshape(i.visible_shape()) if i.latent else i.fmt(v))
        return out

    def make(self, method=None, explicit=True):
        return self.first.make(method, explicit) if method is not None else (
            self.first.make() if explicit else self.first.make(None, False))

    def constraints(self, loss_scale=None):
        """per sample: (delta features (k, d), losses (k,)), all labelings"""
        if not hasattr(self, "_cons"):
            self._cons = []
            for inst, y in zip(self.insts, self.flats):
                al = inst.all_flat()
                gt = inst.psi(y)
                D = np.array([gt - inst.psi(f) for f in al])
                L = inst.losses(y, al)
                if inst.fam == "multiclass" and inst.rescale and inst.class_weight is not None:
                    D = D * float(inst.class_weight[int(y[0])])
                self._cons.append((D, L))
        return self._cons

    def hinge(self, w):
        return np.array([np.max(L - D.dot(w)) for D, L in self.constraints()])

    def risk(self, w, C):
        return .5 * float(np.dot(w, w)) + C * float(np.maximum(self.hinge(w), 0).sum())

    def acyclic(self):
        return all(i.acyclic() for i in self.insts)

    def describe(self):
        return "%s x%d truth=%s first=%s" % (self.fam, self.n, self.truth, self.first.describe())


def ssvm_optimum(cons, C, nonpos=None, rel=1e-7):
    """certified interval (lower, upper, w) for min_w 1/2|w|^2 + C sum_i max_y (L_iy - D_iy w) [w[nonpos] <= 0]"""
    import cvxopt
    import cvxopt.solvers
    D = np.vstack([d for d, _ in cons])
    L = np.hstack([l for _, l in cons])
    n, k, d = len(cons), len(L), D.shape[1]
    own = np.hstack([np.full(len(l), i) for i, (_, l) in enumerate(cons)])
    idx = np.zeros(0, int) if nonpos is None else np.asarray(nonpos, int)
    # scale features so that the solver sees numbers around one
    s = max(np.abs(D).max(), 1e-12)
    # variables (alpha, mu):  w = D' alpha - mu e_idx
    M = np.hstack([D.T, -np.eye(d)[:, idx]])
    m = k + len(idx)
    # a primal problem of dimension d + n is better conditioned when k is large
    # variables (w / ws, xi)
    ws = max(1e-9, min(np.sqrt(2 * C * max(L.max(), 1e-9) * n), C * s * n + 1e-9))
    P = np.zeros((d + n, d + n))
    P[:d, :d] = np.eye(d) * ws * ws
    q = np.hstack([np.zeros(d), np.full(n, C)])
    G = np.zeros((k + len(idx), d + n))
    G[:k, :d] = -D * ws
    G[np.arange(k), d + own] = -1
    h = np.hstack([-L, np.zeros(len(idx))])
    for r, j in enumerate(idx):
        G[k + r, j] = 1
    scale = 1. / max(1e-9, C * max(L.max(), 1e-6) * n)
    old = dict(cvxopt.solvers.options)
    cvxopt.solvers.options.clear()
    cvxopt.solvers.options.update(show_progress=False, abstol=1e-12, reltol=1e-11, feastol=1e-11, maxiters=200)
    try:
        sol = cvxopt.solvers.qp(*[cvxopt.matrix(np.asarray(a, float)) for a in (P * scale, q * scale, G, h)])
    except (ValueError, ArithmeticError):
        return None
    finally:
        cvxopt.solvers.options.clear()
        cvxopt.solvers.options.update(old)
    z = np.array(sol["z"]).ravel() / scale
    a = np.maximum(z[:k], 0)
    for i in range(n):
        t = a[own == i].sum()
        if t > 0:
            a[own == i] *= C / t
        else:
            a[np.where(own == i)[0][0]] = C
    # best multipliers of the sign constraints for these alphas
    v = D.T.dot(a)
    w = v.copy()
    w[idx] = np.minimum(w[idx], 0)
    lower = float(a.dot(L) - .5 * w.dot(w))
    best = None
    wp = np.array(sol["x"]).ravel()[:d] * ws
    wp[idx] = np.minimum(wp[idx], 0)
    for c in (w, wp):
        up = .5 * float(c.dot(c)) + C * sum(float(np.max(l - dd.dot(c))) for dd, l in cons)
        if best is None or up < best[0]:
            best = (up, c)
    upper = best[0]
    if not upper - lower <= rel * (1 + abs(upper)):
        return None
    return lower, upper, best[1]
