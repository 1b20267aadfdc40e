"""Long histories of calls on the same model objects: two models of one family used alternately on several samples,
while the caller overwrites weights, features and edges in place, passes copies, and switches between exact solvers.
Every result of the operations a property is about is judged by the independent reference semantics of the instance at
that moment, so anything a model remembers from an earlier call (and should not have) shows up."""
import copy

import numpy as np

from .data import Dataset
from .inst import ChainInst, close
from .oracle import forest_opt

BB = ("ad3", {"branch_and_bound": True})


def feature_arrays(inst):
    f = inst.fam
    if inst.grid:
        return [inst.feats3]
    if f in ("multilabel", "binary", "multiclass"):
        return [inst.x]
    if f == "typed":
        return [a for a in list(inst.nfeats) + list(inst.lef) if a is not None]
    return [inst.feats] + ([inst.efeats] if getattr(inst, "E", None) else [])


def overwrite(inst, rng):
    """new features (and edge directions) in the caller's arrays"""
    for a in feature_arrays(inst):
        if not a.size:
            continue
        if a.dtype.kind == "f" and rng.random() < .5:
            a[...] = rng.normal(size=a.shape)
        else:  # same values elsewhere
            a[...] = rng.permutation(a.ravel()).reshape(a.shape)
    if inst.grid:
        inst.feats = inst.feats3.reshape(-1, inst.F)
    if inst.fam in ("graph", "edgefeat", "latgraph", "latnode", "eflatnode") and len(inst.edges) and rng.random() < .5:
        k = int(rng.integers(len(inst.edges)))
        for e in (inst.edges, inst.x[1]):
            e[k] = e[k][::-1].copy()


def rewrite(w, rng):
    r = rng.random()
    if r < .3:
        w[...] = rng.permutation(w)
    elif r < .5:
        w *= -.7
    elif r < .7:
        w[int(rng.integers(len(w)))] += 2.
    else:
        w[...] = np.round(rng.normal(size=len(w)) * 2, 2)


def magnitude(inst, w):
    U, P = inst.potentials(w)
    return sum(float(np.abs(u).max()) for u in U) + sum(float(np.abs(p).max()) for p in P)


class Line(object):
    def __init__(self, rng, fam):
        kw = {}
        n = int(rng.integers(2, 5))
        self.long = fam == "chain" and rng.random() < .25
        if self.long:
            f = ChainInst(rng, n=int(rng.integers(60, 200)), S=int(rng.integers(2, 4)), maxlab=float("inf"))
            self.ds = Dataset(rng, fam, n, maxlab=float("inf"), truth="random", first=f)
            for k in range(1, n):  # other lengths
                self.ds.insts[k] = ChainInst(rng, n=int(rng.integers(60, 200)), S=f.n_states, F=f.F, directed=f.directed,
                                             cw=f.class_weight, maxlab=float("inf"))
                self.ds.flats[k] = self.ds.insts[k].rand_flat(rng)
        else:
            self.ds = Dataset(rng, fam, n, maxlab=400, same_shape=rng.random() < .3)
            if self.ds.first.grid and rng.random() < .7 and self.ds.first.h != self.ds.first.w:
                # the same number of pixels in another shape
                f = self.ds.first
                kw = dict(F=f.F, neighborhood=f.neighborhood, h=f.w, w=f.h, maxlab=10 ** 6)
                kw.update({"like": f} if f.latent else {"S": f.n_states})
                self.ds.insts[1] = type(f)(rng, **kw)
                self.ds.flats[1] = self.ds.insts[1].rand_flat(rng)
        self.first = self.ds.first
        self.method = None if self.first.scalar else ("max-product" if self.long else BB)
        self.model = self.ds.make(self.method) if self.method else self.ds.make()
        self.w = self.first.rand_w(rng, "normal")

    def switch(self, rng, inst):
        """an exact solver for this instance"""
        if self.first.scalar or self.long:
            return
        m = BB
        if self.first.fam != "typed" and inst.acyclic() and rng.random() < .5:
            m = "max-product"
        self.model.inference_method = self.method = m


def augmented(inst, U, yf):
    lab = inst.visible_labels(yf)
    hidden = getattr(inst, "hidden_nodes", False)
    out = []
    for k, u in enumerate(U):
        u = np.array(u, float)
        if not (hidden and k >= len(lab)):
            for s in range(len(u)):
                if s != int(lab[k]):
                    u[s] += 1. if inst.class_weight is None else float(inst.class_weight[lab[k]])
        out.append(u)
    return out


def history(rng, obs, fam, judged, steps=None):
    lines = [Line(rng, fam) for _ in range(1 if rng.random() < .5 else 2)]
    others = [o for o in ("joint_feature", "inference", "lai", "latent", "batch_inference", "batch_lai") if o not in judged]
    trace, kept = [], []
    for step in range(steps or int(rng.integers(6, 14))):
        ln = lines[int(rng.integers(len(lines)))]
        k = int(rng.integers(ln.ds.n))
        inst = ln.ds.insts[k]
        what = []
        if rng.random() < .5:
            rewrite(ln.w, rng)
            what.append("w overwritten")
        if rng.random() < .1:
            ln.w = inst.rand_w(rng)
            what.append("new w")
        if rng.random() < .3:
            overwrite(inst, rng)
            what.append("x overwritten")
        x, w = inst.x, ln.w
        if rng.random() < .2:
            x, w = copy.deepcopy(x), w.copy()
            what.append("copies")
        ln.switch(rng, inst)
        op = judged[int(rng.integers(len(judged)))] if rng.random() < .75 else others[int(rng.integers(len(others)))]
        if op == "results":
            op = others[int(rng.integers(len(others)))]
        if op == "latent" and not inst.latent or op == "relaxed" and (inst.scalar or ln.long):
            op = judged[0] if judged[0] not in ("latent", "results", "relaxed") else "inference"
        trace.append("%d.%d %s %s %s" % (lines.index(ln), k, op, ln.method, ",".join(what)))
        if magnitude(inst, w) > 2e4:  # beyond the numeric range of the solvers
            continue
        if not one(rng, obs, fam, ln, inst, k, x, w, op, op in judged, trace, kept):
            return
        if "results" in judged:
            obs.ev("history:results", len(kept))
            for t, res, was in kept:
                if not obs.check(frozen(res) == was, "history-result-changed:" + fam, lambda: (
                        "history on one model: %s\n%s: the result of '%s' is now %r" % ("; ".join(trace), inst.describe(), t, res))):
                    return
    obs.nontrivial("history", fam, tuple(trace), lines[0].first.describe(), lines[0].w.tobytes())


def frozen(r):
    if isinstance(r, (tuple, list)):
        return tuple(frozen(v) for v in r)
    a = np.asarray(r)
    return (str(a.dtype), a.shape, a.tobytes())


def batch(rng, obs, fam, ln, op, judge, trace, kept):
    """all samples of the line at once"""
    ds, model, w = ln.ds, ln.model, ln.w
    if any(magnitude(i, w) > 2e4 for i in ds.insts):
        return True
    if not ds.first.scalar and not ln.long:
        model.inference_method = ln.method = BB
    X = ds.X()
    lai = op == "batch_lai"
    Y = ds.Y()
    res = model.batch_loss_augmented_inference(X, Y, w) if lai else model.batch_inference(X, w)
    kept.append((trace[-1], res, frozen(res)))
    if not judge:
        return True
    d = lambda e="": "history on one model: %s\n%s w=%r %s" % ("; ".join(trace), ds.describe(), w, e)
    obs.ev("history:" + op)
    if not obs.check(len(res) == ds.n, "history-batch-length:" + fam, d):
        return False
    for inst, yf, r in zip(ds.insts, ds.flats, res):
        if not obs.check(inst.ok_labels(r), "history-%s-labels:%s" % (op, fam), lambda: d("%r" % (r,))):
            return False
        hf = np.asarray(inst.unfmt(r), int)
        U, P = inst.potentials(w)
        c = 1.
        if lai and fam == "multiclass" and inst.rescale and inst.class_weight is not None:
            c = float(inst.class_weight[int(yf[0])])
        if ln.long:
            opt = forest_opt(augmented(inst, U, yf) if lai else U, P, inst.edges)
        else:
            al = inst.all_flat()
            opt = float((c * inst.scores(w, al) + (inst.losses(yf, al) if lai else 0.)).max())
        got = c * inst.score(w, hf) + (inst.loss(yf, hf) if lai else 0.)
        obs.check_exact(got >= opt - 1e-6 * max(c, 1) * (magnitude(inst, w) + 1), "history-%s-suboptimal:%s" % (op, fam),
                        lambda: d("sample %s: %r objective %r optimum %r" % (inst.describe(), r, got, opt)))
    return True


def relaxed(rng, obs, fam, ln, inst, x, w, judge, d, kept, trace):
    model = ln.model
    model.inference_method = ln.method = "ad3" if fam == "typed" or rng.random() < .6 else "lp"
    res, energy = model.inference(x, w, relaxed=True), None
    kept.append((trace[-1], res, frozen(res)))
    if not judge:
        return True
    U, P = inst.potentials(w)
    opt = float(inst.scores(w, inst.all_flat()).max())
    tol = (2e-3 if getattr(inst, "hidden_nodes", False) else 1e-4 if model.inference_method == "lp" else 6e-4) * (magnitude(inst, w) + 1)
    if isinstance(res, tuple):
        got = float(np.dot(w, np.asarray(ln.ds.make().joint_feature(copy.deepcopy(x), copy.deepcopy(res)))))
    else:
        if not obs.check(inst.ok_labels(res), "history-relaxed-labels:" + fam, lambda: d("%r" % (res,))):
            return False
        got = inst.score(w, np.asarray(inst.unfmt(res), int))
    return obs.check(got >= opt - tol, "history-relaxed-bound:" + fam, lambda: d("%r scores %r, best labeling %r" % (res, got, opt)))


def one(rng, obs, fam, ln, inst, k, x, w, op, judge, trace, kept):
    if op.startswith("batch"):
        return batch(rng, obs, fam, ln, op, judge, trace, kept)
    model = ln.model
    d = lambda e="": "history on one model: %s\n%s w=%r x=%r %s" % ("; ".join(trace), inst.describe(), w, x, e)
    if judge:
        obs.ev("history:" + op)
    rescaled = fam == "multiclass" and inst.rescale
    if op == "joint_feature":
        yf = inst.rand_flat(rng)
        y = inst.fmt(yf)
        c = 1.
        if rescaled:
            got = model.joint_feature(x, y, y)
            c = 1. if inst.class_weight is None else float(inst.class_weight[y])
        else:
            got = model.joint_feature(x, y)
        kept.append((trace[-1], got, frozen(got)))
        if not judge:
            return True
        ref = inst.psi(yf) * c
        return obs.check(close(got, ref, 1e-4, 1e-4 * (1 + np.abs(ref).max())), "history-joint-feature:" + fam,
                         lambda: d("y=%r\n got %r\n expected %r" % (y, np.asarray(got).tolist(), ref.tolist())))
    U, P = inst.potentials(w)
    total = magnitude(inst, w)
    tol = 1e-6 * (total + 1)
    if op == "relaxed":
        return relaxed(rng, obs, fam, ln, inst, x, w, judge, d, kept, trace)
    if op == "inference":
        y = model.inference(x, w)
        kept.append((trace[-1], y, frozen(y)))
        if not judge:
            return True
        if not obs.check(inst.ok_labels(y), "history-labels:" + fam, lambda: d("y=%r" % (y,))):
            return False
        yf = np.asarray(inst.unfmt(y), int)
        opt = forest_opt(U, P, inst.edges) if ln.long else float(inst.scores(w, inst.all_flat()).max())
        got = inst.score(w, yf)
        obs.check_exact(got >= opt - tol, "history-suboptimal:" + fam, lambda: d("y=%r score %r optimum %r" % (y, got, opt)))
        return True
    if op == "lai":
        yf = ln.ds.flats[k] if rng.random() < .7 else inst.rand_flat(rng)
        y = model.loss_augmented_inference(x, inst.fmt(yf), w)
        kept.append((trace[-1], y, frozen(y)))
        if not judge:
            return True
        if not obs.check(inst.ok_labels(y), "history-lai-labels:" + fam, lambda: d("y=%r" % (y,))):
            return False
        hf = np.asarray(inst.unfmt(y), int)
        c = 1.
        if rescaled and inst.class_weight is not None:
            c = float(inst.class_weight[int(yf[0])])
        if ln.long:
            opt = forest_opt(augmented(inst, U, yf), P, inst.edges)
        else:
            al = inst.all_flat()
            opt = float((c * inst.scores(w, al) + inst.losses(yf, al)).max())
        got = c * inst.score(w, hf) + inst.loss(yf, hf)
        obs.check_exact(got >= opt - tol * max(c, 1), "history-lai-suboptimal:" + fam, lambda: d(
            "truth %r y=%r objective %r optimum %r" % (yf.tolist(), y, got, opt)))
        return True
    if op == "latent":
        import itertools
        yf = inst.rand_flat(rng)
        vis = inst.visible_labels(yf)
        h = model.latent(x, vis.reshape(inst.visible_shape()), w)
        kept.append((trace[-1], h, frozen(h)))
        if not judge:
            return True
        if not obs.check(inst.ok_labels(h), "history-completion-invalid:" + fam, lambda: d("y=%r h=%r" % (vis, h))):
            return False
        hf = inst.unfmt(h)
        if not obs.check(np.array_equal(inst.visible_labels(hf), vis), "history-inconsistent:" + fam,
                         lambda: d("y=%r h=%r" % (vis, h))):
            return False
        al = np.array(list(itertools.product(*inst.completions(vis))), dtype=int)
        opt, got = float(inst.scores(w, al).max()), inst.score(w, hf)
        obs.check_exact(got >= opt - tol, "history-completion-suboptimal:" + fam, lambda: d(
            "y=%r h=%r score %r best completion %r" % (vis, h, got, opt)))
        return True
