"""Latent completions against the labels and enumeration of all completions."""
import itertools

import numpy as np
from vlib.inst import FAMS, gen_w
from vlib.data import Dataset
from vlib.history import history
from vlib.large import large_forest

LAT = ("latgraph", "latgrid", "latdirgrid", "latnode", "eflatnode")
CASES = {"quick": 6000, "thorough": 90000}
MIN_EVENTS = {"large:latent": 30, "large:lai": 30, "history:latent": 600, "completion": 8000, "optimal_checked": 3000, "hostile_weights": 1500, "lai": 5000, "init_latent": 600, "init-missing": 100,
              "several_completions": 4000}
RULE = ("A data set of 1-3 samples of one of 5 latent families x visible labels x weights (normal, integer, zero, up to "
        "1e3, down to 1e-6, all negative, one dominating entry) x solver; completions enumerated. Non-trivial: more than "
        "one completion; distinct by instance, labels, weights.")
BB = ("ad3", {"branch_and_bound": True})


def weights(rng, inst):
    st = rng.choice(["normal", "int", "zero", "huge", "tiny", "neg", "spike", "pos"])
    d = inst.wdim
    w = rng.normal(size=d)
    if st == "int":
        w = rng.integers(-2, 3, size=d).astype(float)
    elif st == "zero":
        w = np.zeros(d)
    elif st == "huge":
        w = w * 10 ** rng.uniform(1, 2.5)
    elif st == "tiny":
        w = w * 10 ** rng.uniform(-6, -2)
    elif st == "neg":
        w = -np.abs(w) * 10 ** rng.uniform(-1, 2)
    elif st == "pos":
        w = np.abs(w) * 10 ** rng.uniform(-1, 2)
    elif st == "spike":
        w = w * .1
        w[rng.integers(d)] = rng.choice([-1, 1]) * 10 ** rng.uniform(1, 3)
    return (inst.project(w) if rng.random() < .5 else w), st


def case(rng, i, obs, tier):
    if i % 11 == 10:
        history(rng, obs, LAT[int(rng.integers(5))], ["latent", "inference"])
        return
    if i % 23 == 22:
        large_forest(rng, obs, ["latent", "inference", "lai"], LAT)
        return
    fam = LAT[i % 5]
    ds = Dataset(rng, fam, int(rng.integers(1, 4)), same_shape=True if fam in ("latgrid", "latdirgrid") else
                 bool(rng.random() < .5), maxlab=1500)
    first = ds.first
    w, ws = weights(rng, first)
    if ws in ("huge", "neg", "pos", "spike"):
        obs.ev("hostile_weights")
    ms = [BB, "max-product", "lp", "ad3"]
    m = ms[rng.choice(4, p=[.45, .25, .15, .15])]
    mn = m if isinstance(m, str) else "bb"
    key = "%s:%s" % (fam, mn)
    model = ds.make(m)
    for inst, yf in zip(ds.insts, ds.flats):
        U, P = inst.potentials(w)
        total = sum(np.abs(u).max() for u in U) + sum(np.abs(p).max() for p in P)
        if total > (2e3 if mn == "lp" else 2e4):
            # beyond the numeric range of the solvers
            obs.ev("beyond_solver_range")
            continue
        if rng.random() < .5:
            yf = inst.rand_flat(rng)
        vis = inst.visible_labels(yf)
        y = vis.reshape(inst.visible_shape())
        dt = [int, int, np.int32, np.uint8][rng.integers(4)]
        comp = inst.completions(vis)
        ncomp = int(np.prod([len(c) for c in comp]))
        h = model.latent(inst.x, y.astype(dt), w)
        obs.ev("completion")
        d = lambda e="": "%s method=%s weights=%s %s y=%r h=%r\n%s" % (
            inst.describe(), mn, ws, np.round(w, 6).tolist(), y, h, e)
        if not obs.check(inst.ok_labels(h), "invalid:" + key, d):
            continue
        hf = inst.unfmt(h)
        if not obs.check(np.array_equal(inst.visible_labels(hf), vis), "inconsistent:" + key, d):
            continue
        back = np.asarray(model.label_from_latent(h))
        obs.check(back.shape == tuple(inst.visible_shape()) and np.array_equal(back, y), "label-from-latent:" + key,
                  lambda: d("label_from_latent gives %r" % back))
        if ncomp > 1:
            obs.ev("several_completions")
        exact = mn == "bb" or (mn == "max-product" and inst.acyclic()) or not len(inst.edges)
        if exact and ncomp <= 3000:
            al = np.array(list(itertools.product(*comp)), dtype=int)
            best = float(inst.scores(w, al).max())
            got = inst.score(w, hf)
            # the branch and bound of AD3 works relative to all potentials, including those that forbid states
            tol = 1e-6 * (total + 1) if mn == "bb" else 1e-9 * (total + 1)
            obs.ev("optimal_checked")
            obs.check_exact(got >= best - tol, "suboptimal:" + key, lambda: d("score %r, best completion %r" % (got, best)))
        # hidden and visible states stay apart in the other kinds of inference
        r = model.inference(inst.x, w)
        obs.check(inst.ok_labels(r), "inference-mixes:" + key, lambda: d("inference %r" % r))
        r2 = model.loss_augmented_inference(inst.x, inst.fmt(yf), w)
        obs.ev("lai")
        obs.check(inst.ok_labels(r2), "lai-mixes:" + key, lambda: d("loss augmented %r" % r2))
        lab = np.asarray(model.label_from_latent(r))
        obs.check(lab.shape == tuple(inst.visible_shape()) and np.array_equal(lab, inst.visible_labels(
            inst.unfmt(r)).reshape(inst.visible_shape())), "labels-of-inference:" + key, lambda: d("%r %r" % (r, lab)))
        if ncomp > 1:
            obs.nontrivial(inst.describe(), y.tolist(), np.round(w, 4).tolist(), mn)
            obs.sample(d("%d completions" % ncomp))
    if i % 5 in (0, 1, 2, 3, 4) and rng.random() < .3:
        init(rng, obs, ds, fam, model)


def init(rng, obs, ds, fam, model):
    Y = ds.visible()
    lab = np.hstack([np.ravel(y) for y in Y])
    first = ds.first
    if fam.endswith("node"):
        # k-means over samples needs at least as many hidden nodes as hidden states
        if sum(i.nh for i in ds.insts) < first.n_hidden_states:
            return
    else:
        for l in np.unique(lab):
            if np.sum(lab == l) < first.per[l]:
                return
    missing = len(np.unique(lab)) != first.n_labels
    if fam.endswith("node") and any(not len(i.edges) or i.edges.max() != len(i.doms) - 1 for i in ds.insts):
        return  # rejected by design ("Edges don't add up")
    X = ds.X()
    if first.grid:
        X, Y = np.array(X), np.array(Y)
    if missing:  # (initialize insists on all labels)
        obs.ev("init-missing")
    else:
        model.initialize(X, Y)
    H = model.init_latent(X, Y)
    obs.ev("init_latent")
    d = lambda: "%s Y=%r H=%r" % (ds.describe(), Y, H)
    if not obs.check(len(H) == ds.n, "init-length:" + fam, d):
        return
    for inst, y, h in zip(ds.insts, Y, H):
        if obs.check(inst.ok_labels(h), "init-invalid:" + fam, d):
            obs.check(np.array_equal(inst.visible_labels(inst.unfmt(h)), np.ravel(y)), "init-inconsistent:" + fam, d)
            obs.check(np.array_equal(np.ravel(model.label_from_latent(np.asarray(h))), np.ravel(y)),
                      "init-labels:" + fam, d)
