"""Joint features against an independent loop-based reference."""
import numpy as np
from vlib.inst import FAMS, FAM_LIST, Y_DTYPES, close
from vlib.runner import HarnessError
from vlib.history import history

CASES = {"quick": 8400, "thorough": 100000}
MIN_EVENTS = {"small-type": 500, "history:joint_feature": 1000, "joint_feature": 5000, "onehot_marginals": 2000, "batch": 3000}
RULE = ("One random instance of one model family per case (14 families in rotation; sizes 1..7 nodes, 1..5 states, all "
        "edge-set kinds, feature styles/dtypes/strides, label dtypes). Non-trivial: the reference vector has at "
        "least two non-zero entries; distinct by (family, options, labeling, rounded vector).")
ASSUMPTIONS = ["reference layout transcribed from the documentation of each model"]


def jf(model, inst, x, y, ytrue=None):
    if getattr(inst, "rescale", False):
        return model.joint_feature(x, y, ytrue)
    return model.joint_feature(x, y)


def scale_of(inst, ytrue):
    if getattr(inst, "rescale", False):
        return 1. if inst.class_weight is None else float(inst.class_weight[ytrue])
    return 1.


def tol(inst):
    x = inst.x
    arrs = [a for a in (x if isinstance(x, tuple) else (x,)) if isinstance(a, np.ndarray)]
    if isinstance(x, tuple):
        arrs += [a for l in x if isinstance(l, list) for a in l if isinstance(a, np.ndarray)]
    return 1e-4 if any(a.dtype == np.float32 for a in arrs) else 1e-9


def case(rng, i, obs, tier):
    if i % 13 == 12:
        history(rng, obs, FAM_LIST[int(rng.integers(len(FAM_LIST)))], ["joint_feature"])
        return
    fam = FAM_LIST[i % len(FAM_LIST)]
    big = (i // len(FAM_LIST)) % 8 == 7
    kw = {} if fam in ("binary", "multiclass") else {"maxlab": 10 ** 7}
    if big:
        # many states and nodes: nothing is enumerated here
        S = int(rng.integers(5, 28)) if rng.random() < .8 else int(rng.integers(100, 150))
        if fam in ("graph", "chain", "edgefeat"):
            kw = dict(n=int(rng.integers(2, 40)), S=S, maxlab=float("inf"))
        elif fam in ("grid", "dirgrid"):
            kw = dict(h=int(rng.integers(1, 9)), w=int(rng.integers(1, 9)), S=S, maxlab=float("inf"))
        elif fam in ("latnode", "eflatnode"):
            kw = dict(nv=int(rng.integers(2, 20)), nh=int(rng.integers(1, 9)), L=int(rng.integers(2, 15)),
                      H=int(rng.integers(2, 14)), maxlab=float("inf"))
        elif fam == "multiclass":
            kw = dict(S=S)
        elif fam == "typed":
            kw = dict(S=[int(v) for v in rng.integers(2, 14, size=3)], T=3, maxlab=float("inf"))
    inst = FAMS[fam](rng, **kw)
    model = inst.make()
    t = tol(inst)
    obs.check(model.size_joint_feature == inst.wdim, "size:%s" % fam,
              lambda: "size_joint_feature %r, expected %d; %s" % (model.size_joint_feature, inst.wdim, inst.describe()))
    ytrue = inst.rand_flat(rng)
    yt = inst.fmt(ytrue)
    ys = []
    for k in range(3):
        y = inst.rand_flat(rng)
        if k == 1:
            y = np.array([d[-1] for d in inst.doms])
        ys.append(y)
        ref = inst.psi(y) * scale_of(inst, yt)
        w = inst.rand_w(rng, "normal")
        if abs(np.dot(w, inst.psi(y)) - inst.score(w, y)) > 1e-6 * (1 + np.abs(inst.psi(y)).sum()):
            raise HarnessError("reference psi and potentials disagree: " + inst.describe())
        dt = Y_DTYPES[rng.integers(len(Y_DTYPES))]
        if fam == "multilabel" and rng.random() < .2:
            dt = bool
        elif rng.random() < .4 and not inst.scalar:
            # the smallest type that holds the labels
            dt = [d for d in (np.int8, np.uint8, np.int16) if y.max(initial=0) <= np.iinfo(d).max][0]
            obs.ev("small-type")
        got = np.asarray(jf(model, inst, inst.x, inst.fmt(y, dt), yt))
        obs.ev("joint_feature")
        if not obs.check(got.shape == (inst.wdim,) and close(got, ref, t, t), "joint-feature:%s" % fam,
                         lambda: "%s y=%s (%s)\n got %s\n ref %s" % (inst.describe(), y.tolist(), np.dtype(dt), got, ref)):
            return
        obs.check(abs(np.dot(w, got) - inst.score(w, y) * scale_of(inst, yt)) <= 10 * t * (1 + np.abs(got).sum() * 3),
                  "energy:%s" % fam, lambda: inst.describe())
        if np.count_nonzero(ref) >= 2:
            obs.nontrivial(fam, sorted(inst.opts.items(), key=str), y.tolist(), np.round(ref, 4).tolist())
    obs.sample("%s y=%s -> %s" % (inst.describe(), ys[0].tolist(), np.round(inst.psi(ys[0]), 3).tolist()))
    # one-hot and fractional marginals
    if inst.relaxed_ok and len(inst.edges):
        lam = rng.dirichlet(np.ones(3))
        if fam == "typed":
            hots = [inst.onehot_lists(y) for y in ys]
            one = (hots[0][0], hots[0][1])
            mix = ([sum(l * h[0][t_] for l, h in zip(lam, hots)) for t_ in range(inst.T)],
                   [sum(l * h[1][p] for l, h in zip(lam, hots)) for p in range(inst.T ** 2)])
        else:
            hots = [inst.onehot(y) for y in ys]
            one = inst.marginals(*hots[0])
            mix = inst.marginals(sum(l * h[0] for l, h in zip(lam, hots)), sum(l * h[1] for l, h in zip(lam, hots)))
            if getattr(inst, "grid", False) is False and fam in ("latnode", "eflatnode"):
                pass
        refs = [inst.psi(y) for y in ys]
        g1 = np.asarray(model.joint_feature(inst.x, one))
        obs.ev("onehot_marginals")
        obs.check(close(g1, refs[0], t, t), "marginals-onehot:%s" % fam,
                  lambda: "%s\n got %s\n ref %s" % (inst.describe(), g1, refs[0]))
        g2 = np.asarray(model.joint_feature(inst.x, mix))
        r2 = sum(l * r for l, r in zip(lam, refs))
        obs.check(close(g2, r2, max(t, 1e-8), max(t, 1e-8)), "marginals-linear:%s" % fam,
                  lambda: "%s\n got %s\n ref %s" % (inst.describe(), g2, r2))
    # batch
    if fam == "binary":
        k = int(rng.integers(1, 6))
        X = rng.normal(size=(k, inst.F))
        Y = rng.choice([-1, 1], size=k)
        got = model.batch_joint_feature(X, Y)
        ref = sum(X[j] * Y[j] / 2. for j in range(k))
    elif fam == "multiclass":
        k = int(rng.integers(1, 8))
        X = np.ascontiguousarray(rng.normal(size=(k, inst.F)))
        Y = rng.integers(0, inst.n_states, size=k).astype(rng.choice([np.int64, np.int32, np.int16, np.uint8]))
        T = rng.integers(0, inst.n_states, size=k)
        if rng.random() < .3:
            X = np.asfortranarray(X)
        got = model.batch_joint_feature(X, Y, T) if inst.rescale else model.batch_joint_feature(X, Y)
        ref = np.zeros((inst.n_states, inst.F))
        for j in range(k):
            c = float(inst.class_weight[T[j]]) if inst.rescale and inst.class_weight is not None else 1.
            ref[Y[j]] += c * X[j]
        ref = ref.ravel()
    else:
        Ys = [inst.fmt(y) for y in ys]
        got = model.batch_joint_feature([inst.x] * 3, Ys)
        ref = sum(inst.psi(y) for y in ys)
    obs.ev("batch")
    obs.check(close(got, ref, t, t), "batch:%s" % fam, lambda: "%s got %s ref %s" % (inst.describe(), got, ref))
