"""Loss-augmented inference against enumeration of score + loss."""
import numpy as np
from vlib.inst import FAMS, FAM_LIST, Y_DTYPES
from vlib.history import history
from vlib.large import large_forest, large_relaxed

CASES = {"quick": 12000, "thorough": 150000}
MIN_EVENTS = {"large:lai": 150, "large-relaxed": 90, "history:lai": 1000, "exact": 5000, "zero_weights": 500, "class_weighted": 1200, "relaxed": 600, "approximate": 500, "energy": 600,
              "tie_at_margin": 60}
RULE = ("One random instance of one of 14 families x ground truth (random or a maximiser, several label dtypes) x weights "
        "(incl. zero, tied at the margin) x solver; the objective is enumerated over all labelings. Non-trivial: more "
        "than one labeling; distinct by instance, weights, truth and method.")
BB = ("ad3", {"branch_and_bound": True})


def case(rng, i, obs, tier):
    if i % 11 == 10:
        history(rng, obs, FAM_LIST[int(rng.integers(len(FAM_LIST)))], ["lai"])
        return
    if i % 29 == 28:
        large_forest(rng, obs, ["lai"])
        return
    if i % 61 == 60:
        large_relaxed(rng, obs, augment=True)
        return
    fam = FAM_LIST[i % len(FAM_LIST)]
    inst = FAMS[fam](rng)
    w = inst.rand_w(rng)
    flats = inst.all_flat()
    yf = inst.rand_flat(rng) if rng.random() < .6 else flats[int(np.argmax(inst.scores(w, flats)))]
    if rng.random() < .12:
        w = np.zeros_like(w)
    if fam == "binary" and rng.random() < .3:  # exactly at the margin
        x = np.asarray(inst.x, float)
        k = int(np.argmax(np.abs(x)))
        if x[k] != 0:
            w = np.zeros_like(w)
            w[k] = float(yf[0]) / x[k]
            if np.dot(x, w) == yf[0]:
                obs.ev("tie_at_margin")
    if fam == "multiclass" and rng.random() < .2:
        w = np.round(w)
    dt = Y_DTYPES[rng.integers(len(Y_DTYPES))]
    y = inst.fmt(yf, dt)
    relaxed = False
    if inst.scalar:
        m, mn = None, "argmax"
    else:
        if fam == "typed":
            ms = [BB, ("ad3+", {"branch_and_bound": True}), "ad3", "ad3+"]
            p = [.5, .2, .2, .1]
        else:
            ms = [BB, "max-product", "lp", "ad3", "unary"]
            p = [.45, .2, .16, .16, .03]
        m = ms[rng.choice(len(ms), p=p)]
        mn = m if isinstance(m, str) else m[0] + "-bb"
        relaxed = mn in ("lp", "ad3", "ad3+") and rng.random() < .75
    model = inst.make(m) if m is not None else inst.make()
    key = "%s:%s" % (fam, mn)
    scores = inst.scores(w, flats)
    losses = inst.losses(yf, flats)
    if fam == "multiclass" and inst.rescale:
        scores = scores * (1. if inst.class_weight is None else float(inst.class_weight[yf[0]]))
    objs = scores + losses
    opt = objs.max()
    U, P = inst.potentials(w)
    total = sum(np.abs(u).max() for u in U) + sum(np.abs(p).max() for p in P) + losses.max()
    if not np.any(w):
        obs.ev("zero_weights")
    if inst.class_weight is not None:
        obs.ev("class_weighted")
    want_e = (fam == "multiclass" and rng.random() < .4) or (
        fam in ("graph", "grid", "edgefeat", "dirgrid", "chain", "multilabel", "typed",
                "latgraph", "latgrid", "latdirgrid", "latnode", "eflatnode") and rng.random() < .3)
    if want_e:
        res = model.loss_augmented_inference(inst.x, y, w, relaxed=relaxed, return_energy=True)
        if not obs.check(isinstance(res, tuple) and len(res) == 2 and np.ndim(res[1]) == 0, "no-energy:" + key,
                         lambda: "%s\n%r" % (inst.describe(), res)):
            return
        res, energy = res
    else:
        res = model.loss_augmented_inference(inst.x, y, w, relaxed=relaxed) if not inst.scalar or rng.random() < .5 else \
            model.loss_augmented_inference(inst.x, y, w)
    desc = lambda: "%s method=%s relaxed=%s cw=%s w=%s x=%r y=%r\n result=%r optimum=%r" % (
        inst.describe(), mn, relaxed, None if inst.class_weight is None else inst.class_weight.tolist(),
        np.round(w, 5).tolist(), inst.x, y, res, opt)
    if isinstance(res, tuple):
        obs.ev("relaxed")
        if not obs.check(relaxed, "marginals-not-requested:" + key, desc):
            return
        sc = float(np.dot(w, model.joint_feature(inst.x, res)))
        lo = float(model.loss(y, res))
        lc = float(model.continuous_loss(y, res[0]))
        obs.check(abs(lo - lc) < 1e-9 * (1 + abs(lo)), "loss-of-marginals:" + key, desc)
        tol = (1e-4 if not getattr(inst, "hidden_nodes", False) else 2e-3) * (total + 1)
        obs.check(sc + lo >= opt - tol, "relaxed-bound:" + key, lambda: "objective %r\n%s" % (sc + lo, desc()))
        if want_e and abs(energy) < 1e99:
            obs.ev("energy")
            obs.check(abs(float(energy) + sc + lo) <= 2e-3 * (total + 1), "energy:" + key, lambda: "energy %r objective %r\n%s" % (
                energy, sc + lo, desc()))
    else:
        if not obs.check(inst.ok_labels(res), "invalid-labels:" + key, desc):
            return
        yh = inst.unfmt(res)
        if inst.scalar:
            yh = yh.astype(int)
        sc, lo = inst.score(w, yh), inst.loss(yf, yh)
        if fam == "multiclass" and inst.rescale and inst.class_weight is not None:
            sc *= float(inst.class_weight[yf[0]])
        obj = sc + lo
        if want_e and abs(energy) < 1e99 and (inst.scalar or mn.endswith("-bb") or mn == "max-product" or
                                             not len(inst.edges) or relaxed):
            obs.ev("energy")
            sign = 1 if fam == "multiclass" else -1
            if fam == "multiclass" and inst.rescale and inst.class_weight is not None:
                energy = energy * float(inst.class_weight[yf[0]])  # the constraint is scaled, not the arg-max
            etol = (1e-5 if mn.endswith("-bb") or mn in ("max-product", "argmax") else 2e-3) * (total + 1)
            obs.check(abs(float(energy) - sign * obj) <= etol, "energy:" + key, lambda: "energy %r objective %r\n%s" % (
                energy, obj, desc()))
        exact = inst.scalar or mn.endswith("-bb") or (mn == "max-product" and inst.acyclic()) or not len(inst.edges) \
            or relaxed
        if exact:
            obs.ev("exact")
            tol = (1e-6 if not relaxed and len(inst.edges) or inst.scalar else 1e-4) * (total + 1)
            obs.check_exact(obj >= opt - tol, "suboptimal:" + key, lambda: "objective %r\n%s" % (obj, desc()))
            own = inst.score(w, yf) * (1. if not (fam == "multiclass" and inst.rescale and inst.class_weight is not None)
                                       else float(inst.class_weight[yf[0]]))
            obs.check_exact(obj >= own - tol, "below-truth:" + key, desc)
            if not np.any(w):
                obs.check_exact(lo >= losses.max() - tol, "zero-w-loss:" + key, lambda: "loss %r of max %r\n%s" % (
                    lo, losses.max(), desc()))
        else:
            obs.ev("approximate")
    if len(flats) > 1:
        obs.nontrivial(inst.describe(), np.round(w, 4).tolist(), yf.tolist(), mn)
        obs.sample("%s %s: optimum of score+loss %.5g over %d labelings" % (inst.describe(), key, opt, len(flats)))
