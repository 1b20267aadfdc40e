"""Losses in all their forms, and learner scores, against the weighted Hamming loss on the compared labels."""
import numpy as np
from vlib.learn import several
from vlib.inst import FAM_LIST, Y_DTYPES, close
from vlib.data import Dataset

CASES = {"quick": 6400, "thorough": 90000}
MIN_EVENTS = {"loss": 30000, "continuous": 8000, "class_weighted": 1000, "latent_score": 500, "score": 2500,
              "zero_loss_other_states": 200, "equal": 1500}
RULE = ("A data set of 1-4 samples of one of 14 families x labelings (random, the truth, one flip, everything wrong, "
        "other latent states with the same labels) x label dtypes: loss, continuous loss (one-hot, convex "
        "combinations), batch loss, maximal loss and the score of a learner holding random weights. Non-trivial: "
        "some loss is positive; distinct by data and labelings.")


def learner(rng, fam, model, latent):
    from pystruct import learners as L
    if latent and rng.random() < .75:
        if rng.random() < .5:
            return L.SubgradientLatentSSVM(model), "SubgradientLatentSSVM"
        base = L.OneSlackSSVM if rng.random() < .5 else L.NSlackSSVM
        return L.LatentSSVM(base(model)), "LatentSSVM"
    cls = [L.OneSlackSSVM, L.NSlackSSVM, L.FrankWolfeSSVM, L.SubgradientSSVM, L.StructuredPerceptron][rng.integers(5)]
    return cls(model), cls.__name__


def onehot(inst, flat):
    if inst.fam == "typed":
        return inst.onehot_lists(flat)[0]
    return inst.marginals(*inst.onehot(flat))[0]


def comb(us, c):
    if isinstance(us[0], list):
        return [sum(ci * u[k] for ci, u in zip(c, us)) for k in range(len(us[0]))]
    return sum(ci * u for ci, u in zip(c, us))


def case(rng, i, obs, tier):
    fam = FAM_LIST[i % len(FAM_LIST)]
    ds = Dataset(rng, fam, several(rng, 5), same_shape=bool(rng.random() < .5))
    first = ds.first
    if fam == "multiclass":
        for inst in ds.insts:
            inst.rescale = first.rescale
    model = ds.make()
    ms = None if first.scalar else (["ad3", "max-product", "lp"][rng.integers(3)] if fam != "typed" else "ad3")
    if ms:
        model = ds.make(ms)
    if first.class_weight is not None:
        obs.ev("class_weighted")
    d = lambda extra="": "%s cw=%s %s" % (ds.describe(), None if first.class_weight is None else
                                          first.class_weight.tolist(), extra)
    hats = []
    positive = False
    for inst, y in zip(ds.insts, ds.flats):
        dt = Y_DTYPES[rng.integers(len(Y_DTYPES))]
        if fam == "binary" or fam == "multiclass":
            dt = int
        yt = inst.fmt(y, dt)
        if inst.scalar:
            yt = np.int64(yt)
        cands = [y, inst.rand_flat(rng), inst.rand_flat(rng)]
        f = np.array(y)
        k = int(rng.integers(len(f)))
        f[k] = rng.choice(inst.doms[k])
        cands.append(f)
        cands.append(np.array([rng.choice([v for v in dd if v != t] or [t]) for dd, t in zip(inst.doms, y)]))
        if inst.latent:
            c = inst.completions(inst.visible_labels(y))
            cands.append(np.array([rng.choice(v) for v in c]))
        mx = float(model.max_loss(yt))
        obs.check(close(mx, inst.max_loss(y)), "max-loss:" + fam, lambda: d("y=%r got %r expected %r" % (
            yt, mx, inst.max_loss(y))))
        for c in cands:
            ref = inst.loss(y, c)
            yh = inst.fmt(c, Y_DTYPES[rng.integers(len(Y_DTYPES))] if not inst.scalar else int)
            if inst.scalar:
                yh = np.int64(yh)
            got = float(model.loss(yt, yh))
            obs.ev("loss")
            obs.check(close(got, ref), "loss:" + fam, lambda: d("y=%r y_hat=%r loss %r expected %r" % (
                yt, yh, got, ref)))
            same = np.array_equal(inst.visible_labels(y), inst.visible_labels(c))
            obs.check((got == 0) == same and 0 <= got <= mx * (1 + 1e-12), "loss-range:" + fam, lambda: d(
                "y=%r y_hat=%r loss %r max %r" % (yt, yh, got, mx)))
            if same:
                obs.ev("equal")
                if not np.array_equal(y, c):
                    obs.ev("zero_loss_other_states")
            positive |= ref > 0
        hats.append(cands[int(rng.integers(1, len(cands)))])
        # continuous loss
        if inst.relaxed_ok:
            yt0 = inst.fmt(y)
            us = [onehot(inst, c) for c in cands]
            for c, u in zip(cands, us):
                got = float(model.continuous_loss(yt0, u))
                obs.ev("continuous")
                obs.check(close(got, inst.loss(y, c)), "continuous-onehot:" + fam, lambda: d(
                    "y=%r y_hat=%r got %r expected %r" % (yt0, c, got, inst.loss(y, c))))
            co = rng.dirichlet(np.ones(len(us)))
            mix = comb(us, co)
            ref = float(np.dot(co, inst.losses(y, cands)))
            got = float(model.continuous_loss(yt0, mix))
            got2 = float(model.loss(yt0, (mix, None)))
            obs.check(close(got, ref) and close(got2, ref), "continuous-linear:" + fam, lambda: d(
                "y=%r mix of %r with %r: continuous_loss %r loss %r expected %r" % (yt0, cands, co, got, got2, ref)))
    # batch
    Y, H = ds.Y(), ds.pack(hats)
    bl = np.asarray(model.batch_loss(Y, H), float)
    ref = [inst.loss(y, h) for inst, y, h in zip(ds.insts, ds.flats, hats)]
    obs.check(close(bl, ref), "batch-loss:" + fam, lambda: d("batch loss %r expected %r" % (bl, ref)))
    # score of a learner
    lrn, ln = learner(rng, fam, model, first.latent)
    w = first.rand_w(rng, "normal")
    lrn.w = w
    if fam == "typed" and ln == "x":
        return
    latent_api = ln in ("LatentSSVM", "SubgradientLatentSSVM")
    X = ds.X()
    pred = lrn.predict(X)
    if len(pred) != ds.n:
        obs.fail("predict-count:" + ln, d("%d predictions" % len(pred)))
        return
    # is a prediction deterministic?  (needed to compare the score with the predictions)
    if latent_api:
        yv = ds.visible()
        tot = mxs = 0.
        for inst, y, p in zip(ds.insts, ds.flats, pred):
            vy = inst.visible_labels(y)
            p = np.asarray(p)
            if not obs.check(p.shape == tuple(inst.visible_shape()), "predict-shape:%s:%s" % (ln, fam), lambda: d(
                    "prediction %r" % p)):
                return
            for a, b in zip(vy, p.ravel()):
                cw = 1. if inst.class_weight is None else float(inst.class_weight[a])
                tot += cw * (a != b)
                mxs += cw
        got = float(lrn.score(X, yv))
        obs.ev("latent_score")
    else:
        tot = sum(inst.loss(y, np.asarray(inst.unfmt(p), int)) for inst, y, p in zip(ds.insts, ds.flats, pred))
        mxs = sum(inst.max_loss(y) for inst, y in zip(ds.insts, ds.flats))
        got = float(lrn.score(X, Y))
        obs.ev("score")
    obs.check(close(got, 1 - tot / mxs, atol=1e-8), "score:%s:%s" % (ln, fam), lambda: d(
        "w=%r pred=%r score %r expected %r" % (w, pred, got, 1 - tot / mxs)))
    if positive:
        obs.nontrivial(ds.describe(), [y.tolist() for y in ds.flats], [h.tolist() for h in hats], ln)
        obs.sample("%s score %s %.4f, total loss %.4f of %.4f" % (ds.describe(), ln, got, tot, mxs))
