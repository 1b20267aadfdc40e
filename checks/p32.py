"""Estimator protocol: parameters round-trip, set_params is as good as the constructor, clones, model selection."""
import copy
import inspect

import numpy as np
from vlib.learn import training_set, plan, Plan, same, can_initialize, rand_C, BB, PLAIN, LATENT
from checks.p26 import results, plain

CASES = {"quick": 1200, "thorough": 30000}
KINDS = ("one-slack", "n-slack", "subgradient", "subgradient-latent", "fw", "fw-batch", "perceptron", "latent-one",
         "latent-n", "latent-sub")
MIN_EVENTS = {"round-trip": 1500, "parameter": 15000, "set-unfitted": 400, "set-fitted": 400, "clone": 800, "clone-fitted": 400,
              "nested": 60, "cross-val": 60, "grid-search": 25, "defaults": 40, "unknown-parameter": 400, "differs-by-parameter": 250}
MIN_EVENTS.update({"kind:" + k: 25 for k in KINDS})
MIN_EVENTS.update({"fam:" + f: 35 for f in PLAIN + LATENT})
RULE = ("All learners on 14 families with random parameters: get_params against the constructor arguments (all of them, "
        "defaults included) before and after training, set_params on new and on fitted learners (partly one by one, "
        "nested for the latent learner) against a learner constructed with those parameters, clones of new and fitted "
        "learners (equal parameters, no training results, models of their own), cross_val_score and GridSearchCV "
        "against explicit loops over the same splits. Monitor: bitwise equal weights, curves and predictions. "
        "Non-trivial: the two parameter sets give different results; distinct by plan.")
ASSUMPTIONS = "bitwise repeatability of one numpy/cvxopt build; scikit-learn's clone and splitters"
CASE_CPU_S = 100.


# as the class documentation states them (the documented tol of NSlackSSVM, -10, is not what its signature has: left out)
COMMON = dict(max_iter=100, C=1.0, verbose=0, n_jobs=1, show_loss_every=0, logger=None)
DEFAULTS = {
    "NSlackSSVM": dict(COMMON, check_constraints=True, negativity_constraint=None, break_on_bad=False, batch_size=100,
                       inactive_threshold=1e-05, inactive_window=50, switch_to=None),
    "OneSlackSSVM": dict(COMMON, max_iter=10000, check_constraints=False, negativity_constraint=None, break_on_bad=False,
                         tol=0.001, inference_cache=0, inactive_threshold=1e-05, inactive_window=50, cache_tol="auto",
                         switch_to=None),
    "SubgradientSSVM": dict(COMMON, momentum=0.0, learning_rate="auto", decay_exponent=1, break_on_no_constraints=True,
                            batch_size=None, decay_t0=10, averaging=None, shuffle=False),
    "SubgradientLatentSSVM": dict(COMMON, momentum=0.0, learning_rate="auto", decay_exponent=1, decay_t0=10,
                                  break_on_no_constraints=True, averaging=None),
    "StructuredPerceptron": dict(max_iter=100, verbose=0, batch=False, decay_exponent=0, decay_t0=10, average=False,
                                 n_jobs=1, logger=None),
    "FrankWolfeSSVM": dict(COMMON, max_iter=1000, batch_mode=False, line_search=True, check_dual_every=10, tol=0.001,
                           do_averaging=True, sample_method="perm", random_state=None),
}


def case(rng, i, obs, tier):
    import joblib
    with joblib.parallel_backend("threading"):
        try:
            if i % 6 == 5:
                selection(rng, i // 6, obs)
            else:
                parameters(rng, i, obs)
        except ValueError as e:
            if "QP solver failed" not in str(e):
                raise
            obs.ev("qp-failed")


def args_of(cls):
    """constructor parameters and their defaults"""
    sig = inspect.signature(cls.__init__)
    return {k: p.default for k, p in sig.parameters.items() if k != "self" and p.kind != p.VAR_KEYWORD}


def eq(a, b):
    if a is b:
        return True
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and np.array_equal(a, b)
    return type(a) is type(b) and bool(a == b)


def setup(rng, i):
    fams = PLAIN + LATENT
    ds = training_set(rng, fam=fams[i % len(fams)])
    P = plan(rng, ds, iters=int(rng.integers(2, 9)))
    return ds, P


def extras(rng, P):
    """further parameters that a user may set (without effect on the comparisons)"""
    kw = {}
    r = lambda p: rng.random() < p
    if r(.4):
        kw["verbose"] = int(rng.integers(0, 3))
    if P.kind in ("one-slack", "n-slack") and r(.4):
        kw["check_constraints"] = bool(r(.5))
    if P.kind == "one-slack" and r(.3):
        kw["cache_tol"] = float(rng.choice([1e-1, 1e-3]))
    if P.kind in ("one-slack", "n-slack") and r(.4):
        kw["break_on_bad"] = False
    if P.kind == "n-slack" and r(.3):
        kw.update(inactive_threshold=float(rng.choice([1e-5, 1e-2])), inactive_window=int(rng.integers(0, 30)))
    if P.kind == "subgradient" and r(.5):
        kw.update(learning_rate=P.C * float(rng.choice([.3, 1.])), decay_t0=float(rng.choice([1, 10])),
                  decay_exponent=float(rng.choice([0, .5, 1])), break_on_no_constraints=bool(r(.5)), shuffle=bool(r(.3)))
    if P.kind == "subgradient-latent" and r(.5):
        kw.update(learning_rate=P.C * float(rng.choice([.3, 1.])), decay_t0=float(rng.choice([1, 10])),
                  decay_exponent=float(rng.choice([0, .5, 1])), break_on_no_constraints=bool(r(.5)))
    if P.kind in ("fw", "fw-batch") and r(.5):
        kw.update(tol=float(rng.choice([1e-1, 1e-3])), check_dual_every=int(rng.integers(1, 6)))
    if P.kind == "perceptron" and r(.5):
        kw.update(decay_t0=int(rng.integers(1, 12)))
    return kw


def core(P, l):
    return l.base_ssvm if P.kind.startswith("latent") else l


def check_params(obs, P, l, given, when):
    """get_params of the learner against the constructor arguments"""
    c = core(P, l)
    want = args_of(type(c))
    want.update(given)
    got = c.get_params(deep=False)
    obs.ev("round-trip")
    obs.check(set(got) == set(want), "parameter-names", lambda: "%s %s: %r" % (P.describe(), when, set(got) ^ set(want)))
    for k in want:
        if k in got and k not in ("logger",):
            obs.ev("parameter")
            obs.check(eq(got[k], want[k]), "parameter-value:%s" % k, lambda: "%s %s: %s is %r instead of %r" % (
                P.describe(), when, k, got[k], want[k]))
    repr(l)
    if c is not l:
        d = l.get_params(deep=True)
        obs.ev("nested")
        obs.check(d["base_ssvm"] is c and d["latent_iter"] == P.latent_iter and all(
            k in d and eq(d[k], c.get_params(deep=False)[k[len("base_ssvm__"):]]) for k in
            ["base_ssvm__" + a for a in got]), "nested-parameters", lambda: "%s %s %r" % (P.describe(), when, d))


def run(P, l):
    X, Y = P.data()
    P.fit(l, X, Y)
    return results(P, l, X)


def parameters(rng, i, obs):
    from sklearn.base import clone
    ds, P = setup(rng, i)
    P.kw.update(extras(rng, P))
    obs.ev("fam:" + ds.fam)
    obs.ev("kind:" + P.kind)
    l = P.make()
    model = core(P, l).model
    check_params(obs, P, l, dict(P.kw, model=model), "new")
    if rng.random() < .15:
        # everything but the model by default
        obs.ev("defaults")
        cls = type(core(P, l))
        m = P.model()
        Q = copy.copy(P)
        Q.kw = {}
        e = cls(m)
        g = e.get_params(deep=False)
        want = dict(args_of(cls), model=m)
        obs.check(all(eq(g.get(k), want[k]) for k in want), "defaults", lambda: "%s %r %r" % (cls, g, want))
        doc = DEFAULTS[cls.__name__]
        obs.check(all(k in g and (g[k] is doc[k] or g[k] == doc[k]) for k in doc), "documented-defaults", lambda: "%s %r %r" % (
            cls, g, doc))
    first = run(P, l)
    check_params(obs, P, l, dict(P.kw, model=model), "fitted")
    # another configuration of the same learner
    Q = copy.copy(P)
    for _ in range(6):
        cand = Plan(rng, ds, P.kind, iters=int(rng.integers(2, 9)))
        Q.kw = dict(cand.kw, **extras(rng, cand))
        if Q.kw != P.kw:
            break
    Q.C = Q.kw.get("C", P.C)
    Q.latent_iter = int(rng.integers(1, 5))
    want = run(Q, Q.make())
    cls = type(core(P, l))
    full = {k: v for k, v in args_of(cls).items() if k not in ("model", "logger")}
    full.update(Q.kw)
    for hist in ("unfitted", "fitted"):
        m = l if hist == "fitted" else P.make()
        prefix = "base_ssvm__" if core(P, m) is not m and rng.random() < .5 else ""
        target = m if prefix or core(P, m) is m else core(P, m)
        if rng.random() < .5:
            r = target.set_params(**{prefix + k: v for k, v in full.items()})
            obs.check(r is target, "set-params-returns", lambda: P.describe())
        else:
            for k in rng.permutation(sorted(full)):
                target.set_params(**{prefix + str(k): full[str(k)]})
        if core(P, m) is not m:
            m.set_params(latent_iter=Q.latent_iter)
        obs.ev("set-" + hist)
        check_params(obs, Q, m, dict(full, model=core(P, m).model), "set_params on " + hist)
        got = run(Q, m)
        bad = same(want, got)
        obs.check(not bad, "set-params:" + hist, lambda: "%s -> %s\n%s" % (P.describe(), Q.kw, "\n".join(bad)[:900]))
    if same(first, want):
        obs.ev("differs-by-parameter")
        obs.nontrivial(P.describe(), repr(Q.kw))
        obs.sample("%s -> %r" % (P.describe(), Q.kw))
    # clones: l is fitted with the parameters of Q
    for fitted in (True, False):
        src = l if fitted else Q.make()
        c = clone(src)
        obs.ev("clone-fitted" if fitted else "clone")
        obs.ev("clone", int(fitted))
        a, b = core(P, src), core(P, c)
        pa, pb = a.get_params(deep=False), b.get_params(deep=False)
        obs.check(type(c) is type(src) and set(pa) == set(pb) and all(eq(pa[k], pb[k]) for k in pa if k not in (
            "model", "logger")), "clone-parameters", lambda: "%s %r %r" % (Q.describe(), pa, pb))
        obs.check(b.model is not a.model and type(b.model) is type(a.model), "clone-model", lambda: Q.describe())
        left = [k for k in vars(b) if k.endswith("_") or k in ("w", "alphas", "constraints")]
        obs.check(not left, "clone-fitted", lambda: "%s %r" % (Q.describe(), left))
        before = results(Q, src, Q.data()[0]) if fitted else None
        got = run(Q, c)
        bad = same(want, got)
        obs.check(not bad, "clone-trains", lambda: "%s\n%s" % (Q.describe(), "\n".join(bad)[:900]))
        if fitted:
            bad = same(before, results(Q, src, Q.data()[0]))
            obs.check(not bad, "clone-changes-original", lambda: "%s\n%s" % (Q.describe(), "\n".join(bad)[:900]))
    obs.ev("unknown-parameter")
    try:
        l.set_params(no_such_parameter=1)
        obs.fail("unknown-parameter", P.describe())
    except ValueError:
        pass


def selection(rng, i, obs):
    """scikit-learn's model selection against explicit loops"""
    from sklearn.base import clone
    from sklearn.model_selection import KFold, cross_val_score, GridSearchCV
    fams = PLAIN
    ds = training_set(rng, fam=fams[i % len(fams)], n=int(rng.integers(4, 8)))
    P = plan(rng, ds, iters=int(rng.integers(2, 7)), show_loss=False)
    X, Y = P.data()
    obs.ev("fam:" + ds.fam)
    obs.ev("kind:" + P.kind)
    cv = KFold(int(rng.integers(2, 4)), shuffle=bool(rng.random() < .5), random_state=None)
    if cv.shuffle:
        cv = KFold(cv.n_splits, shuffle=True, random_state=int(rng.integers(100)))
    pick = lambda Z, idx: Z[idx] if isinstance(Z, np.ndarray) else [Z[k] for k in idx]
    splits = list(cv.split(np.arange(ds.n)))

    def manual(kw):
        out = []
        for tr, te in splits:
            Q = copy.copy(P)
            Q.kw = dict(P.kw, **kw)
            l = Q.make()
            np.random.seed(P.seed)
            l.fit(pick(X, tr), pick(Y, tr), initialize=False)
            Yt = pick(Y, te)
            # score: one minus the summed losses over the summed maximal losses of the predictions
            pred = l.predict(pick(X, te))
            loss = sum(float(l.model.loss(a, b)) for a, b in zip(Yt, pred))
            worst = sum(float(l.model.max_loss(a)) for a in Yt)
            out.append(1 - loss / worst if worst else np.nan)
        return np.array(out)
    fit_params = {"initialize": False}
    np.random.seed(P.seed)
    if P.kw.get("shuffle"):
        return
    got = cross_val_score(P.make(), X, Y, cv=cv, fit_params=fit_params, error_score="raise")
    want = manual({})
    obs.ev("cross-val")
    obs.check(np.allclose(got, want, atol=1e-9, equal_nan=True), "cross-val", lambda: "%s %r %r" % (P.describe(), got, want))
    grid = {"max_iter": [1, 5]}
    if "C" in P.kw:
        grid = {"C": sorted({rand_C(rng), P.kw["C"], 1.0})}
    if rng.random() < .6 and not np.isnan(want).any():
        gs = GridSearchCV(P.make(), grid, cv=cv, error_score="raise")
        gs.fit(X, Y, initialize=False)
        name = list(grid)[0]
        means = [manual({name: v}).mean() for v in grid[name]]
        obs.ev("grid-search")
        obs.check(np.allclose(gs.cv_results_["mean_test_score"], means, atol=1e-9), "grid-search", lambda: "%s %r %r" % (
            P.describe(), gs.cv_results_["mean_test_score"], means))
        Q = copy.copy(P)
        Q.kw = dict(P.kw, **gs.best_params_)
        l = Q.make()
        l.fit(X, Y, initialize=False)
        bad = same([plain(y) for y in l.predict(X)], [plain(y) for y in gs.predict(X)])
        obs.check(not bad and np.array_equal(l.w, gs.best_estimator_.w), "grid-search-refit", lambda: "%s %r" % (P.describe(), bad))
    if len(set(np.round(want[~np.isnan(want)], 9))) > 1:
        obs.nontrivial(P.describe(), "selection")
