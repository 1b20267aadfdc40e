"""Training is repeatable: twins, refits, clones, interleaved work, verbosity; warm starts continue."""
import copy
import os
import subprocess
import sys

import numpy as np
from vlib.data import Dataset, ssvm_optimum
from vlib.inst import gen_edges
from vlib.learn import training_set, hard_set, plan, Plan, same, rand_C, can_initialize, BB, PLAIN, LATENT

CASES = {"quick": 2400, "thorough": 40000}
KINDS = ("one-slack", "n-slack", "subgradient", "subgradient-latent", "fw", "fw-batch", "perceptron", "latent-one",
         "latent-n", "latent-sub")
WAYS = ("twin", "refit", "refit-other-data", "refit-other-C", "clone", "interleaved", "verbose", "after-predict",
        "containers", "no-logger", "random-state", "shared-model")
MIN_EVENTS = {"repeated": 4000, "warm-cutting": 100, "warm-sub": 40, "warm-optimum": 60, "process": 8, "interleaved-calls": 400,
              "loss-curve": 300, "long-warm": 15, "long-warm-planes": 500}
MIN_EVENTS.update({"kind:" + k: 60 for k in KINDS})
MIN_EVENTS.update({"way:" + k: 150 for k in WAYS})
MIN_EVENTS.update({"fam:" + f: 60 for f in PLAIN + LATENT})
RULE = ("All learners x 14 families. The weights, objective curves, loss curves and predictions of a first fit against "
        "those of: a second learner, another fit of the same learner (also after fitting other data or with another C "
        "in between), a clone, a fit during which unrelated learners train and predict on their own models and share "
        "the process, other verbosity, other containers, no logger, a process with another hash seed. Warm starts: "
        "objective no worse, certified optimum reached, subgradient steps continue exactly. Non-trivial: at least two "
        "repetitions with non-zero weights; distinct by plan.")
ASSUMPTIONS = "bitwise repeatability of one numpy/cvxopt build in one environment (single-threaded BLAS)"
CASE_CPU_S = 100.
CURVES = ("objective_curve_", "primal_objective_curve_", "loss_curve_", "cached_constraint_")


def results(P, learner, X, seed=3):
    """what a user sees after training"""
    core = learner.base_ssvm if P.kind.startswith("latent") else learner
    out = {"w": P.weights(learner)}
    for c in CURVES:
        if hasattr(core, c):
            out[c] = np.array(getattr(core, c), float)
    out["predictions"] = [plain(y) for y in learner.predict(X)]
    return out


def plain(y):
    if isinstance(y, (tuple, list)):
        return [np.array(a).tolist() for a in y]
    return np.array(y).tolist()


class Noise(object):
    """unrelated training and inference in between the iterations; leaves the global random numbers alone"""

    def __init__(self, rng, obs, others):
        self.rng, self.obs, self.others, self.n = rng, obs, others, 0

    def __getstate__(self):
        return {}

    def __deepcopy__(self, memo):
        return self

    def __call__(self, learner, it):
        if self.n >= 3:
            return
        self.n += 1
        state = np.random.get_state()
        try:
            Q, m, X, Y = self.others[self.n % len(self.others)]
            self.obs.ev("interleaved-calls")
            try:
                l = Q.fit(Q.make(m), X, Y)
                l.predict(X)
            except ValueError as e:
                if "QP solver failed" not in str(e):
                    raise
        finally:
            np.random.set_state(state)


def setup(rng, i):
    fams = PLAIN + LATENT
    ds = training_set(rng, fam=fams[i % len(fams)])
    P = plan(rng, ds)
    if P.kw.get("max_iter", 0) > 300:
        P.kw["max_iter"] = 60
    if rng.random() < .35 and P.kind not in ("perceptron", "subgradient-latent"):
        P.kw["show_loss_every"] = int(rng.integers(1, 3))
    if P.kind == "subgradient" and rng.random() < .3:
        P.kw["shuffle"] = True
    return ds, P


def compare(obs, P, way, first, other, note=""):
    obs.ev("repeated")
    obs.ev("way:" + way)
    bad = same(first, other)
    obs.check(not bad, "differs:" + way, lambda: "%s %s\n%s" % (P.describe(), note, "\n".join(bad)[:900]))


def fingerprint(seed, i, tier):
    """results of the case's plan, for another process"""
    from vlib.runner import case_rng
    import joblib
    rng = case_rng("P26", int(seed), int(i))
    np.random.seed(int(rng.integers(2 ** 31)))
    ds, P = setup(rng, int(i))
    X, Y = P.data()
    with joblib.parallel_backend("threading"):
        l = P.fit(P.make(), X, Y)
    r = results(P, l, X)
    return [(k, r[k].tobytes().hex() if isinstance(r[k], np.ndarray) else repr(r[k])) for k in sorted(r)]


def case(rng, i, obs, tier):
    import joblib
    with joblib.parallel_backend("threading"):
        try:
            case_(rng, i, obs, tier)
        except ValueError as e:
            if "QP solver failed" in str(e):
                obs.ev("qp-failed")
                return
            raise


def case_(rng, i, obs, tier):
    from sklearn.base import clone
    ds, P = setup(rng, i)
    obs.ev("fam:" + ds.fam)
    obs.ev("kind:" + P.kind)
    X, Y = P.data()
    learner = P.fit(P.make(), X, Y)
    first = results(P, learner, X)
    if P.kw.get("show_loss_every") and P.kind != "perceptron":
        core = learner.base_ssvm if P.kind.startswith("latent") else learner
        lc = getattr(core, "loss_curve_", [])
        obs.ev("loss-curve", bool(len(lc)))
        iters = None
        if P.kind in ("one-slack", "n-slack"):
            iters = len(core.objective_curve_)
        obs.check(all(-1e-9 <= v <= 1 + 1e-9 for v in lc if v == v), "loss-curve", lambda: "%s %r" % (P.describe(), lc))
        if iters:
            obs.check(len(lc) <= iters, "loss-curve-length", lambda: "%s %r %d" % (P.describe(), lc, iters))
    # twin, always
    X2, Y2 = P.data()
    compare(obs, P, "twin", first, results(P, P.fit(P.make(), X2, Y2), X2))
    ways = [w for w in WAYS if w != "twin"]
    own = P.kind.startswith("latent")
    for way in rng.permutation(ways)[:3]:
        way = str(way)
        note = ""
        if way == "refit":
            for _ in range(int(rng.integers(1, 3))):
                P.fit(learner, X, Y)
            l, Z = learner, X
        elif way == "refit-other-data":
            # a learner with a history on other data of the same kind
            other = Dataset(rng, ds.fam, int(rng.integers(1, 4)), maxlab=60, first=ds.first)
            Q = copy.copy(P)
            Q.ds = other
            Q.own_init = False
            if own or P.kind == "subgradient-latent":
                if any(len(inst.visible_labels(f)) == 0 for inst, f in zip(other.insts, other.flats)):
                    continue
            l = P.make()
            XO, YO = Q.data()
            if can_initialize(ds) != can_initialize(other):
                Q = None
                continue
            Q.fit(l, XO, YO)
            Z, YZ = P.data()
            P.fit(l, Z, YZ)
        elif way == "refit-other-C":
            if "C" not in P.kw:
                continue
            l = P.make()
            l.C = rand_C(rng)
            P.fit(l, X, Y)
            l.C = P.kw["C"]
            Z, YZ = P.data()
            P.fit(l, Z, YZ)
        elif way == "clone":
            if own:
                continue
            l = clone(learner)
            Z, YZ = P.data()
            P.fit(l, Z, YZ)
        elif way in ("interleaved", "shared-model"):
            others = []
            for _ in range(2):
                o = training_set(rng) if way == "interleaved" else Dataset(rng, ds.fam, 2, maxlab=60, first=ds.first)
                if way == "shared-model" and can_initialize(o) != can_initialize(ds):
                    continue
                Q = plan(rng, o, iters=3, show_loss=False)
                if way == "shared-model" and Q.own_init:
                    continue
                others.append((Q, None) + Q.data())
            if not others:
                continue
            m = P.model()
            if way == "shared-model":
                # other learners use the very same model object (their data have the same structure)
                others = [(q, m, x, y) for q, _, x, y in others]
            noise = Noise(rng, obs, others)
            Z, YZ = P.data()
            l = P.make(m, logger=noise)
            if own:
                l.base_ssvm.logger = noise
            P.fit(l, Z, YZ)
            note = repr([o[0].describe() for o in others])
        elif way == "verbose":
            Z, YZ = P.data()
            l = P.make()
            l.verbose = int(rng.choice([1, 2, 4, 6, 10]))
            note = "verbose=%d" % l.verbose
            P.fit(l, Z, YZ)
        elif way == "after-predict":
            learner.predict(X)
            learner.score(X, Y)
            Z = X
            l = learner
        elif way == "containers":
            Z, YZ = P.data()
            if isinstance(Z, np.ndarray):
                continue
            if P.kind.startswith("latent") or P.kind == "subgradient-latent" or rng.random() < .5:
                # another list of the same objects
                Z, YZ = list(X), list(Y) if not isinstance(Y, np.ndarray) else Y
            else:
                Z, YZ = Z, list(YZ) if not isinstance(YZ, np.ndarray) or YZ.ndim > 1 or ds.fam in (
                    "binary", "multiclass") else YZ
            l = P.fit(P.make(), Z, YZ)
        elif way == "no-logger":
            Z, YZ = P.data()
            seen = []
            l = P.make(logger=lambda l, it: seen.append(it))
            P.fit(l, Z, YZ)
            obs.check(len(seen) > 0 and seen[-1] == "final", "logger-calls", lambda: "%s %r" % (P.describe(), seen))
        elif way == "random-state":
            # the generator object instead of its seed
            Z, YZ = P.data()
            l = P.make()
            if P.kind == "fw":
                l.random_state = np.random.RandomState(P.kw["random_state"])
                P.fit(l, Z, YZ)
            else:
                # numbers drawn before the fit do not matter once the generator is seeded
                np.random.rand(7)
                P.fit(l, Z, YZ)
        compare(obs, P, way, first, results(P, l, Z), note)
    if i % 60 == 33:
        long_warm(rng, obs)
    if i % 120 == 7:
        other_process(obs, P, first, i, tier)
    if P.kind in ("one-slack", "n-slack", "subgradient") and rng.random() < .6:
        warm(rng, obs, ds, P)
    if np.any(first["w"]):
        obs.nontrivial(P.describe())
        obs.sample("%s w=%r" % (P.describe(), first["w"][:5]))


def long_warm(rng, obs):
    """a warm start from many cutting planes"""
    from pystruct.learners import OneSlackSSVM, NSlackSSVM
    ds = hard_set(rng)
    model = ds.make() if ds.first.scalar else ds.make(BB)
    kind = str(rng.choice(["one-slack", "n-slack"], p=[.75, .25]))
    kw = dict(C=float(rng.choice([1., 10., 100.])), check_constraints=False)
    if kind == "one-slack":
        kw.update(max_iter=int(rng.integers(40, 110)), tol=1e-3, inactive_window=0 if rng.random() < .5 else 50)
    else:
        kw.update(max_iter=int(rng.integers(2, 6)), tol=-10)
    l = (OneSlackSSVM if kind == "one-slack" else NSlackSSVM)(model, **kw)
    X, Y = ds.X(), ds.Y()
    l.fit(X, Y, initialize=can_initialize(ds))
    before = l.objective_curve_[-1]
    planes = len(l.constraints_) if kind == "one-slack" else sum(len(c) for c in l.constraints_)
    l.max_iter = int(rng.choice([1, 3]))
    if kind == "one-slack":
        l.fit(X, Y, warm_start=True, initialize=can_initialize(ds))
    else:
        l.fit(X, Y, constraints=l.constraints_, initialize=can_initialize(ds))
    obs.ev("long-warm")
    obs.ev("long-warm-planes", planes)
    after = l.objective_curve_[-1]
    obs.check(after >= before - 5e-5 * (1 + abs(after)), "long-warm-worse", lambda: "%s %s %r, %d planes: dual %r -> %r" % (
        ds.describe(), kind, kw, planes, before, after))


def other_process(obs, P, first, i, tier):
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = "12345"
    seed = seed_of()
    code = ("import json, sys; from checks.p26 import fingerprint; import os; o = os.dup(1); "
            "os.dup2(2, 1); r = fingerprint(%r, %r, %r); os.write(o, json.dumps(r).encode())" % (seed, i, tier))
    out = subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE)
    import json
    if out.returncode:
        raise RuntimeError("other process: %s" % out.stderr.decode()[-800:])
    got = dict(tuple(x) for x in json.loads(out.stdout.decode()))
    obs.ev("process")
    for k in first:
        mine = first[k].tobytes().hex() if isinstance(first[k], np.ndarray) else repr(first[k])
        obs.check(mine == got.get(k), "differs:process", lambda: "%s %s\n%s\n%s" % (P.describe(), k, mine[:300], str(got.get(k))[:300]))


def seed_of():
    import sys as s
    a = s.argv
    return int(a[a.index("--seed") + 1]) if "--seed" in a else int(os.environ.get("VERIF_SEED", "1"))


def warm(rng, obs, ds, P):
    X, Y = P.data()
    n = ds.n
    if P.kind == "subgradient":
        kw = dict(P.kw)
        kw.update(momentum=0., averaging=None, shuffle=False)
        kw.pop("show_loss_every", None)
        a, b = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        run = []
        for parts in ([a + b], [a, b]):
            R = copy.copy(P)
            R.kw = dict(kw, max_iter=parts[0])
            l = R.make()
            for k, m in enumerate(parts):
                l.max_iter = m
                R.fit(l, X, Y, warm_start=bool(k))
            run.append(l)
        early = len(run[0].objective_curve_) < a + b + 1
        obs.ev("warm-stopped-early" if early else "warm-sub")
        obs.check(early or np.allclose(run[0].w, run[1].w, rtol=1e-12, atol=1e-12), "warm-subgradient", lambda: "%s %d+%d %r %r" % (
            P.describe(), a, b, run[0].w, run[1].w))
        ts = np.array(run[1].timestamps_[1:])
        obs.check(np.all(ts >= 0) and np.all(np.diff(ts) >= -1e-3) and np.all(ts < 1000), "warm-timestamps", lambda: (
            "%s %r" % (P.describe(), ts.tolist())))
        return
    kw = dict(P.kw)
    kw.update(max_iter=int(rng.choice([1, 2, 4])), inactive_window=0)
    kw.pop("show_loss_every", None)
    R = copy.copy(P)
    R.kw = kw
    l = R.make()
    R.fit(l, X, Y)
    before = l.objective_curve_[-1] if len(l.objective_curve_) else 0.
    # the cutting plane model built so far must not be lost
    l.max_iter = int(rng.choice([1, 3, 1000]))
    l.tol = 1e-3 if P.kind == "one-slack" else -10
    if P.kind == "one-slack":
        R.fit(l, X, Y, warm_start=True)
    else:
        R.fit(l, X, Y, constraints=l.constraints_)
    obs.ev("warm-cutting")
    after = l.objective_curve_[-1]
    scale = 1 + abs(after)
    obs.check(after >= before - 5e-5 * scale, "warm-worse", lambda: "%s dual %r -> %r" % (P.describe(), before, after))
    if l.max_iter == 1000 and not ds.first.latent:
        opt = ssvm_optimum(ds.constraints(), P.C) if sum(len(x) for _, x in ds.constraints()) < 1500 else None
        if opt:
            obs.ev("warm-optimum")
            r = ds.risk(l.w, P.C)
            room = 4e-5 * (1 + opt[1]) + P.C * n * (1e-3 if P.kind == "one-slack" else 5e-5)
            obs.check(r <= opt[1] + room, "warm-not-optimal", lambda: "%s risk %r optimum %r" % (P.describe(), r, opt[:2]))
