"""Save logger and pickling: files on schedule, loaded learners equal the original at that moment, saving has no effect."""
import os
import pickle
import resource
import shutil
import tempfile

import numpy as np
from vlib.data import ssvm_optimum
from vlib.learn import training_set, plan, same, Fractional, PLAIN, LATENT

CASES = {"quick": 2600, "thorough": 40000}
MIN_EVENTS = {"calls": 9000, "files": 4000, "no-file": 2000, "final-files": 1800, "template": 800, "fixed-name": 800,
              "loaded": 3000, "roundtrip": 1800, "compared-with-unlogged": 1800, "write-failed": 1200,
              "cache-kept": 200, "continued": 150, "interrupted-write": 150}
MIN_EVENTS.update({"kind:" + k: 40 for k in ("one-slack", "n-slack", "subgradient", "subgradient-latent", "fw",
                                            "fw-batch", "perceptron", "latent-one", "latent-n", "latent-sub")})
MIN_EVENTS.update({"fam:" + f: 50 for f in PLAIN + LATENT})
RULE = ("All learners x 14 families, trained with a save logger (save_every, fixed or '%d' template name). Monitors: "
        "names of the files present after every logger call against the schedule; learner state before and after each "
        "save; loaded learner against a snapshot of the state, its predictions and score against those made at that "
        "moment; trained weights and curves against a twin trained without a logger; state after writes that fail "
        "(missing directory, file size limit, unpicklable attribute, also in the middle of training); continued "
        "training of a loaded 1-slack learner. Non-trivial: at least two files loaded; distinct by plan.")
ASSUMPTIONS = "cvxopt QP accuracy (relative 3e-5 of the objective scale) is granted to continued training"
CASE_CPU_S = 100.
SKIP = ("logger", "timestamps_", "inference_cache_")


class Watch(object):
    """calls the save logger and records what it wrote"""

    def __init__(self, inner, where, obs, d, X, Y, fail_at=None):
        self.inner, self.where, self.obs, self.d, self.X, self.Y = inner, where, obs, d, X, Y
        self.records, self.iterations, self.fail_at, self.calls = [], [], fail_at, 0

    def __getstate__(self):
        return {}

    def __setstate__(self, d):
        pass

    def __call__(self, learner, iteration=0):
        obs, d = self.obs, self.d
        obs.ev("calls")
        self.calls += 1
        self.iterations.append(iteration)
        for n in os.listdir(self.where):
            os.remove(os.path.join(self.where, n))
        before = dict(learner.__dict__)
        snap = pickle.loads(pickle.dumps(learner))
        if self.fail_at == self.calls:
            obs.ev("interrupted-write")
            try:
                with_limit(10, self.inner.save, learner, os.path.join(self.where, "x"))
            finally:
                unchanged(obs, d, before, snap, learner)
        self.inner(learner, iteration)
        unchanged(obs, d, before, snap, learner)
        files = sorted(os.listdir(self.where))
        every, name = self.inner.save_every, os.path.basename(self.inner.file_name)
        due = iteration == "final" or iteration % every == 0
        want = [name.replace("%d", str(iteration))] if due else []
        obs.check(files == want, "files", lambda: d("iteration %r every %d: %r expected %r" % (
            iteration, every, files, want)))
        if not due:
            obs.ev("no-file")
            return
        obs.ev("files")
        if iteration == "final":
            obs.ev("final-files")
        if files != want:
            return
        with open(os.path.join(self.where, files[0]), "rb") as f:
            self.records.append((iteration, f.read(), snap, results(learner, self.X, self.Y)))


def results(learner, X, Y):
    return [plain(p) for p in learner.predict(X)], float(learner.score(X, Y))


def plain(p):
    if isinstance(p, (list, tuple)):
        return [plain(q) for q in p]
    return np.array(p)


def with_limit(size, f, *a):
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, hard))
    try:
        f(*a)
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


def unchanged(obs, d, before, snap, learner):
    after = learner.__dict__
    obs.check(set(before) == set(after) and all(before[k] is after[k] for k in before), "saving-rebinds", lambda: d(
        [k for k in set(before) | set(after) if before.get(k) is not after.get(k)]))
    diff = same(snap.__dict__, after, skip=("logger",))
    obs.check(not diff, "saving-changes", lambda: d(diff))
    if before.get("inference_cache_"):
        obs.ev("cache-kept")


def judge_loaded(obs, d, loaded, snap, res, X, Y, what):
    if not obs.check(type(loaded) is type(snap), "type", lambda: d("%s %r" % (what, type(loaded)))):
        return
    diff = same(snap.__dict__, loaded.__dict__, skip=("logger", "inference_cache_", "inference_calls"))
    obs.check(not diff, "loaded-differs", lambda: d("%s: %r" % (what, diff)))
    got = results(loaded, X, Y)
    diff = same(list(res), list(got))
    obs.check(not diff, "loaded-predicts-otherwise", lambda: d("%s: %r" % (what, diff)))


def case(rng, i, obs, tier):
    from pystruct.utils import SaveLogger
    fams = PLAIN + LATENT
    fam = fams[i % len(fams)]
    ds = training_set(rng, fam=fam, maxlab=40, n=int(rng.integers(1, 5)))
    P = plan(rng, ds)
    obs.ev("fam:" + fam)
    obs.ev("kind:" + P.kind)
    template = bool(rng.random() < .5)
    obs.ev("template" if template else "fixed-name")
    name = str(rng.choice(["m_%d.pickle", "%d", "a%db"] if template else ["m.pickle", "model", "m_5.pickle"]))
    every = int(rng.choice([1, 1, 2, 3, 10]))
    where = tempfile.mkdtemp(prefix="p20-")
    d = lambda e="": "%s file=%r every=%d\n%s" % (P.describe(), name, every, e)
    try:
        run(rng, obs, d, SaveLogger, ds, P, where, name, every)
    except ValueError as e:
        if "QP solver failed" not in str(e):
            raise
        obs.ev("qp-failed")
    except Fractional:
        obs.ev("fractional")
    finally:
        shutil.rmtree(where)


def run(rng, obs, d, SaveLogger, ds, P, where, name, every):
    X, Y = P.data()
    inner = SaveLogger(os.path.join(where, name), save_every=every)
    watch = Watch(inner, where, obs, d, X, Y)
    learner = P.make(logger=watch)
    P.fit(learner, X, Y)
    its = watch.iterations
    obs.check(its[-1:] == ["final"] and its[:-1] == list(range(len(its) - 1)), "logger-calls", lambda: d(its))
    twin = P.fit(P.make(), *P.data())
    obs.ev("compared-with-unlogged")
    diff = same(twin.__dict__, learner.__dict__, skip=SKIP + ("inference_calls",))
    obs.check(not diff, "logging-changes-training", lambda: d(diff))
    recs = watch.records
    pick = recs if len(recs) <= 4 else [recs[0], recs[-1]] + [recs[int(rng.integers(len(recs)))] for _ in range(2)]
    for it, data, snap, res in pick:
        fn = os.path.join(where, "copy")
        with open(fn, "wb") as f:
            f.write(data)
        loaded = SaveLogger(fn).load()
        obs.ev("loaded")
        judge_loaded(obs, d, loaded, snap, res, X, Y, "iteration %r" % it)
        if hasattr(loaded, "inference_cache_"):
            obs.check(loaded.inference_cache_ is None, "cache-stored", lambda: d("iteration %r" % it))
        if P.kind == "one-slack" and rng.random() < .3:
            carry_on(obs, d, ds, P, loaded, X, Y)
    if not template_name(name):
        # the file on disk is the last one written
        inner.save(learner, inner.file_name)
        judge_loaded(obs, d, inner.load(), learner, results(learner, X, Y), X, Y, "load")
    for proto in (2, pickle.HIGHEST_PROTOCOL):
        back = pickle.loads(pickle.dumps(learner, proto))
        judge_loaded(obs, d, back, learner, results(learner, X, Y), X, Y, "pickle %d" % proto)
        diff = same(back.__dict__.get("inference_cache_"), learner.__dict__.get("inference_cache_"))
        obs.check(not diff, "pickle-cache", lambda: d(diff))
    obs.ev("roundtrip")
    # failing writes
    mode = rng.integers(3)
    before, snap = dict(learner.__dict__), pickle.loads(pickle.dumps(learner))
    obs.ev("write-failed")
    try:
        if mode == 0:
            SaveLogger(os.path.join(where, "no", "such", name)).save(learner, os.path.join(where, "no", "such", name))
        elif mode == 1:
            with_limit(int(rng.integers(0, 200)), inner.save, learner, os.path.join(where, "limited"))
        else:
            learner.helper_ = before["helper_"] = lambda x: x
            inner(learner, "final")
    except Exception:
        raised = True
    else:
        raised = False
    obs.check(raised, "failure-hidden", lambda: d("mode %d" % mode))
    if mode == 2:
        del learner.helper_, before["helper_"]
    unchanged(obs, d, before, snap, learner)
    # a write that fails in the middle of training
    if len(its) > 1 and rng.random() < .5:
        w = Watch(inner, where, obs, d, X, Y, fail_at=int(rng.integers(1, len(its) + 1)))
        broken = P.make(logger=w)
        try:
            P.fit(broken, X, Y)
        except (OSError, IOError):
            pass
        else:
            obs.fail("failure-hidden", d("in training at call %d" % w.fail_at))
        if P.kind == "one-slack":
            broken.logger = None
            carry_on(obs, d, ds, P, broken, X, Y)
    if len(pick) > 1:
        obs.nontrivial(P.describe(), name, every)
        obs.sample(d("calls %r, loaded %d" % (its, len(pick))))


def template_name(name):
    return "%d" in name


def carry_on(obs, d, ds, P, learner, X, Y):
    """training goes on from what was saved"""
    learner.max_iter = 3000
    # dropping planes that are still in use can go on for ever
    learner.inactive_threshold = min(learner.inactive_threshold, 1e-5)
    learner.logger = None
    P.fit(learner, X, Y, warm_start=True)
    opt = ssvm_optimum(ds.constraints(), P.C)
    if not opt:
        return
    obs.ev("continued")
    r = ds.risk(np.asarray(learner.w), P.C)
    slack = P.C * ds.n * learner.tol + 3e-5 * (1 + opt[1])
    obs.check(r <= opt[1] + slack, "continued-not-optimal", lambda: d("%r optimum %r" % (r, opt[1])))
