"""Arguments of every public operation are bitwise unchanged afterwards; results returned earlier stay as they were."""
import copy

import numpy as np
from checks.p11 import forked
from vlib.data import Dataset
from vlib.history import history
from vlib.inst import FAM_LIST, gen_edges, GRAPH_KINDS
from vlib.learn import training_set, plan, same, can_initialize, initable, Fractional, PLAIN, LATENT, BB

CASES = {"quick": 4500, "thorough": 60000}
OPS = ("joint_feature", "batch_joint_feature", "inference", "batch_inference", "loss_augmented_inference",
       "batch_loss_augmented_inference", "loss", "batch_loss", "continuous_loss", "marginal-features", "initialize",
       "latent", "init_latent", "label_from_latent", "constraints", "dispatch", "helpers", "fit", "predict", "score",
       "refit", "warm", "fit-constraints", "h-init", "negativity")
MIN_EVENTS = {"history:results": 3000, "compared": 60000, "earlier-results": 10000}
MIN_EVENTS.update({"op:" + o: 80 for o in OPS if o not in ("fit-constraints", "negativity")})
MIN_EVENTS.update({"op:fit-constraints": 40, "op:negativity": 40})
MIN_EVENTS.update({"fam:" + f: 80 for f in FAM_LIST})
MIN_EVENTS.update({"dispatch:" + m: 40 for m in ("max-product", "lp", "ad3", "ad3-bb", "unary", "ad3+")})
RULE = ("Random sequences of public operations (joint features, inference with every option, loss-augmented inference, "
        "losses, latent completion, initialisation, direct inference on potentials with every method, fit, refit, warm "
        "start, predict, score) on 14 families with inputs of several dtypes and layouts. Monitors: deep snapshots "
        "(bytes, dtypes, flags, container contents and identity) of all arguments and of everything returned earlier, "
        "compared after every operation. Non-trivial: at least 5 operations; distinct by data and operations.")
ASSUMPTIONS = ""
CASE_CPU_S = 100.


class Guard(object):
    def __init__(self, obs, d):
        self.obs, self.d, self.items, self.ops = obs, d, [], []

    def add(self, name, thing, result=False):
        self.items.append((name, thing, copy.deepcopy(thing), shape_of(thing), result))
        return thing

    def after(self, op):
        self.obs.ev("op:" + op)
        self.ops.append(op)
        for k, (name, thing, snap, ids, result) in enumerate(self.items):
            self.obs.ev("earlier-results" if result else "compared")
            diff = same(thing, snap)
            ok = not diff and shape_of(thing) == ids
            if not self.obs.check(ok, "%s:%s" % ("result-changed" if result else "argument-changed", op), lambda: self.d(
                    "%s after %s (%r): %r" % (name, op, self.ops, diff))):
                self.items[k] = (name, thing, copy.deepcopy(thing), shape_of(thing), result)

    def result(self, op, thing):
        self.after(op)
        if len(self.items) > 60:
            k = [j for j, it in enumerate(self.items) if it[4]][0]
            del self.items[k]
        self.add("result of " + op, thing, True)
        return thing


def shape_of(t):
    """identity of containers' elements and flags of arrays"""
    if isinstance(t, (list, tuple)):
        return [(id(e), shape_of(e)) for e in t]
    if isinstance(t, dict):
        return [(k, id(t[k])) for k in sorted(t, key=str)]
    if isinstance(t, np.ndarray):
        return (t.flags.writeable, t.strides)
    return None


def case(rng, i, obs, tier):
    if i % 15 == 14:
        history(rng, obs, FAM_LIST[int(rng.integers(len(FAM_LIST)))], ["results"])
        return
    r = i % 6
    if r == 0:
        dispatch(rng, obs)
    elif r in (1, 2):
        learners(rng, obs, i)
    else:
        models(rng, obs, i)


def models(rng, obs, i):
    fam = FAM_LIST[(i // 2) % len(FAM_LIST)]
    obs.ev("fam:" + fam)
    ds = Dataset(rng, fam, int(rng.integers(1, 4)), maxlab=200)
    w = ds.first.rand_w(rng)
    scalar = ds.first.scalar
    # the solvers fail on very large scores; that is judged elsewhere
    top = max(np.abs(q.scores(w, q.all_flat())).max() for q in ds.insts)
    if top > 100. and not scalar:
        w = w * (100. / top)
    ms = [None] if scalar else [BB, "ad3", "max-product", "lp", "unary"]
    if fam == "typed":
        ms = ["ad3", "ad3+", BB]
    if ds.first.latent:
        ms = [BB, "ad3", "max-product", "lp"]
    m = ms[int(rng.integers(len(ms)))]
    method = m if isinstance(m, str) or m is None else "bb"
    model = ds.make() if scalar else ds.make(m)
    X, Y = ds.X("array" if rng.random() < .3 else None), ds.Y([int, np.int32, np.uint8, np.int16][int(rng.integers(4))]
                                                             if fam not in ("binary", "multiclass") else int)
    d = lambda e="": "%s method=%s w=%r\n%s" % (ds.describe(), method, np.round(w, 4).tolist(), e)
    g = Guard(obs, d)
    V = ds.visible()
    for name, t in (("X", X), ("Y", Y), ("w", w), ("V", V)):
        g.add(name, t)
    # what was handed to the constructor
    g.add("instance", {k: v for k, v in ds.first.__dict__.items() if isinstance(v, (np.ndarray, list, tuple))})
    resc = getattr(ds.first, "rescale", False)
    latent = ds.first.latent
    ops = ["joint_feature", "batch_joint_feature", "inference", "batch_inference", "loss_augmented_inference",
           "batch_loss_augmented_inference", "loss", "batch_loss", "initialize"]
    if not scalar:
        ops += ["marginal-features", "inference", "loss_augmented_inference"]
        ops += ["continuous_loss"] if fam not in ("typed",) else []
    if latent:
        ops += ["latent", "init_latent", "label_from_latent", "latent", "init_latent"]
    if fam in ("typed", "edgefeat"):
        ops += ["constraints"] * 2
    n = ds.n
    lai_kw = lambda: {} if scalar else dict(relaxed=bool(rng.random() < .5))
    for _ in range(int(rng.integers(5, 10))):
        op = str(rng.choice(ops))
        k = int(rng.integers(n))
        x, y, inst = X[k], Y[k], ds.insts[k]
        if op == "joint_feature":
            g.result(op, model.joint_feature(x, y, y) if resc else model.joint_feature(x, y))
        elif op == "batch_joint_feature":
            g.result(op, model.batch_joint_feature(X, Y, Y) if resc or rng.random() < .3 else
                     model.batch_joint_feature(X, Y))
        elif op == "inference":
            kw = dict(return_energy=True) if not scalar and method != "unary" and rng.random() < .3 else {}
            if not scalar and rng.random() < .5:
                kw["relaxed"] = True
            g.result(op, model.inference(x, w, **kw))
        elif op == "constraints":
            if not len(inst.edges):
                continue
            cons = some_constraints(rng, inst)

            def run():
                # in a child process: the external solver can crash on constraints
                model.inference_method = ("ad3+", {"branch_and_bound": True})
                snap = copy.deepcopy((x, w, cons, inst.__dict__))
                model.inference(x, w, constraints=cons)
                model.batch_inference([x], w, constraints=[cons])
                return same((x, w, cons, inst.__dict__), snap)
            diff = forked(run)
            if diff is None:
                obs.ev("solver-crash")
                continue
            obs.ev("op:constraints")
            obs.check(not diff, "argument-changed:constraints", lambda: d("%r %r" % (cons, diff)))
        elif op == "batch_inference":
            g.result(op, model.batch_inference(X, w, **lai_kw()))
        elif op == "loss_augmented_inference":
            g.result(op, model.loss_augmented_inference(x, y, w, **lai_kw()))
        elif op == "batch_loss_augmented_inference":
            g.result(op, model.batch_loss_augmented_inference(X, Y, w, **lai_kw()))
        elif op == "loss":
            g.result(op, model.loss(y, model.inference(x, w)))
        elif op == "batch_loss":
            Z = g.add("predictions", ds.pack([q.rand_flat(rng) for q in ds.insts]))
            g.result(op, model.batch_loss(Y, Z))
        elif op in ("marginal-features", "continuous_loss"):
            if fam == "typed":
                r = model.inference(x, w, relaxed=True)
                g.add("marginals", r)
                g.result(op, model.joint_feature(x, r))
            else:
                marg = g.add("marginals", inst.marginals(*inst.onehot(inst.rand_flat(rng))))
                g.result(op, model.joint_feature(x, marg))
                if op == "continuous_loss" and not latent:
                    g.result(op, model.continuous_loss(y, marg[0]))
                    g.result(op, model.loss(y, marg))
        elif op == "initialize":
            if can_initialize(ds):
                ds.make().initialize(X, Y)
            elif latent and initable(ds):
                xs, vs = (np.array(X), np.array(V)) if ds.first.grid else (X, V)
                ds.make().initialize(xs, vs)
            g.after(op)
        elif op == "latent":
            g.result(op, model.latent(x, V[k], w))
        elif op == "label_from_latent":
            g.result(op, model.label_from_latent(y))
            g.result(op, model.base_loss(V[k], V[k]))
        elif op == "init_latent":
            if initable(ds):
                xs, vs = (np.array(X), np.array(V)) if ds.first.grid else (X, V)
                g.add("data", (xs, vs))
                m2 = ds.make()
                m2.initialize(xs, vs)
                g.result(op, m2.init_latent(xs, vs))
    obs.nontrivial(ds.describe(), g.ops)
    obs.sample(d(g.ops))


def some_constraints(rng, inst):
    """one constraint over a few nodes"""
    op = str(rng.choice(["XOR", "ATMOSTONE", "OR", "XOROUT", "OROUT"]))
    n = len(inst.doms)
    nodes = list(rng.choice(n, size=min(n, int(rng.integers(1, 4))), replace=False))
    if inst.fam == "typed":
        us = [[] for _ in range(inst.T)]
        ss = [[] for _ in range(inst.T)]
        neg = [[] for _ in range(inst.T)]
        for k in nodes:
            t = int(np.searchsorted(np.cumsum(inst.ln), k, side="right"))
            us[t].append(int(k) - int(inst.noff[t]))
            ss[t].append(int(rng.integers(inst.lS[t])))
            neg[t].append(bool(rng.random() < .3))
        return [(op, us, ss, neg)]
    return [(op, [int(k) for k in nodes], [int(rng.integers(inst.n_states)) for _ in nodes],
             [bool(rng.random() < .3) for _ in nodes])]


def dispatch(rng, obs):
    from pystruct.inference import inference_dispatch, compute_energy
    from pystruct import utils
    m = str(rng.choice(["max-product", "max-product", "lp", "ad3", "ad3-bb", "unary", "ad3+"]))
    obs.ev("dispatch:" + m)
    kind = str(GRAPH_KINDS[int(rng.integers(len(GRAPH_KINDS)))])
    n, S = int(rng.integers(2, 7)), int(rng.integers(2, 4))
    edges = gen_edges(rng, n, kind)
    if not len(edges):
        edges = np.array([[0, 1]])
    dt = [float, float, np.float32, int][int(rng.integers(4))] if m not in ("lp", "ad3", "ad3-bb", "ad3+") else float
    U = (rng.normal(size=(n, S)) * 3).astype(dt)
    P = (rng.normal(size=(S, S) if rng.random() < .4 and m != "ad3+" else (len(edges), S, S)) * 3).astype(dt)
    if rng.random() < .2:
        U = np.asfortranarray(U)
    if rng.random() < .2 and m == "max-product":
        P = np.asfortranarray(P)
    edges = np.asarray(edges)
    d = lambda e="": "%s %s n=%d S=%d %s\n%s" % (m, kind, n, S, np.dtype(dt), e)
    g = Guard(obs, d)
    for name, t in (("U", U), ("P", P), ("edges", edges)):
        g.add(name, t)
    opt = {}
    if m == "max-product" and rng.random() < .5:
        opt = g.add("options", dict(max_iter=int(rng.integers(1, 6)), damping=.3))
    for _ in range(2):
        rel = bool(rng.random() < .5)
        if m == "ad3+":
            args = g.add("lists", ([U], [P], [edges]))
            if np.abs(U).max() > 100:
                return
            r = inference_dispatch(args[0], args[1], args[2], ("ad3+", {"branch_and_bound": True}), relaxed=rel)
        else:
            meth = ("ad3", {"branch_and_bound": True}) if m == "ad3-bb" else (m, opt) if opt else m
            kw = dict(relaxed=rel)
            if m in ("lp", "ad3", "ad3-bb") and rng.random() < .4:
                kw["return_energy"] = True
            g.add("method", meth)
            r = inference_dispatch(U, P, edges, meth, **kw)
        g.result("dispatch", r)
    if P.ndim == 2 or P.shape[0] == len(edges):
        lab = g.add("labels", rng.integers(0, S, size=n))
        g.result("helpers", compute_energy(U, P, edges, lab))
    if P.ndim == 2:
        sym = g.add("symmetric", P + P.T)
        c = g.result("helpers", utils.compress_sym(sym))
        g.result("helpers", utils.expand_sym(c))
    obs.nontrivial(m, kind, np.round(U, 3).tolist(), np.round(P, 3).tolist())


def learners(rng, obs, i):
    fams = PLAIN + LATENT
    fam = fams[(i // 3) % len(fams)]
    ds = training_set(rng, fam=fam, maxlab=40, n=int(rng.integers(1, 5)))
    obs.ev("fam:" + fam)
    if any(len(inst.visible_labels(f)) == 0 for inst, f in zip(ds.insts, ds.flats)):
        return
    P = plan(rng, ds, iters=int(rng.choice([2, 4, 12])))
    X, Y = P.data()
    d = lambda e="": "%s\n%s" % (P.describe(), e)
    g = Guard(obs, d)
    g.add("X", X)
    g.add("Y", Y)
    g.add("instance", {k: v for k, v in ds.first.__dict__.items() if isinstance(v, (np.ndarray, list, tuple))})
    extra = {}
    if P.kind in ("one-slack", "n-slack") and rng.random() < .25:
        idx = np.sort(rng.choice(ds.wdim, size=min(3, ds.wdim), replace=False))
        idx = g.add("negativity_constraint", idx if rng.random() < .5 else idx.tolist())
        P.kw["negativity_constraint"] = idx
    learner = P.make()
    h = None
    if P.latent and (P.kind.startswith("latent") or P.kind == "subgradient-latent") and not P.own_init:
        h = g.add("H_init", P.h_init())
        P.h_init = lambda: h
    try:
        P.fit(learner, X, Y)
        g.after("fit")
        if h is not None:
            g.after("h-init")
        if "negativity_constraint" in P.kw:
            g.after("negativity")
        w = P.weights(learner)
        g.add("w", learner.base_ssvm.w if P.kind.startswith("latent") else learner.w, True)
        for _ in range(int(rng.integers(2, 5))):
            op = str(rng.choice(["predict", "score", "refit", "warm", "fit-constraints"]))
            if op == "predict":
                g.result(op, learner.predict(X))
                if P.kind.startswith("latent"):
                    g.result(op, learner.predict_latent(X))
            elif op == "score":
                g.result(op, learner.score(X, Y))
            elif op == "refit":
                P.fit(learner, X, Y)
                g.after(op)
            elif op == "warm" and P.kind in ("one-slack", "subgradient", "subgradient-latent"):
                P.fit(learner, X, Y, warm_start=True)
                g.after(op)
            elif op == "fit-constraints" and P.kind == "n-slack":
                cons = g.add("constraints", [list(s) for s in learner.constraints_])
                P.fit(learner, X, Y, constraints=cons)
                g.after(op)
    except ValueError as e:
        if "QP solver failed" not in str(e):
            raise
        obs.ev("qp-failed")
        return
    except Fractional:
        return
    obs.nontrivial(P.describe(), g.ops)
