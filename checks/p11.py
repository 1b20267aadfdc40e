"""Inference with hard logic constraints against enumeration; per-sample constraints through models and learners."""
import os
import pickle

import numpy as np
from vlib.inst import TypedInst, EdgeFeatInst
from vlib.data import Dataset

CASES = {"quick": 4000, "thorough": 70000}
OPS = ("XOR", "ATMOSTONE", "OR", "IMPLY", "XOROUT", "OROUT", "ANDOUT")
MIN_EVENTS = {"op:" + o: 120 for o in OPS}
MIN_EVENTS.update({"optimal": 3000, "binding": 700, "free": 600, "typed": 800, "edgefeat": 800, "negated": 1000,
                   "scalar": 400, "final": 80, "predict": 400, "parallel": 100, "two-or-more": 800, "energy": 1500})
RULE = ("Random typed and edge-feature graphs (ad3+ with branch and bound), 1-3 random satisfiable constraints of all "
        "seven operators with random nodes, states, negations, list and scalar notation; the best labeling that "
        "satisfies them by enumeration; through model, batch inference and learner.predict (n_jobs 1 and 2), "
        "samples with and without constraints mixed. The call runs in a forked child, since the external solver can "
        "crash on some inputs. Non-trivial: the constraints exclude some labelings; distinct by instance, constraints "
        "and weights.")
ASSUMPTIONS = "the AD3 library's exact mode is trusted on constraints over distinct nodes of graphs with an edge"
BB = ("ad3+", {"branch_and_bound": True})


def truth(op, v):
    if op == "XOR":
        return v.sum(1) == 1
    if op == "ATMOSTONE":
        return v.sum(1) <= 1
    if op == "OR":
        return v.any(1)
    if op == "IMPLY":
        return ~v[:, :-1].all(1) | v[:, -1]
    if op == "XOROUT":
        return v[:, :-1].sum(1) == v[:, -1].astype(int)
    if op == "OROUT":
        return v[:, :-1].any(1) == v[:, -1]
    if op == "ANDOUT":
        return v[:, :-1].all(1) == v[:, -1]


def forked(f):
    """result of f() computed in a child process; None if the child crashed natively"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ("ok", f())
            except BaseException:
                import traceback
                out = ("exc", traceback.format_exc())
            with os.fdopen(w, "wb") as h:
                pickle.dump(out, h)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as h:
        data = h.read()
    _, st = os.waitpid(pid, 0)
    if st != 0:
        return None
    kind, val = pickle.loads(data)
    if kind == "exc":
        raise RuntimeError("in the child:\n" + val)
    return val


def gen_constraint(rng, inst, obs):
    """(constraint as the API takes it, op, [(flat node, state)], negations) or None"""
    n = len(inst.doms)
    op = OPS[rng.integers(len(OPS))]
    kmin = 2 if op in ("IMPLY", "XOROUT", "OROUT", "ANDOUT") else 1
    if n < max(kmin, 2):
        return None
    k = int(rng.integers(kmin, min(4, n) + 1))
    nodes = [int(a) for a in rng.choice(n, k, replace=False)]
    typed = isinstance(inst, TypedInst)
    final = None
    if typed:
        T = inst.T
        order = sorted(nodes, key=lambda a: inst.typ[a])
        # keep a random order inside of a type
        if kmin == 2 and rng.random() < .4:
            last = nodes[int(rng.integers(k))]
            if inst.typ[last] > 0:      # the library takes type 0 for "none"
                order = [a for a in order if a != last] + [last]
                final = last
        nodes = order
    local = {a: int(rng.integers(len(inst.doms[a]))) for a in nodes}
    neg = {a: bool(rng.random() < .35) for a in nodes}
    if rng.random() < .4:
        s = min(local.values())
        local = {a: s for a in nodes}
    if rng.random() < .5:
        neg = {a: bool(list(neg.values())[0]) for a in nodes}
    if any(neg.values()):
        obs.ev("negated")

    def lst(vals):
        if len(set(vals)) == 1 and rng.random() < .6:
            obs.ev("scalar")
            return vals[0]
        return list(vals)
    if typed:
        per = [[a for a in nodes if inst.typ[a] == t and a != final] for t in range(T)]
        c = (op, [[a - inst.noff[t] for a in per[t]] for t in range(T)],
             [lst([local[a] for a in p]) if p else [] for p in per],
             [lst([neg[a] for a in p]) if p else [] for p in per])
        if final is not None:
            obs.ev("final")
            c = c + ((inst.typ[final], final - inst.noff[inst.typ[final]], local[final], neg[final]),)
    else:
        c = (op, list(nodes), lst([local[a] for a in nodes]), lst([neg[a] for a in nodes]))
    sel = [(a, int(inst.doms[a][local[a]])) for a in nodes]
    return c, op, sel, [neg[a] for a in nodes]


def gen_set(rng, inst, al, obs):
    """satisfiable list of constraints and the mask of the labelings that satisfy them"""
    ok = np.ones(len(al), bool)
    out = []
    for _ in range(int(rng.choice([1, 1, 2, 2, 3]))):
        g = gen_constraint(rng, inst, obs)
        if g is None:
            continue
        c, op, sel, neg = g
        v = np.stack([(al[:, a] == b) != q for (a, b), q in zip(sel, neg)], axis=1)
        m = ok & truth(op, v)
        if not m.any():
            continue
        ok = m
        out.append(c)
    return out, ok


def judge(obs, inst, al, s, ok, y, what, d):
    f = np.asarray(y)
    if not obs.check(inst.ok_labels(f), "invalid:" + what, lambda: d("%s %r" % (what, y))):
        return None
    j = int(np.where((al == f).all(1))[0][0])
    obs.check(ok[j], "constraint-violated:" + what, lambda: d("%s %r" % (what, y)))
    best = s[ok].max()
    sc = 1 + np.abs(s).max()
    obs.check(not ok[j] or s[j] >= best - 1e-6 * sc, "suboptimal:" + what, lambda: d(
        "%s %r has %r, best %r" % (what, y, s[j], best)))
    return s[j]


def case(rng, i, obs, tier):
    from pystruct.learners import OneSlackSSVM, SubgradientSSVM
    typed = i % 2 == 0
    obs.ev("typed" if typed else "edgefeat")
    for _ in range(60):
        if typed:
            ds = Dataset(rng, "typed", int(rng.integers(1, 5)), maxlab=200, T=int(rng.choice([1, 2, 2, 3])))
        else:
            ds = Dataset(rng, "edgefeat", int(rng.integers(1, 5)), maxlab=200)
        w = ds.first.rand_w(rng)
        if all(len(q.edges) and len(q.doms) > 1 for q in ds.insts) and all(
                np.abs(q.scores(w, q.all_flat())).max() < 1e3 for q in ds.insts):
            break
    else:
        return
    model = ds.make(BB)
    als = [q.all_flat() for q in ds.insts]
    ss = [q.scores(w, a) for q, a in zip(ds.insts, als)]
    cons, oks = [], []
    for k, (q, a) in enumerate(zip(ds.insts, als)):
        if k and rng.random() < .3:
            cons.append(None if rng.random() < .5 else [])
            oks.append(np.ones(len(a), bool))
        else:
            c, m = gen_set(rng, q, a, obs)
            cons.append(c)
            oks.append(m)
            for t in c:
                obs.ev("op:" + t[0])
            if len(c) > 1:
                obs.ev("two-or-more")
    xs = ds.X()
    d = lambda e="": "%s\nconstraints=%r w=%s\n%s" % (ds.describe(), cons, np.round(w, 6).tolist(), e)
    learner = [OneSlackSSVM, SubgradientSSVM][int(rng.integers(2))](model)
    learner.w = w
    par = len(xs) > 1 and rng.random() < .3

    def run():
        out = {}
        out["single"] = [model.inference(x, w, constraints=c) for x, c in zip(xs, cons)]
        out["energy"] = [model.inference(x, w, constraints=c, return_energy=True) for x, c in zip(xs, cons)]
        out["batch"] = model.batch_inference(xs, w, constraints=cons)
        out["predict"] = learner.predict(xs, constraints=cons)
        if par:
            from joblib import parallel_backend
            learner.n_jobs = 2
            with parallel_backend("threading"):
                out["predict-parallel"] = learner.predict(xs, constraints=cons)
            learner.n_jobs = 1
        out["free"] = [model.inference(x, w) for x in xs]
        out["free-empty"] = [model.inference(x, w, constraints=[]) for x in xs]
        out["free-predict"] = learner.predict(xs)
        return out
    res = forked(run)
    if res is None:
        obs.ev("solver-crash")
        return
    binding = False
    for k, (q, a, s, ok, c) in enumerate(zip(ds.insts, als, ss, oks, cons)):
        al1 = np.ones(len(a), bool)
        for what in res:
            if not obs.check(len(res[what]) == len(xs), "length:" + what, lambda: d("%r" % res[what])):
                return
            r = res[what][k]
            if what == "energy":
                y, e = r
                v = judge(obs, q, a, s, ok, y, what, d)
                if v is not None and abs(e) < 1e50 and c:
                    obs.ev("energy")
                    obs.check(abs(e + v) <= 1e-4 * (1 + np.abs(s).max()), "energy", lambda: d(
                        "%r energy %r score %r" % (y, e, v)))
                continue
            obs.ev("optimal")
            judge(obs, q, a, s, al1 if what.startswith("free") else ok, r, what, d)
        if ok.all():
            obs.ev("free")
        elif s[ok].max() < s.max() - 1e-9:
            obs.ev("binding")
            binding = True
    obs.ev("predict")
    if par:
        obs.ev("parallel")
    if any(not m.all() for m in oks):
        obs.nontrivial(ds.describe(), repr(cons), np.round(w, 4).tolist())
        obs.sample(d("binding" if binding else "not binding"))
