"""Graph and matrix utilities against definitions computed independently."""
import numpy as np
from vlib.inst import gen_edges, GRAPH_KINDS

CASES = {"quick": 60000, "thorough": 800000}
MIN_EVENTS = {"grid": 4000, "grid-single-row": 500, "grid-lists": 1500, "features": 1500, "packing": 3500, "forest": 1500,
              "cyclic": 1500, "isolated": 1500, "multi-edge": 300, "self-loop": 200, "energy": 3500, "shared-pairwise": 800,
              "model-packing": 1500, "order": 1500, "large-grid": 20, "large-graph": 60}
RULE = ("Grid sizes 1x1 to 9x9 (some to 120x90) x 4/8 neighbours x input dimensions and types; edge lists of 1-5 "
        "directions incl. empty ones; symmetric packing of matrices 1x1 to 12x12 (some 60x60) of several types; graphs "
        "with 1-60 nodes (some 3000): trees, forests, cycles, multi-edges, loops, isolated nodes, both numberings; "
        "labelings with energies. Oracles: definition by coordinates, union-find, explicit sums. Non-trivial: at "
        "least one edge (or off-diagonal entry); distinct by arguments.")
ASSUMPTIONS = ""
CASE_CPU_S = 60.


def case(rng, i, obs, tier):
    [grids, features, packing, forest, energy, models][i % 6](rng, obs)


def grids(rng, obs):
    from pystruct.utils import make_grid_edges
    large = rng.random() < .01
    h, w = (int(rng.integers(1, 121)), int(rng.integers(1, 91))) if large else (
        int(rng.integers(1, 10)), int(rng.integers(1, 10)))
    nb = int(rng.choice([4, 8]))
    shape = [(h, w), (h, w, 1), (h, w, 3), (h, w, 2, 2)][int(rng.integers(4))]
    x = np.zeros(shape, dtype=[float, np.uint8, np.float32, bool][int(rng.integers(4))])
    obs.ev("grid")
    obs.ev("large-grid", large)
    obs.ev("grid-single-row", h == 1 or w == 1)
    d = lambda: "shape %r neighborhood %d" % (shape, nb)
    e = make_grid_edges(x) if nb == 4 and rng.random() < .5 else make_grid_edges(x, neighborhood=nb)
    obs.check(isinstance(e, np.ndarray) and e.ndim == 2 and e.shape[1] == 2 and e.dtype.kind in "iu", "edge-array", lambda: d() + repr(e))
    steps = [(0, 1), (1, 0)] + ([(-1, 1), (1, 1)] if nb == 8 else [])
    want = {}
    for k, (dy, dx) in enumerate(steps):
        for r in range(h):
            for c in range(w):
                if 0 <= r + dy < h and 0 <= c + dx < w:
                    want[(r * w + c, (r + dy) * w + c + dx)] = k
    got = [tuple(int(v) for v in p) for p in e]
    und = lambda es: sorted(tuple(sorted(p)) for p in es)
    obs.check(und(got) == und(want), "grid-edges", lambda: d() + " %r" % (got[:20],))
    obs.check(len(set(und(got))) == len(got), "grid-edges-repeated", d)
    lists = make_grid_edges(x, neighborhood=nb, return_lists=True)
    obs.ev("grid-lists")
    obs.check(len(lists) == len(steps), "grid-lists", lambda: d() + " %d lists" % len(lists))
    obs.check(np.array_equal(np.vstack(lists).reshape(-1, 2), e), "grid-lists-order", d)
    # every list holds the edges of exactly one direction
    dirs = []
    for l in lists:
        k = set()
        for a, b in l:
            ra, ca, rb, cb = a // w, a % w, b // w, b % w
            k.add((int(rb - ra), int(cb - ca)))
        obs.check(len(k) <= 1, "grid-list-mixed", lambda: d() + " %r" % k)
        dirs += list(k)
    norm = set(max(p, (-p[0], -p[1])) for p in dirs)
    obs.check(len(norm) == len(dirs), "grid-list-directions", lambda: d() + " %r" % dirs)
    if len(got):
        obs.nontrivial("grid", shape, nb)
        obs.sample("grid %r %d edges %r" % (shape, nb, got[:4]))


def features(rng, obs):
    from pystruct.utils import edge_list_to_features, make_grid_edges
    obs.ev("features")
    if rng.random() < .5:
        h, w = int(rng.integers(1, 8)), int(rng.integers(1, 8))
        lists = make_grid_edges(np.zeros((h, w)), neighborhood=int(rng.choice([4, 8])), return_lists=True)
    else:
        lists = [rng.integers(0, 9, size=(int(rng.integers(0, 5)), 2)) for _ in range(int(rng.integers(1, 6)))]
    f = edge_list_to_features(lists)
    n = [len(l) for l in lists]
    obs.check(f.shape == (sum(n), len(lists)), "feature-shape", lambda: "%r %r" % (n, f.shape))
    own = np.repeat(np.arange(len(lists)), n)
    want = np.zeros((sum(n), len(lists)))
    want[np.arange(sum(n)), own] = 1
    obs.check(np.array_equal(f, want), "edge-features", lambda: "%r %r" % (n, f.tolist()))
    if sum(n):
        obs.nontrivial("features", n)


def packing(rng, obs):
    from pystruct.utils import compress_sym, expand_sym
    obs.ev("packing")
    n = int(rng.integers(1, 13)) if rng.random() < .97 else int(rng.integers(13, 61))
    kind = str(rng.choice(["float", "int", "float32"]))
    M = rng.normal(size=(n, n)) if kind != "int" else rng.integers(-5, 6, size=(n, n))
    if kind == "float32":
        M = M.astype(np.float32)
    S = M + M.T
    d = lambda: "%r" % (M.tolist(),)
    c = compress_sym(S, make_symmetric=False)
    obs.check(c.shape == (n * (n + 1) // 2,), "packed-size", lambda: "%d %r" % (n, c.shape))
    obs.check(sorted(c.tolist()) == sorted(S[np.triu_indices(n)].tolist()), "packed-values", d)
    back = expand_sym(c)
    obs.check(back.shape == (n, n) and np.array_equal(back, S), "expand-of-compress", d)
    # every vector is the packing of the matrix it expands to
    v = rng.normal(size=n * (n + 1) // 2) if kind != "int" else rng.integers(-9, 10, size=n * (n + 1) // 2)
    E = expand_sym(v)
    obs.check(np.array_equal(E, E.T), "expanded-symmetric", lambda: "%r" % v)
    obs.check(np.array_equal(compress_sym(E, make_symmetric=False), v), "compress-of-expand", lambda: "%r" % v)
    # weights times packed statistics = full interaction sum
    p = compress_sym(M)
    a, b = float(np.dot(v, p)), float((E * M).sum())
    obs.check(abs(a - b) <= 1e-4 * (1 + np.abs(E * M).sum()) if kind == "float32" else
              abs(a - b) <= 1e-10 * (1 + np.abs(E * M).sum()), "packed-score", lambda: "%r %r %s" % (a, b, d()))
    T = np.tril(S)
    obs.check(np.array_equal(expand_sym(compress_sym(T)), S) and np.array_equal(expand_sym(compress_sym(T.T)), S),
              "symmetrise-triangle", d)
    if n > 1:
        obs.nontrivial("packing", n, kind, M.tobytes())
        obs.sample("packing %d %s %r" % (n, kind, c[:4].tolist()))


def acyclic(edges, n):
    p = list(range(n))

    def find(a):
        while p[a] != a:
            p[a] = p[p[a]]
            a = p[a]
        return a
    for a, b in edges:
        a, b = find(int(a)), find(int(b))
        if a == b:
            return False
        p[a] = b
    return True


def forest(rng, obs):
    from pystruct.utils.graph_functions import is_forest
    u = rng.random()
    large = u < .02
    if large:
        n = int(rng.integers(500, 3001))
        e = np.array([(int(rng.integers(0, k)), k) for k in range(1, n)]).reshape(-1, 2)
        e = e[rng.random(len(e)) < .95]
        if rng.random() < .5:
            e = np.vstack([e, rng.integers(0, n, size=(1, 2))])
    else:
        n = int(rng.integers(1, 13))
        kind = int(rng.integers(4))
        if kind == 0:
            e = np.array([(int(rng.integers(0, k)), k) for k in range(1, n)]).reshape(-1, 2)
        elif kind == 1:
            e = np.array([(int(rng.integers(0, k)), k) for k in range(1, n) if rng.random() < .6]).reshape(-1, 2)
        elif kind == 2:
            e = rng.integers(0, n, size=(int(rng.integers(0, n + 2)), 2))
        else:
            e = np.array([(int(rng.integers(0, k)), k) for k in range(1, n) if rng.random() < .8]).reshape(-1, 2)
            e = np.vstack([e, rng.integers(0, n, size=(1, 2))])
        if len(e) and rng.random() < .08:
            e = np.vstack([e, e[:1, ::-1] if rng.random() < .5 else e[:1]])
    e = e.astype(int)
    perm = rng.permutation(n)
    e = perm[e]
    flip = rng.random(len(e)) < .5
    e[flip] = e[flip][:, ::-1]
    e = e[rng.permutation(len(e))]
    truth = acyclic(e, n)
    obs.ev("large-graph", large)
    obs.ev("forest" if truth else "cyclic")
    obs.ev("isolated", len(np.unique(e)) < n)
    obs.ev("multi-edge", len(set(tuple(sorted(p)) for p in e.tolist())) < len(e))
    obs.ev("self-loop", bool(len(e) and np.any(e[:, 0] == e[:, 1])))
    forms = [("array", e, n), ("array", e, None), ("list", [tuple(int(v) for v in p) for p in e], n),
             ("wide", e, n + int(rng.integers(1, 4)))]
    for name, ee, nn in forms:
        if nn is None and not len(e):
            continue
        obs.ev("order")
        got = bool(is_forest(ee, nn))
        obs.check(got == truth, "is-forest", lambda: "%s n=%r edges %r: %r" % (name, nn, e.tolist()[:40], got))
    if len(e):
        obs.nontrivial("forest", n, e.tobytes())


def energy(rng, obs):
    from pystruct.inference import compute_energy
    n, S = int(rng.integers(1, 9)), int(rng.integers(1, 5))
    e = gen_edges(rng, n, str(rng.choice(list(GRAPH_KINDS)))) if n > 1 else np.zeros((0, 2), int)
    e = np.asarray(e, int).reshape(-1, 2)
    flip = rng.random(len(e)) < .5
    e[flip] = e[flip][:, ::-1]
    U = rng.normal(size=(n, S))
    shared = rng.random() < .4
    P = rng.normal(size=(S, S)) if shared else rng.normal(size=(len(e), S, S))
    y = rng.integers(0, S, size=n)
    y = y.astype([int, np.int32, np.uint8][int(rng.integers(3))])
    obs.ev("energy")
    obs.ev("shared-pairwise", shared)
    want = sum(U[k, int(y[k])] for k in range(n))
    for k, (a, b) in enumerate(e):
        want += (P if shared else P[k])[int(y[a]), int(y[b])]
    if len(e) == S == 1 and not shared:
        pass
    got = compute_energy(U, P, e, y)
    obs.check(abs(got - want) <= 1e-10 * (1 + abs(U).sum() + abs(P).sum() * (len(e) + 1)), "energy", lambda: (
        "U %r P %r e %r y %r: %r, sum of potentials %r" % (U.tolist(), P.tolist(), e.tolist(), y.tolist(), got, want)))
    if len(e):
        obs.nontrivial("energy", U.tobytes(), e.tobytes())
        obs.sample("energy n=%d S=%d %r" % (n, S, got))


def models(rng, obs):
    """the same utilities as the models use them"""
    from pystruct.models import GridCRF, GraphCRF
    h, w, F, S = int(rng.integers(1, 5)), int(rng.integers(1, 5)), int(rng.integers(1, 3)), int(rng.integers(1, 4))
    nb = int(rng.choice([4, 8]))
    x = rng.normal(size=(h, w, F))
    u = int(rng.integers(1, 3))
    steps = [(0, 1), (1, 0)] + ([(-1, 1), (1, 1)] if nb == 8 else [])
    # score of a labeling through the packed weights = explicit sum
    obs.ev("model-packing")
    grid = u == 1
    m = GridCRF(n_states=S, n_features=F, neighborhood=nb, inference_method="ad3") if grid else \
        GraphCRF(n_states=S, n_features=F, inference_method="ad3")
    wgt = rng.normal(size=m.size_joint_feature)
    y = rng.integers(0, S, size=(h, w))
    from pystruct.utils import expand_sym
    un, pw = wgt[:S * F].reshape(S, F), expand_sym(wgt[S * F:])
    edges = [((r, c), (r + dy, c + dx)) for dy, dx in steps for r in range(h) for c in range(w)
             if 0 <= r + dy < h and 0 <= c + dx < w]
    want = sum(un[y[r, c]].dot(x[r, c]) for r in range(h) for c in range(w))
    want += sum(pw[y[a], y[b]] for a, b in edges)
    if grid:
        got = np.dot(wgt, m.joint_feature(x, y))
    else:
        ee = np.array([(a[0] * w + a[1], b[0] * w + b[1]) for a, b in edges], int).reshape(-1, 2)
        got = np.dot(wgt, m.joint_feature((x.reshape(-1, F), ee), y.ravel()))
    obs.check(abs(got - want) < 1e-9 * (1 + abs(want) + np.abs(wgt).sum() * 10), "model-score", lambda: (
        "%r %r: %r expected %r" % (x.tolist(), y.tolist(), got, want)))
    if h * w > 1:
        obs.nontrivial("models", u, h, w, F, S, nb, x.tobytes())
