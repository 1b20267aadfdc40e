"""Independent optimisation oracles."""
import numpy as np


def forest_opt(U, P, edges):
    """maximum of sum U[i][y_i] + sum P[e][y_a, y_b] over an acyclic graph, by leaf elimination"""
    n = len(U)
    U = [np.array(u, dtype=float) for u in U]
    adj = {i: {} for i in range(n)}
    for (a, b), p in zip(edges, P):
        a, b = int(a), int(b)
        p = np.asarray(p, dtype=float)
        adj[a][b] = p
        adj[b][a] = p.T
    total = 0.
    alive = set(range(n))
    leaves = [i for i in range(n) if len(adj[i]) <= 1]
    while leaves:
        i = leaves.pop()
        if i not in alive:
            continue
        alive.discard(i)
        if not adj[i]:
            total += U[i].max()
            continue
        (j, p), = adj[i].items()
        U[j] = U[j] + (U[i][:, None] + p).max(axis=0)
        del adj[j][i]
        if len(adj[j]) <= 1:
            leaves.append(j)
    assert not alive, "not a forest"
    return total


def pair_score(U, P, edges, y):
    s = sum(float(U[i][y[i]]) for i in range(len(U)))
    for (a, b), p in zip(edges, P):
        s += float(p[y[a], y[b]])
    return s


def brute_opt(U, P, edges):
    import itertools
    best = -np.inf
    for y in itertools.product(*[range(len(u)) for u in U]):
        best = max(best, pair_score(U, P, edges, y))
    return best


class SolverWatch(object):
    """Records the problems handed to the AD3 library. Its branch and bound gives up on some problems (it says so in
    its status) and then returns a suboptimal labeling, for which the code that called it is not to blame."""

    def __init__(self):
        import ad3
        self.calls = []
        self.real = {}
        for name in ("general_graph", "general_constrained_graph"):
            self.real[name] = getattr(ad3, name)
            setattr(ad3, name, self.wrap(name))

    def wrap(self, name):
        real = self.real[name]

        def f(*a, **kw):
            r = real(*a, **kw)
            if r[3] == "unsolved" and kw.get("exact") and len(self.calls) < 1000:
                self.calls.append((name, a, kw))
            return r
        return f

    def reset(self):
        del self.calls[:]

    def gave_up(self):
        """does the solver give up on one of the problems of this case, however long it tries?"""
        for name, a, kw in self.calls:
            kw = dict(kw, n_iterations=4000, exact=True)
            if self.real[name](*a, **kw)[3] == "unsolved":
                return True
        return False
