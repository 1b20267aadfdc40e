"""Synthetic data generators: sizes, labels, structure, noise and reproducibility; the bundled snakes data."""
import itertools

import numpy as np
from vlib.learn import same

GENS = ("blocks", "checker", "big_checker", "2x2", "easy", "bars", "hole", "crosses", "xs", "blocks_multinomial",
        "checker_multinomial", "big_checker_extended", "easy_explicit", "crosses_explicit", "crosses_latent", "snakes",
        "defaults")
CASES = {"quick": 6800, "thorough": 100000}
MIN_EVENTS = {"repeated": 4000, "clean": 4000, "linear-noise": 1500, "flips": 2000, "seed-matters": 1000, "structure": 4000,
              "no-room": 50}
MIN_EVENTS.update({"gen:" + g: 200 for g in GENS})
RULE = ("All 15 generators and the snakes loader with random sample counts, sizes, noise, seeds, shape counts and label "
        "variants. Monitors: number, shape, dtype and range of samples; the same call after disturbing the global random "
        "state (or with the same global state for those drawing from it) gives the same bytes; without noise the inputs "
        "decode to the labels exactly; Gaussian noise scales linearly with the level and has unit variance, flips change at "
        "most the stated number of cells; labels contain exactly the described shapes (boxes, bars, crosses, blocks, "
        "checkers); other seeds give other data. Non-trivial: at least 2 samples; distinct by arguments.")
ASSUMPTIONS = "variance of the noise is judged with an 8-sigma margin"
CASE_CPU_S = 20.


def case(rng, i, obs, tier):
    g = GENS[i % len(GENS)]
    obs.ev("gen:" + g)
    (t_two if g == "2x2" else globals()["t_" + g])(rng, obs)


def common(rng, obs, name, f, kw, shape, channels, labels, global_state=False, arrays=True):
    """call twice; well-formedness. Returns X, Y or None"""
    d = lambda e="": "%s(%r)\n%s" % (name, kw, e)
    seed = int(rng.integers(2 ** 31))
    np.random.seed(seed)
    X, Y = f(**kw)
    np.random.seed(seed if global_state else int(rng.integers(2 ** 31)))
    np.random.normal(size=0 if global_state else 3)
    X2, Y2 = f(**kw)
    obs.ev("repeated")
    obs.check(not same((X, Y), (X2, Y2)), "not-reproducible:" + name, lambda: d("different data"))
    n = kw["n_samples"]
    if not obs.check(len(X) == n and len(Y) == n, "sample-count:" + name, lambda: d((len(X), len(Y)))):
        return None
    for x, y in zip(X, Y):
        ok = (y.shape == shape and x.shape == shape + channels and np.issubdtype(y.dtype, np.integer)
              and np.isfinite(x).all())
        if not obs.check(ok, "malformed:" + name, lambda: d("x %s %s y %s %s" % (x.shape, x.dtype, y.shape, y.dtype))):
            return None
        if not obs.check(np.isin(y, labels).all(), "labels:" + name, lambda: d("%r" % y)):
            return None
    if arrays:
        obs.check(isinstance(X, np.ndarray) and isinstance(Y, np.ndarray), "container:" + name,
                  lambda: d("%s %s" % (type(X), type(Y))))
    if n > 1:
        obs.nontrivial(name, sorted(kw.items()))
    obs.sample(d("X %s Y %s" % (np.shape(X), np.shape(Y))))
    return X, Y


def with_(kw, **more):
    k = dict(kw)
    k.update(more)
    return k


def gaussian(rng, obs, name, f, kw, X, Y, signal, decode, independent, scale=1.):
    """X = scale * (signal + noise * eps), eps independent of the level"""
    d = lambda e="": "%s(%r)\n%s" % (name, kw, e)
    st = int(rng.integers(2 ** 31))

    def at(level):
        np.random.seed(st)
        return f(**with_(kw, noise=level))
    X0, Y0 = at(0)
    obs.ev("clean")
    obs.check(np.array_equal(X0, scale * signal), "clean-signal:" + name, lambda: d("%r" % X0[:1]))
    obs.check(np.array_equal(decode(X0), Y), "clean-decode:" + name, lambda: d("%r %r" % (X0[:1], Y[:1])))
    obs.check(np.array_equal(Y0, Y), "labels-depend-on-noise:" + name, lambda: d())
    X1, X3 = at(1.)[0], at(3.)[0]
    obs.ev("linear-noise")
    eps = X1 / scale - signal
    obs.check(np.allclose(X3 / scale - signal, 3. * eps, atol=1e-9), "noise-level:" + name, lambda: d())
    e = eps[independent]
    m = e.size
    if m >= 20:
        obs.check(abs(e.mean()) < 8. / np.sqrt(m) and abs(e.std() - 1.) < 8. / np.sqrt(2 * m), "noise-law:" + name,
                  lambda: d("mean %r std %r of %d" % (e.mean(), e.std(), m)))
        obs.check(len(np.unique(e)) == m, "noise-repeated:" + name, lambda: d("%d of %d" % (len(np.unique(e)), m)))
    return eps


def n_of(rng):
    return int(rng.integers(1, 7))


def level(rng):
    return float(rng.choice([0., .1, .5, 1.5, 4.]))


def tile(pattern, n):
    return np.array([pattern] * n)


def fixed_labels(obs, name, Y, pattern, kw):
    obs.ev("structure")
    obs.check(all(np.array_equal(y, pattern) for y in Y), "structure:" + name, lambda: "%r\n%r" % (kw, Y[:1]))


def t_blocks(rng, obs):
    from pystruct.datasets import generate_blocks as f
    kw = dict(n_samples=n_of(rng), noise=level(rng), seed=int(rng.integers(1000)))
    r = common(rng, obs, "blocks", f, kw, (10, 12), (2,), [0, 1])
    if r is None:
        return
    X, Y = r
    pat = np.zeros((10, 12), int)
    pat[:, 6:] = 1
    fixed_labels(obs, "blocks", Y, pat, kw)
    s = 2. * tile(pat, len(Y)) - 1
    eps = gaussian(rng, obs, "blocks", f, kw, X, Y, np.stack([-s, s], -1), lambda x: x.argmax(-1), (Ellipsis, 1))
    obs.check(np.allclose(eps[..., 0], -eps[..., 1]), "channels:blocks", "")
    other(rng, obs, "blocks", f, with_(kw, noise=1.), "seed")


def other(rng, obs, name, f, kw, key):
    """another seed gives other inputs"""
    obs.ev("seed-matters")
    a, b = f(**kw), f(**with_(kw, **{key: kw[key] + 1 + int(rng.integers(1000))}))
    obs.check(not np.array_equal(a[0], b[0]), "seed-ignored:" + name, lambda: "%r" % kw)


def t_checker(rng, obs):
    from pystruct.datasets import generate_checker as f
    kw = dict(n_samples=n_of(rng), noise=level(rng))
    r = common(rng, obs, "checker", f, kw, (11, 13), (2,), [0, 1])
    if r is None:
        return
    X, Y = r
    a, b = np.ogrid[:11, :13]
    pat = (a + b) % 2
    fixed_labels(obs, "checker", Y, pat, kw)
    s = 2. * tile(pat, len(Y)) - 1
    checker_noise(rng, obs, f, kw, Y, s)


def checker_noise(rng, obs, f, kw, Y, s):
    d = lambda e="": "checker(%r)\n%s" % (kw, e)
    X0, X1, X3 = [f(**with_(kw, noise=l))[0] for l in (0, 1., 3.)]
    obs.ev("clean")
    obs.ev("linear-noise")
    obs.check(np.array_equal(X0[..., 0], -s) and not X0[..., 1].any(), "clean-signal:checker", lambda: d(X0[:1]))
    obs.check(np.array_equal(X0.argmax(-1), Y), "clean-decode:checker", lambda: d())
    e = X1[..., 0] + s
    obs.check(np.allclose(X3[..., 0] + s, 3 * e) and not X1[..., 1].any(), "noise-level:checker", lambda: d())
    obs.check(abs(e.mean()) < 8. / np.sqrt(e.size) and abs(e.std() - 1.) < 8. / np.sqrt(2 * e.size)
              and len(np.unique(e)) == e.size, "noise-law:checker", lambda: d("%r %r" % (e.mean(), e.std())))


def t_big_checker(rng, obs):
    from pystruct.datasets import generate_big_checker as f
    nf, fs = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    kw = dict(n_samples=n_of(rng), noise=level(rng), n_fields=nf, field_size=fs)
    r = common(rng, obs, "big_checker", f, kw, (nf * fs, nf * fs), (2,), [0, 1])
    if r is None:
        return
    X, Y = r
    a, b = np.ogrid[:nf * fs, :nf * fs]
    pat = 1 - (a // fs + b // fs) % 2
    fixed_labels(obs, "big_checker", Y, pat, kw)
    s = 1. - 2. * tile(pat, len(Y))
    eps = gaussian(rng, obs, "big_checker", f, kw, X, Y, np.stack([s, -s], -1), lambda x: x.argmax(-1), (Ellipsis, 0))
    obs.check(np.allclose(eps[..., 0], -eps[..., 1]), "channels:big_checker", "")


def t_blocks_multinomial(rng, obs):
    from pystruct.datasets import generate_blocks_multinomial as f
    sx = int(rng.integers(3, 16))
    seed = None if rng.random() < .5 else int(rng.integers(1000))
    kw = dict(n_samples=n_of(rng), noise=level(rng), seed=seed, size_x=sx)
    r = common(rng, obs, "blocks_multinomial", f, kw, (sx - 2, sx), (3,), [0, 1, 2], global_state=seed is None)
    if r is None:
        return
    X, Y = r
    step = sx // 3
    pat = np.ones((sx - 2, sx), int)
    pat[:, :step] = 0
    pat[:, sx - step:] = 2
    fixed_labels(obs, "blocks_multinomial", Y, pat, kw)
    gaussian(rng, obs, "blocks_multinomial", f, kw, X, Y, np.eye(3)[tile(pat, len(Y))], lambda x: x.argmax(-1), Ellipsis)
    if seed is not None:
        other(rng, obs, "blocks_multinomial", f, with_(kw, noise=1.), "seed")
    else:
        k = with_(kw, noise=1.)
        obs.check(not np.array_equal(f(**k)[0], f(**k)[0]), "seeded:blocks_multinomial", lambda: "%r" % k)


def t_checker_multinomial(rng, obs):
    from pystruct.datasets import generate_checker_multinomial as f
    sx = int(rng.integers(3, 16))
    kw = dict(n_samples=n_of(rng), noise=level(rng), size_x=sx)
    r = common(rng, obs, "checker_multinomial", f, kw, (sx - 2, sx), (3,), [0, 1, 2], global_state=True)
    if r is None:
        return
    X, Y = r
    a, b = np.ogrid[:sx - 2, :sx]
    pat = np.where((a + b) % 2, 2, a % 2)
    fixed_labels(obs, "checker_multinomial", Y, pat, kw)
    s = 2. * np.eye(3)[tile(pat, len(Y))] - 1
    s[..., 2] = 0
    gaussian(rng, obs, "checker_multinomial", f, kw, X, Y, s, lambda x: x.argmax(-1), Ellipsis)


def t_big_checker_extended(rng, obs):
    from pystruct.datasets.synthetic_grids import generate_big_checker_extended as f
    nf, fs = int(rng.integers(1, 7)), int(rng.integers(1, 5))
    kw = dict(n_samples=n_of(rng), noise=level(rng), n_fields=nf, field_size=fs)
    r = common(rng, obs, "big_checker_extended", f, kw, (nf * fs, nf * fs), (4,), [0, 1, 2, 3], global_state=True)
    if r is None:
        return
    X, Y = r
    obs.ev("structure")
    obs.check(all(np.array_equal(y, Y[0]) for y in Y), "structure:big_checker_extended", "")
    if fs == 3:
        # centres of the fields are marked, 3 on those of one colour
        a, b = np.ogrid[:nf * fs, :nf * fs]
        field = (a // 3 + b // 3) % 2
        centre = (a % 3 == 1) & (b % 3 == 1)
        obs.check(np.array_equal(Y[0][~centre], np.where(field, 0, 2)[~centre]), "structure:big_checker_extended",
                  lambda: "%r\n%r" % (kw, Y[0]))
        obs.check(np.array_equal(Y[0][centre], np.where(field, 1, 3)[centre]), "structure:big_checker_extended",
                  lambda: "%r\n%r" % (kw, Y[0]))
    gaussian(rng, obs, "big_checker_extended", f, kw, X, Y, np.eye(4)[Y], lambda x: x.argmax(-1), Ellipsis, 100.)


def t_two(rng, obs):
    from pystruct.datasets import make_simple_2x2 as f
    kw = dict(seed=int(rng.integers(1000)), n_flips=int(rng.integers(0, 10)), n_samples=n_of(rng) + 2)
    r = common(rng, obs, "simple_2x2", f, kw, (4, 4), (), [0, 1], arrays=False)
    if r is None:
        return
    X, Y = r
    obs.ev("structure")
    quad = [np.kron(np.eye(4)[k].reshape(2, 2), np.ones((2, 2))) for k in range(4)]
    for x, y in zip(X, Y):
        obs.check(any(np.array_equal(y, q) for q in quad), "structure:simple_2x2", lambda: "%r\n%r" % (kw, y))
        obs.check(np.isin(x, [-1, 1]).all(), "values:simple_2x2", lambda: "%r\n%r" % (kw, x))
        obs.check((x != 2 * y - 1).sum() <= kw["n_flips"], "flips:simple_2x2", lambda: "%r\n%r\n%r" % (kw, x, y))
    obs.ev("flips")
    X0, Y0 = f(**with_(kw, n_flips=0))
    obs.ev("clean")
    obs.check(all(np.array_equal(x, 2 * y - 1) for x, y in zip(X0, Y0)), "clean-decode:simple_2x2", lambda: "%r" % kw)
    k = with_(kw, n_samples=40, n_flips=5)
    other(rng, obs, "simple_2x2", f, k, "seed")
    X, Y = f(**with_(k, n_samples=60, n_flips=40))
    hit = np.any([x != 2 * y - 1 for x, y in zip(X, Y)], axis=0)
    obs.check(hit.all(), "flips:simple_2x2:never", lambda: "%r %r" % (k, hit))
    X, Y = f(**k)
    obs.check(len(set(y.tobytes() for y in Y)) > 1, "structure:simple_2x2:varied", lambda: "%r" % k)
    obs.check(any((x != 2 * y - 1).any() for x, y in zip(X, Y)), "flips:simple_2x2:none", lambda: "%r" % k)


def flipped(rng, obs, name, f, kw, X, Y, decode_x, observe, n_values, inner=False):
    """inputs are the observed labels with at most `noise` cells drawn anew; decode_x maps inputs to observed labels or
    None if malformed"""
    d = lambda e="": "%s(%r)\n%s" % (name, kw, e)
    obs.ev("flips")
    for x, y in zip(X, Y):
        v = decode_x(x)
        if not obs.check(v is not None, "coding:" + name, lambda: d("%r" % x)):
            return
        obs.check((v != observe(y)).sum() <= kw["noise"], "flips:" + name, lambda: d("%r\n%r" % (v, y)))
    X0, Y0 = f(**with_(kw, noise=0))
    obs.ev("clean")
    obs.check(all(np.array_equal(decode_x(x), observe(y)) for x, y in zip(X0, Y0)), "clean-decode:" + name, lambda: d())
    big = with_(kw, noise=600, n_samples=60)
    X1, Y1 = f(**big)
    vals = [decode_x(x) for x in X1]
    obs.check(all(v is not None for v in vals), "coding:" + name, lambda: d())
    diff = np.array([v != observe(y) for v, y in zip(vals, Y1)])
    obs.check(diff.any(), "flips:%s:none" % name, lambda: d("noise 600 changed nothing"))
    # every cell is reached (missed with probability below 1e-14), all but those at the border for some
    hit = diff.any(axis=0)
    hit = hit[1:-1, 1:-1] if inner else hit
    obs.check(hit.all(), "flips:%s:never" % name, lambda: d("cells never flipped %r" % np.argwhere(~hit).tolist()))
    obs.check(len(np.unique(np.array(vals)[diff])) == n_values, "flips:%s:values" % name,
              lambda: d("values after flips %r" % np.unique(np.array(vals)[diff])))


def onehot(x):
    return x.argmax(-1) if np.isin(x, [0, 1]).all() and (x.sum(-1) == 1).all() else None


def covered(y, shapes, most, least=1):
    """is y the union of between least and most of the shapes?"""
    fits = [s for s in shapes if (y[s]).all()]
    total = y.sum()
    for k in range(least, most + 1):
        for c in itertools.combinations(fits, k):
            m = np.zeros(y.shape, bool)
            for s in c:
                m |= s
            if m.sum() == total:
                return True
    return False


def boxes(n, h, w):
    out = []
    for t in range(n - h + 1):
        for l in range(n - w + 1):
            m = np.zeros((n, n), bool)
            m[t:t + h, l:l + w] = True
            out.append(m)
    return out


def t_easy(rng, obs):
    from pystruct.datasets import generate_easy as f
    box = int(rng.integers(1, 5))
    size = box + int(rng.integers(2, 6))
    kw = dict(n_samples=n_of(rng), noise=int(rng.integers(0, 12)), box_size=box, total_size=size,
              seed=int(rng.integers(1000)))
    r = common(rng, obs, "easy", f, kw, (size, size), (2,), [0, 1])
    if r is None:
        return
    X, Y = r
    obs.ev("structure")
    shapes = boxes(size, box, box)
    for y in Y:
        obs.check(covered(y.astype(bool), shapes, 2), "structure:easy", lambda: "%r\n%r" % (kw, y))
    flipped(rng, obs, "easy", f, kw, X, Y, onehot, lambda y: y, 2)
    other(rng, obs, "easy", f, with_(kw, noise=30), "seed")


def t_bars(rng, obs):
    from pystruct.datasets import generate_bars as f
    bar = int(rng.integers(2, 5))
    size = bar + int(rng.integers(2, 6))
    sep = bool(rng.random() < .6)
    kw = dict(n_samples=n_of(rng), noise=int(rng.integers(0, 12)), bars_size=bar, total_size=size,
              random_seed=int(rng.integers(1000)), separate_labels=sep)
    K = 3 if sep else 2
    r = common(rng, obs, "bars", f, kw, (size, size), (K,), range(K))
    if r is None:
        return
    X, Y = r
    obs.ev("structure")
    hor, ver = boxes(size, 1, bar), boxes(size, bar, 1)
    for y in Y:
        ok = covered(y > 0, hor + ver, 2)
        if sep and not ((y == 1).any() and (y == 2).any()):
            # one direction only
            ok = covered(y > 0, hor if (y == 1).any() else ver, 2)
        obs.check(ok, "structure:bars", lambda: "%r\n%r" % (kw, y))
    flipped(rng, obs, "bars", f, kw, X, Y, onehot, lambda y: y, K)
    other(rng, obs, "bars", f, with_(kw, noise=30), "random_seed")


def t_hole(rng, obs):
    from pystruct.datasets.synthetic_grids import generate_square_with_hole as f
    size = int(rng.integers(5, 12))
    kw = dict(n_samples=n_of(rng), noise=int(rng.integers(0, 12)), total_size=size)
    r = common(rng, obs, "hole", f, kw, (size, size), (2,), [0, 1])
    if r is None:
        return
    X, Y = r
    obs.ev("structure")
    shapes = boxes(size, 3, 3)
    for s in shapes:
        t, l = np.argwhere(s)[0]
        s[t + 1, l + 1] = False
    for y in Y:
        obs.check(any(np.array_equal(y, s) for s in shapes), "structure:hole", lambda: "%r\n%r" % (kw, y))
    flipped(rng, obs, "hole", f, kw, X, Y, onehot, lambda y: y, 2)


def plus(n, clip=0):
    """crosses of 5 cells; with clip, centres so close to the lower and right border that they are cut"""
    out = []
    for t in range(1, n - 1 + clip):
        for l in range(1, n - 1 + clip):
            m = np.zeros((n + 2, n + 2), bool)
            m[t, l - 1:l + 2] = True
            m[t - 1:t + 2, l] = True
            out.append(m[:n, :n])
    return out


def t_crosses(rng, obs):
    from pystruct.datasets import generate_crosses as f
    size = int(rng.integers(5, 14))
    nc = int(rng.integers(1, 4))
    kw = dict(n_samples=n_of(rng), noise=int(rng.integers(0, 40)), total_size=size, n_crosses=nc,
              seed=int(rng.integers(1000)))
    r = common(rng, obs, "crosses", f, kw, (size, size), (2,), [0, 1])
    if r is None:
        return
    X, Y = r
    obs.ev("structure")
    room = size >= 10
    if not room and nc > 1:
        obs.ev("no-room")
    shapes = plus(size)
    for y in Y:
        obs.check(covered(y.astype(bool), shapes, nc), "structure:crosses", lambda: "%r\n%r" % (kw, y))
        if room and nc == 2 or nc == 1:
            obs.check(y.sum() == 5 * nc, "structure:crosses:disjoint", lambda: "%r\n%r" % (kw, y))
    flipped(rng, obs, "crosses", f, kw, X, Y, onehot, lambda y: y, 2, inner=True)
    other(rng, obs, "crosses", f, with_(kw, noise=60), "seed")


def t_xs(rng, obs):
    from pystruct.datasets.synthetic_grids import generate_xs as f
    kw = dict(n_samples=n_of(rng), noise=int(rng.integers(0, 40)))
    r = common(rng, obs, "xs", f, kw, (8, 8), (2,), [0, 1])
    if r is None:
        return
    X, Y = r
    obs.ev("structure")
    shapes = []
    for t in range(6):
        for l in range(6):
            m = np.zeros((8, 8), bool)
            m[t:t + 3, l:l + 3] = [[1, 0, 1], [0, 1, 0], [1, 0, 1]]
            shapes.append(m)
    for y in Y:
        obs.check(any(np.array_equal(y, s) for s in shapes), "structure:xs", lambda: "%r\n%r" % (kw, y))
    flipped(rng, obs, "xs", f, kw, X, Y, onehot, lambda y: y, 2, inner=True)


def t_easy_explicit(rng, obs):
    from pystruct.datasets.synthetic_grids import generate_easy_explicit as f
    kw = dict(n_samples=n_of(rng), noise=int(rng.integers(0, 12)))
    r = common(rng, obs, "easy_explicit", f, kw, (9, 9), (4,), [0, 1, 2, 3])
    if r is None:
        return
    X, Y = r
    obs.ev("structure")
    for y in Y:
        t, l = np.argwhere(y)[0] if y.any() else (0, 0)
        z = np.zeros((9, 9), int)
        z[t:t + 3, l:l + 3] = np.array([[1, 2, 1], [2, 3, 2], [1, 2, 1]])[:9 - t, :9 - l]
        obs.check(y.any() and np.array_equal(y, z), "structure:easy_explicit", lambda: "%r" % y)
    flipped(rng, obs, "easy_explicit", f, kw, X, Y, shared, lambda y: (y != 0).astype(int), 2)


def shared(x):
    """0/1 where all foreground states share one observation"""
    fg = x[..., 1]
    ok = np.isin(x, [0, 1]).all() and (x[..., 0] == 1 - fg).all() and (x[..., 1:] == fg[..., None]).all()
    return fg.astype(int) if ok else None


def t_crosses_explicit(rng, obs):
    from pystruct.datasets import generate_crosses_explicit as f
    size = int(rng.integers(4, 13))
    nc = int(rng.integers(1, 4))
    kw = dict(n_samples=n_of(rng), noise=int(rng.integers(0, 40)), size=size, n_crosses=nc)
    r = common(rng, obs, "crosses_explicit", f, kw, (size, size), (3,), [0, 1, 2])
    if r is None:
        return
    X, Y = r
    obs.ev("structure")
    room = size >= 8
    if not room and nc > 1:
        obs.ev("no-room")
    shapes = plus(size, 1)
    for y in Y:
        obs.check(covered(y > 0, shapes, nc), "structure:crosses_explicit", lambda: "%r\n%r" % (kw, y))
        c = (y == 2).sum()
        obs.check(1 <= c <= nc and (c == nc or not room or nc > 2), "structure:crosses_explicit:centres",
                  lambda: "%r\n%r" % (kw, y))
    flipped(rng, obs, "crosses_explicit", f, kw, X, Y, shared, lambda y: (y != 0).astype(int), 2, inner=True)


def t_crosses_latent(rng, obs):
    from pystruct.datasets.synthetic_grids import generate_crosses_latent as f
    kw = dict(n_samples=n_of(rng), noise=int(rng.integers(0, 40)))
    r = common(rng, obs, "crosses_latent", f, kw, (8, 8), (2,), [0, 1, 2, 3])
    if r is None:
        return
    X, Y = r
    obs.ev("structure")
    shapes = plus(8)
    for y in Y:
        obs.check(covered(y > 0, shapes, 2) and 1 <= (y == 3).sum() <= 2, "structure:crosses_latent",
                  lambda: "%r\n%r" % (kw, y))
    flipped(rng, obs, "crosses_latent", f, kw, X, Y, onehot, lambda y: (y != 0).astype(int), 2, inner=True)


def t_defaults(rng, obs):
    """the documented defaults of every generator, and the lists of binary and multinomial ones"""
    from pystruct import datasets
    from pystruct.datasets import synthetic_grids as sg
    f = [datasets.generate_blocks, datasets.generate_checker, datasets.generate_big_checker, datasets.generate_easy,
         datasets.generate_bars, datasets.generate_crosses, datasets.generate_crosses_explicit,
         datasets.generate_blocks_multinomial, datasets.generate_checker_multinomial, sg.generate_square_with_hole,
         sg.generate_xs, sg.generate_big_checker_extended, sg.generate_easy_explicit, sg.generate_crosses_latent]
    f = f[int(rng.integers(len(f)))]
    st = int(rng.integers(1000))
    np.random.seed(st)
    X, Y = f()
    np.random.seed(st)
    obs.ev("repeated")
    obs.check(not same((X, Y), f()), "not-reproducible:defaults", f.__name__)
    obs.check(len(X) == len(Y) and X.shape[:3] == Y.shape and X.ndim == 4 and Y.min() == 0, "malformed:defaults", f.__name__)
    obs.check(Y.max() < X.shape[-1] or f is sg.generate_crosses_latent, "labels:defaults", f.__name__)
    n = int(rng.integers(1, 6))
    for g in datasets.binary + datasets.multinomial:
        x, y = g(n_samples=n)
        obs.check(x.shape[0] == n and x.shape[:3] == y.shape and set(np.unique(y)) <= set(range(x.shape[3])),
                  "malformed:list", g.__name__)
        obs.check((len(np.unique(y)) == 2) == (g in datasets.binary), "malformed:list", g.__name__)
    obs.nontrivial("defaults", f.__name__, st)


def t_snakes(rng, obs):
    from pystruct.datasets import load_snakes
    a = load_snakes()
    for part, n in (("train", 200), ("test", 100)):
        X, Y = a["X_" + part], a["Y_" + part]
        obs.check(len(X) == n and len(Y) == n, "sample-count:snakes", "%d %d" % (len(X), len(Y)))
        for x, y in zip(X, Y):
            ok = x.shape == y.shape + (3,) and set(np.unique(y)) == set(range(11)) and np.isfinite(x).all()
            obs.check(ok, "malformed:snakes", lambda: "%r\n%r" % (x.shape, y))
            pos = [np.argwhere(y == k) for k in range(1, 11)]
            ok = all(len(q) == 1 for q in pos) and all(np.abs(pos[k][0] - pos[k + 1][0]).sum() == 1 for k in range(9))
            obs.check(ok, "structure:snakes", lambda: "%r" % y)
    obs.ev("structure")
    k = int(rng.integers(200))
    keep = a["X_train"][k].copy()
    a["X_train"][k][...] = 7
    b = load_snakes()
    obs.check(np.array_equal(b["X_train"][k], keep), "shared:snakes", "")
    obs.nontrivial("snakes", k)
