"""C22 simulation random numbers."""
import math
import numpy as np
from frmmon import Section
import gen
from frm.pricing_engine.monte_carlo_generic import generate_rand_nbs, normal_corr
from frm.utils import MAX_SIMULATIONS_PER_LOOP, DEFAULT_NB_SIMULATIONS

PROPERTY = 'C22'
ANCHORS = ['frm/pricing_engine/monte_carlo_generic.py']
RULE = ('all small step, factor and path counts (odd and even) with and without antithetic pairs, random seeds with other draws in between, large samples for the distribution, '
        'random correlation matrices of 1 to 6 factors on two- and three-dimensional draws; non-trivial = new shape, seed and setting')
ASSUMPTIONS = ['Distribution tests use 5.5 standard errors over at least 20000 independent draws.',
               'Correlation matrices are positive definite (a singular or indefinite one cannot be factorised and is refused).']


DRAWN = {}        # first draws of a seed -> seed, over the whole run: two seeds never share them


def draws(m, rng):
    steps, k, n = int(rng.integers(1, 8)), int(rng.integers(1, 5)), int(rng.integers(1, 24))
    anti, seed = bool(rng.integers(2)), int(rng.integers(2 ** 31))
    m.case(steps=steps, factors=k, sims=n, antithetic=anti, seed=seed)
    if anti and n == 1:
        m.refuses('single path antithetic', generate_rand_nbs, steps, k, n, anti, seed); m.event('refused'); return
    Z = m.call('draw', generate_rand_nbs, steps, k, n, anti, seed)
    if not m.ok(np.shape(Z) == (steps, k, n), 'shape', dict(got=np.shape(Z))): return
    m.ok(np.all(np.isfinite(Z)) and np.all(np.abs(Z) < 9), 'finite')
    kept = Z.copy()
    for d in (0, int(gen.pick(rng, [1, 2 ** int(rng.integers(0, 31)), 10 ** int(rng.integers(0, 9)), int(rng.integers(1, 2 ** 20))]))):
        for sd in {(seed + d) % 2 ** 32, seed ^ d, int(rng.integers(300)) + d}:
            first = m.call('draw', generate_rand_nbs, 1, 1, 2, False, sd).tobytes()
            m.ok(DRAWN.setdefault(first, sd) == sd, 'two-seeds-same-draws', lambda: dict(seed=sd, other=DRAWN[first]))
    np.random.normal(size=int(rng.integers(1, 50)))
    other = m.call('draw', generate_rand_nbs, steps, k, n, anti, seed + 1)
    m.ok(not np.array_equal(other, Z), 'other-seed-same-draws')
    np.random.seed(int(rng.integers(1000)))
    if rng.integers(20) == 0: m.ok(np.array_equal(m.call('draw', generate_rand_nbs, steps), m.call('draw', generate_rand_nbs, steps, 1, 10000, False, 0)), 'defaults')
    again = m.call('draw', generate_rand_nbs, nb_steps=steps, nb_rand_vars=k, nb_simulations=n, apply_antithetic_variates=anti, random_seed=seed)
    m.ok(np.array_equal(again, Z) and np.array_equal(kept, Z), 'same-seed-other-draws')
    again[...] = 0
    m.ok(np.array_equal(m.call('draw', generate_rand_nbs, steps, k, n, anti, seed), Z), 'draws-shared')
    if anti:
        p = n // 2
        a, b = Z[:, :, 0:2 * p:2], Z[:, :, 1:2 * p:2]
        m.ok(np.array_equal(a, -b), 'antithetic-pairs', lambda: dict(first=Z[0, 0]))
        m.event('antithetic_odd' if n % 2 else 'antithetic_even')
        base = np.concatenate([a, Z[:, :, 2 * p:]], axis=2)
    else:
        base = Z; m.event('plain')
    # no draw is used twice (across steps, factors, independent paths)
    m.ok(len(np.unique(np.abs(base))) == base.size, 'draw-reused', lambda: dict(distinct=len(np.unique(np.abs(base))), of=base.size))


def distribution(m, rng):
    steps, k = int(rng.integers(1, 7)), int(rng.integers(1, 5))
    n = int(40000 // (steps * k)) + int(rng.integers(5))
    anti, seed = bool(rng.integers(2)), int(rng.integers(2 ** 31))
    n = max(n, 4000)
    m.case(steps=steps, factors=k, sims=n, antithetic=anti, seed=seed)
    Z = m.call('draw', generate_rand_nbs, steps, k, n, anti, seed)
    if not m.ok(np.shape(Z) == (steps, k, n), 'shape'): return
    B = Z[:, :, ::2] if anti else Z
    x = np.sort(B.ravel()); N = len(x)
    q = 5.5
    m.ok(abs(x.mean()) < q / math.sqrt(N), 'mean', lambda: dict(got=x.mean()))
    m.ok(abs(x.var() - 1) < q * math.sqrt(2 / N), 'variance', lambda: dict(got=x.var()))
    m.ok(abs((x ** 3).mean()) < q * math.sqrt(15 / N), 'skewness')
    m.ok(abs((x ** 4).mean() - 3) < q * math.sqrt(96 / N), 'kurtosis', lambda: dict(got=(x ** 4).mean()))
    F = .5 * np.array([math.erfc(-v / math.sqrt(2)) for v in x[::7]])
    m.ok(np.max(np.abs(F - (np.arange(N)[::7] + .5) / N)) < 3.2 / math.sqrt(N), 'normality')
    R = B.reshape(steps * k, -1)
    if len(R) > 1:
        C = R @ R.T / R.shape[1] - np.eye(len(R))
        m.ok(np.max(np.abs(C - np.diag(np.diag(C)))) < q / math.sqrt(R.shape[1]), 'independence', lambda: dict(worst=np.abs(C).max()))
    lag = (R[:, 1:] * R[:, :-1]).mean()
    m.ok(abs(lag) < q / math.sqrt(R.size), 'path-independence', lambda: dict(got=lag))
    if anti: m.ok(abs(Z[:, :, :2 * (n // 2)].sum()) < 1e-8 * Z.size, 'antithetic-mean')
    m.event('distribution')


def bulk(m, rng):
    """Production-sized requests: many paths, many steps or many factors. Same seed same draws, exact pairs, no draw twice, moments of every slice."""
    kind = int(rng.integers(3))
    size = int(10 ** rng.uniform(5, 6.5))
    steps, k = [(int(rng.integers(1, 4)), int(rng.integers(1, 4))), (int(rng.integers(200, 4000)), int(rng.integers(1, 3))), (int(rng.integers(1, 30)), int(rng.integers(5, 60)))][kind]
    n = max(int(size // (steps * k)) + int(rng.integers(2)), 2)
    anti, seed = bool(rng.integers(2)), int(rng.integers(2 ** 31))
    m.case(steps=steps, factors=k, sims=n, antithetic=anti, seed=seed)
    Z = m.call('draw', generate_rand_nbs, steps, k, n, anti, seed)
    if not m.ok(np.shape(Z) == (steps, k, n), 'shape', dict(got=np.shape(Z))): return
    m.ok(np.all(np.isfinite(Z)) and np.all(np.abs(Z) < 9), 'finite')
    m.ok(np.array_equal(m.call('draw', generate_rand_nbs, steps, k, n, anti, seed), Z), 'same-seed-other-draws')
    base = Z
    if anti:
        p = n // 2
        m.ok(np.array_equal(Z[:, :, 0:2 * p:2], -Z[:, :, 1:2 * p:2]), 'antithetic-pairs')
        base = np.concatenate([Z[:, :, 0:2 * p:2], Z[:, :, 2 * p:]], axis=2)
    m.ok(base.size - len(np.unique(np.abs(base))) <= 3, 'draw-reused', lambda: dict(distinct=len(np.unique(np.abs(base))), of=base.size))
    for axes, what in (((0, 1), 'path'), ((1, 2), 'step'), ((0, 2), 'factor')):       # every path, step and factor has its own mean 0 and variance 1
        N = base.size // base.shape[({0, 1, 2} - set(axes)).pop()]
        if N < 50: continue
        mu, v = base.mean(axis=axes) * math.sqrt(N), ((base ** 2).mean(axis=axes) - 1) * math.sqrt(N / 2)
        m.ok(np.all(np.abs(mu) < 7), what + '-mean', lambda: dict(worst=np.abs(mu).max()))
        m.ok(np.all((v < 11 if N < 1000 else v < 8) & (v > -7)), what + '-variance', lambda: dict(worst=np.abs(v).max()))
    m.event(['bulk_paths', 'bulk_steps', 'bulk_factors'][kind])


def correlated(m, rng):
    k = int(rng.integers(1, 7))
    if k == 2:
        r = float(gen.pick(rng, [0.0, .999, -.999, rng.uniform(-1, 1)]))
        C = np.array([[1, r], [r, 1]])
    else:
        A = rng.normal(size=(k, k + int(rng.integers(0, 4)))); C = A @ A.T
        C += np.eye(k) * 1e-3 * np.trace(C)
        d = np.sqrt(np.diag(C)); C = C / np.outer(d, d); np.fill_diagonal(C, 1.0); C = .5 * (C + C.T)
    steps, n = int(rng.integers(1, 6)), int(rng.integers(1, 9))
    if rng.integers(30) == 0: steps, n = [(int(rng.integers(100, 2000)), n), (steps, int(rng.integers(1000, 20000)))][int(rng.integers(2))]; m.event('large')
    three = bool(rng.integers(2))
    Z = rng.normal(size=(steps, k, n) if three else (steps, k))
    m.case(C=C.tolist(), shape=Z.shape)
    C0, Z0 = C.copy(), Z.copy()
    X = m.call('correlate', normal_corr, C, Z)
    m.ok(np.array_equal(C, C0) and np.array_equal(Z, Z0), 'inputs-altered')
    if not m.ok(np.shape(X) == np.shape(Z), 'shape', dict(got=np.shape(X), want=np.shape(Z))): return
    # the draws are mapped linearly, each step and path by itself: recover the map from unit draws
    L = np.asarray(m.call('correlate', normal_corr, C, np.eye(k))).T
    m.close(L @ L.T, C, 'correlation', 1e-9, 1e-9, lambda: dict(C=C, map=L))
    want = np.einsum('ij,sj...->si...', L, Z)
    m.close(X, want, 'linear', 1e-9, 1e-11)
    if three:
        E = np.zeros((1, k, k)); E[0] = np.eye(k)
        L3 = np.asarray(m.call('correlate', normal_corr, C, E))[0]
        m.close(L3 @ L3.T, C, 'correlation', 1e-9, 1e-9)
        m.event('three_dimensional')
    m.event('correlated')
    if rng.integers(10) == 0 and k > 1:
        bad = C.copy(); bad[0, 1] = bad[1, 0] = 1.5
        m.refuses('indefinite', normal_corr, bad, Z); m.event('indefinite')


def limits(m, rng):
    k = int(rng.integers(5))
    m.case(kind=k, nontrivial=True, salt=int(rng.integers(10 ** 6)))
    if k == 0: m.refuses('too many', generate_rand_nbs, MAX_SIMULATIONS_PER_LOOP // 1000 + 1, 1, 1000)
    elif k == 1: m.refuses('no steps', generate_rand_nbs, 0, 1, 10)
    elif k == 2: m.refuses('no paths', generate_rand_nbs, 1, 1, 0)
    elif k == 3: m.refuses('fractional', generate_rand_nbs, 2, 1, 10.5)
    else:
        Z = m.call('defaults', generate_rand_nbs, 1)
        m.ok(np.shape(Z) == (1, 1, DEFAULT_NB_SIMULATIONS), 'defaults', dict(got=np.shape(Z)))
    m.event('limits')


SECTIONS = [Section('draws', draws, 8000, 60000, ['antithetic_odd', 'antithetic_even', 'plain', 'refused']),
            Section('distribution', distribution, 240, 2000, ['distribution']),
            Section('bulk', bulk, 80, 800, ['bulk_paths', 'bulk_steps', 'bulk_factors']),
            Section('correlated', correlated, 8000, 60000, ['correlated', 'three_dimensional', 'indefinite', 'large']),
            Section('limits', limits, 80, 400, ['limits'])]
