"""C23 lognormal and mean-reverting spot simulation."""
import math
import numpy as np
from frmmon import Section
import gen
from frm.pricing_engine.geometric_brownian_motion import simulate_gbm_path
from frm.pricing_engine.monte_carlo_generic import generate_rand_nbs, normal_corr
from frm.pricing_engine import clewlow_strickland_1_factor as cs
from frm.pricing_engine.clewlow_strickland_1_factor import clewlow_strickland_1_factor_simulate as csim

PROPERTY = 'C23'
ANCHORS = ['frm/pricing_engine/geometric_brownian_motion.py', 'frm/pricing_engine/clewlow_strickland_1_factor.py']
TECHNIQUE = 'runtime monitoring: every simulated path compared with a closed-form reference, distribution monitors on recovered shocks'
RULE = ('lognormal paths for 1 to 4 underlyings, 1 to 8 uneven steps and 1 to 9 paths (including as many underlyings as paths) against the closed form from the same draws; '
        'mean-reverting paths for flat, sloped and kinked forward curves, 1 to 8 segments a day, single and several simulation loops; non-trivial = new curve, shape and parameters')
ASSUMPTIONS = ['Ensemble tests use 5.5 standard errors; the mean-reverting model is compared with the continuous one up to an error of first order in the step.',
               'The several-loop path is reached by lowering the module constant MAX_SIMULATIONS_PER_LOOP.']


def gbm(m, rng):
    K, T, n = int(rng.integers(1, 5)), int(rng.integers(1, 9)), int(rng.integers(1, 10))
    if rng.integers(4) == 0: n = K
    if rng.integers(6) == 0: T = K
    S0 = np.exp(rng.uniform(-4, 6, K)); mu = rng.normal(0, .1, (T, K)); vol = rng.uniform(0, .8, (T, K)); dt = rng.uniform(.001, 2, T)
    if rng.integers(8) == 0: vol[:] = 0
    u = int(rng.integers(16))
    if u == 0: mu[:] = 0.0; m.event('no_drift')
    elif u == 1: S0 = rng.integers(1, 200, K); dt = rng.integers(1, 3, T); m.event('whole')
    elif u == 2: S0[:] = S0[0]; mu[:] = mu[:, :1]; vol[:] = vol[:, :1]; dt[:] = dt[0]       # like underlyings, like steps
    elif u == 3: mu = np.zeros((T, K), int); m.event('whole')
    Z = rng.normal(size=(T, K, n))
    form = 'two-dimensional'
    a_mu, a_vol, a_S = mu, vol, S0
    if K == 1 and rng.integers(2): a_mu, a_vol, form = mu[:, 0], vol[:, 0], 'one-dimensional'
    if K == 1 and T > 1 and rng.integers(4) == 0: a_mu, a_vol, form = mu.T, vol.T, 'row'
    if T == 1 and K > 1 and rng.integers(2): a_mu, a_vol, form = mu[0], vol[0], 'one step'
    if rng.integers(2): a_S = S0[None, :]
    m.case(S0=a_S, mu=a_mu, vol=a_vol, dt=dt, paths=n, form=form)
    keep = [x.copy() for x in (a_S, a_mu, a_vol, dt, Z)]
    X = m.call('gbm', simulate_gbm_path, initial_px=a_S, drift=a_mu, forward_volatility=a_vol, timestep_length=dt, rand_nbs=Z)
    if not m.ok(np.shape(X) == (T + 1, K, n), 'shape', dict(got=np.shape(X), want=(T + 1, K, n))): return
    m.ok(all(np.array_equal(x, y) for x, y in zip(keep, (a_S, a_mu, a_vol, dt, Z))), 'inputs-altered')
    want = np.empty((T + 1, K, n)); want[0] = S0[:, None]
    for k in range(K):
        for p in range(n):
            c = np.cumsum((mu[:, k] - vol[:, k] ** 2 / 2) * dt + vol[:, k] * np.sqrt(dt) * Z[:, k, p])
            want[1:, k, p] = S0[k] * np.exp(c)
    m.ok(np.all(X[0] == S0[:, None]), 'start', lambda: dict(got=X[0], S0=S0))
    m.close(X, want, 'path', 1e-10, 0)
    m.ok(np.all(X > 0), 'positive')
    m.event('gbm_%s' % ('many' if K > 1 else 'one'))
    if K > 1 and K == n: m.event('gbm_square')
    if T == 1: m.event('gbm_single_step')
    if K > 1:   # each underlying simulated on its own gives the same path
        k = int(rng.integers(K))
        one = m.call('gbm', simulate_gbm_path, S0[k:k + 1], mu[:, k], vol[:, k], dt, Z[:, k:k + 1, :])
        m.close(one[:, 0, :], X[:, k, :], 'alone-vs-together', 1e-12, 0)
    if rng.integers(10) == 0:
        m.refuses('steps', simulate_gbm_path, S0, mu, vol, np.append(dt, 1.0), Z)
        m.refuses('volatility', simulate_gbm_path, S0, mu, np.vstack([vol, vol]), dt, Z)
        m.event('gbm_refused')


def gbm_ensemble(m, rng):
    K, T = int(rng.integers(1, 4)), int(rng.integers(1, 5)); n = 40000
    S0 = np.exp(rng.uniform(-2, 3, K)); mu = rng.normal(0, .05, (T, K)); vol = rng.uniform(.02, .3, (T, K)); dt = rng.uniform(.02, .7, T)
    seed = int(rng.integers(2 ** 31)); anti = bool(rng.integers(2))
    m.case(S0=S0, mu=mu, vol=vol, dt=dt, seed=seed, anti=anti)
    Z = m.call('draws', generate_rand_nbs, T, K, n, anti, seed)
    C = np.eye(K)
    if K > 1:
        r = float(rng.uniform(-.9 / (K - 1), .95)); C = np.full((K, K), r); np.fill_diagonal(C, 1)
        Z = m.call('correlate', normal_corr, C, Z)
    X = m.call('gbm', simulate_gbm_path, S0, mu, vol, dt, Z)
    L = np.log(X / S0[None, :, None])
    cm = np.cumsum((mu - vol ** 2 / 2) * dt[:, None], 0); cv = np.cumsum(vol ** 2 * dt[:, None], 0)
    se = 5.5 / math.sqrt(n)
    for i in range(T):
        for k in range(K):
            s2 = cv[i, k]
            m.ok(abs(L[i + 1, k].mean() - cm[i, k]) < se * math.sqrt(s2), 'ensemble-mean', lambda: dict(got=L[i + 1, k].mean(), want=cm[i, k]))
            m.ok(abs(L[i + 1, k].var() / s2 - 1) < se * math.sqrt(2) * 1.5, 'ensemble-variance', lambda: dict(got=L[i + 1, k].var(), want=s2))
            fwd = S0[k] * math.exp(np.sum(mu[:i + 1, k] * dt[:i + 1]))
            m.ok(abs(X[i + 1, k].mean() / fwd - 1) < se * math.sqrt(math.expm1(s2)) * 1.3 + 1e-12, 'ensemble-forward', lambda: dict(got=X[i + 1, k].mean(), want=fwd))
    if K > 1:
        inc = np.diff(L, axis=0) / (vol * np.sqrt(dt)[:, None])[:, :, None]
        R = np.corrcoef(inc[int(rng.integers(T))])
        m.ok(np.max(np.abs(R - C)) < se * 1.3, 'ensemble-correlation', lambda: dict(got=R, want=C))
        m.event('correlated_ensemble')
    m.event('gbm_ensemble')


def curve(rng, T):
    kind = int(rng.integers(4)); base = math.exp(rng.uniform(0, 5)); T = max(T, 1)
    if kind == 0: x = np.array([0.0, T]); y = np.array([base, base])
    elif kind == 1: x = np.array([0.0, T + 2.0]); y = base * np.array([1, math.exp(rng.normal(0, .3))])
    elif kind == 2: x = np.arange(T + 1.0); y = base * np.exp(np.cumsum(rng.normal(0, .05, T + 1)))
    else:
        x = np.unique(np.concatenate([[0.0, T], rng.uniform(0, T, 3)])); y = base * np.exp(rng.normal(0, .2, len(x)))
    if rng.integers(8) == 0: return np.column_stack([np.ceil(x), np.ceil(y) + 1]).astype(int)[np.append(np.diff(np.ceil(x)) > 0, True)]      # whole numbers
    return np.column_stack([x, y])


def run(m, key, fc, n, seg, T, a, s, cap=None):
    old = cs.MAX_SIMULATIONS_PER_LOOP
    try:
        if cap: cs.MAX_SIMULATIONS_PER_LOOP = cap
        return m.call(key, csim, forward_curve=fc, nb_simulations=n, segments_per_day=seg, T=T, alpha=a, sigma=s)
    finally:
        cs.MAX_SIMULATIONS_PER_LOOP = old


def mean_reverting(m, rng):
    T, seg, n = int(rng.integers(1, 15)), int(rng.integers(1, 9)), int(rng.integers(1, 40))
    a, s = float(rng.uniform(0.001, .8)), float(rng.uniform(.005, .2))
    fc = curve(rng, T)
    m.case(curve=fc, n=n, seg=seg, T=T, alpha=a, sigma=s)
    f0 = fc.copy()
    X = run(m, 'simulate', fc, n, seg, T, a, s)
    if not m.ok(np.shape(X) == (T + 1, n), 'shape', dict(got=np.shape(X), want=(T + 1, n))): return
    m.ok(np.array_equal(f0, fc), 'inputs-altered')
    F = np.interp(np.arange(T + 1), fc[:, 0], fc[:, 1])
    m.close(X[0], np.full(n, F[0]), 'start', 1e-12, 0)
    m.ok(np.all(X > 0) and np.all(np.isfinite(X)), 'positive')
    np.random.normal(size=5)
    m.ok(np.array_equal(run(m, 'simulate', fc, n, seg, T, a, s), X), 'not-reproducible')
    # with no volatility the spot is the forward curve
    m.close(run(m, 'simulate', fc, n, seg, T, a, 0.0), np.repeat(F[:, None], n, 1), 'no-volatility', 1e-9, 0)
    # the spot relative to its forward does not depend on the curve
    fc2 = curve(rng, T); F2 = np.interp(np.arange(T + 1), fc2[:, 0], fc2[:, 1])
    Y = run(m, 'simulate', fc2, n, seg, T, a, s)
    m.close(Y / F2[:, None], X / F[:, None], 'relative-to-curve', 1e-9, 0)
    # shocks scale with volatility: a.s. linear once the convexity term is taken out
    if n > 1:
        W = run(m, 'simulate', fc, n, seg, T, a, s / 2)
        d = np.log(X[:, 1:] / X[:, :1]); e = np.log(W[:, 1:] / W[:, :1])
        m.close(d, 2 * e, 'shock-scaling', 1e-7, 1e-9)
        m.ok(len(np.unique(np.round(X[-1], 13))) == n, 'paths-share-draws', lambda: dict(distinct=len(np.unique(X[-1])), of=n))
    m.event('mean_reverting'); m.event('seg_%s' % ('one' if seg == 1 else 'many'))


def drift(m, rng):
    """The draws are the same for every volatility, so two volatilities give the convexity drift of each path without noise."""
    T, n = int(rng.integers(1, 12)), int(rng.integers(1, 9)); seg = int(gen.pick(rng, [1, 2, 5, 16, 40]))
    a, s = float(np.exp(rng.uniform(math.log(.002), math.log(.8)))), float(rng.uniform(.02, .2)); fc = curve(rng, T)
    m.case(curve=fc, n=n, seg=seg, T=T, alpha=a, sigma=s)
    X = run(m, 'simulate', fc, n, seg, T, a, s); W = run(m, 'simulate', fc, n, seg, T, a, 2 * s)
    t = np.arange(T + 1.0); F = np.interp(t, fc[:, 0], fc[:, 1])
    D = (np.log(W / F[:, None]) - 2 * np.log(X / F[:, None])) / (2 * s * s)
    want = -(-np.expm1(-2 * a * t)) / (4 * a)
    m.close(D[1:], np.repeat(want[1:, None], n, 1), 'convexity-drift', 1.05 * a / seg * (1 + a / seg) + 1e-6, 1e-9)
    m.event('drift_fine' if a / seg < .02 else 'drift_coarse')


def loops(m, rng):
    """Several simulation loops: all paths filled, none repeated, first loop as on its own."""
    T, seg, n = int(rng.integers(1, 6)), int(rng.integers(1, 4)), int(rng.integers(2, 60))
    a, s = float(rng.uniform(0.01, .5)), float(rng.uniform(.02, .2)); fc = curve(rng, T)
    per = int(rng.integers(1, n + 1)); cap = per * T * seg + int(rng.integers(0, T * seg))
    m.case(curve=fc, n=n, seg=seg, T=T, alpha=a, sigma=s, per_loop=per)
    X = run(m, 'simulate', fc, n, seg, T, a, s, cap)
    if not m.ok(np.shape(X) == (T + 1, n), 'shape', dict(got=np.shape(X))): return
    F = np.interp(np.arange(T + 1), fc[:, 0], fc[:, 1])
    m.close(X[0], np.full(n, F[0]), 'start', 1e-12, 0)
    m.ok(np.all(X > 0), 'path-not-filled', lambda: dict(zero=np.argwhere(X <= 0)[:4]))
    m.ok(len(np.unique(np.round(X[-1] / F[-1], 13))) == n, 'paths-share-draws', lambda: dict(distinct=len(np.unique(X[-1])), of=n))
    m.close(X[:, :per], run(m, 'simulate', fc, per, seg, T, a, s), 'first-loop', 1e-12, 0)
    m.ok(np.array_equal(run(m, 'simulate', fc, n, seg, T, a, s, cap), X), 'not-reproducible')
    m.event('loops_partial' if n % per else 'loops_full')
    if n > per: m.event('loops')


def mr_ensemble(m, rng):
    T = int(rng.integers(1, 31)); seg = int(gen.pick(rng, [1, 1, 2, 4, 10])); n = 20000
    a = float(np.exp(rng.uniform(math.log(.005), math.log(.3)))); s = float(rng.uniform(.01, .12)); fc = curve(rng, T)
    cap = None
    if rng.integers(3) == 0: cap = int(n * T * seg / rng.uniform(1.2, 6))
    m.case(curve=fc, seg=seg, T=T, alpha=a, sigma=s, cap=cap)
    X = run(m, 'simulate', fc, n, seg, T, a, s, cap)
    t = np.arange(T + 1.0); F = np.interp(t, fc[:, 0], fc[:, 1]); L = np.log(X / F[:, None]); dt = 1 / seg
    want_v = s * s * -np.expm1(-2 * a * t) / (2 * a); want_m = -want_v / 2
    q = 5.5 / math.sqrt(n)
    for i in range(1, T + 1):
        v = want_v[i]; rel = 2.0 * a * dt
        m.ok(abs(L[i].var() / v - 1) < q * math.sqrt(2) + rel, 'variance', lambda: dict(t=i, got=L[i].var(), want=v))
        m.ok(abs(L[i].mean() - want_m[i]) < q * math.sqrt(v) + rel * v, 'log-mean', lambda: dict(t=i, got=L[i].mean(), want=want_m[i]))
        m.ok(abs(X[i].mean() / F[i] - 1) < q * math.sqrt(math.expm1(v * (1 + rel))) + 2 * rel * v, 'forward-curve', lambda: dict(t=i, got=X[i].mean(), want=F[i]))
        # reversion: regression of one day on the day before
        if i > 1:
            b = np.cov(L[i], L[i - 1]); beta = b[0, 1] / b[1, 1]; sb = math.sqrt(max(b[0, 0] - beta ** 2 * b[1, 1], 0) / b[1, 1] / n)
            m.ok(abs(beta - math.exp(-a)) < 5.5 * sb + .7 * a * a * dt + 1e-9, 'reversion', lambda: dict(t=i, got=beta, want=math.exp(-a)))
    # shocks: new each day, independent across paths, normal
    if seg == 1:
        z = L[1:] - (1 - a) * L[:-1]; z = (z - z.mean(1, keepdims=True)) / s
        N = z.size
        m.ok(abs(z.var() - 1) < 5.5 * math.sqrt(2 / N) + 2.0 * a, 'shock-variance', lambda: dict(got=z.var()))
        m.ok(abs((z ** 4).mean() / z.var() ** 2 - 3) < 5.5 * math.sqrt(96 / N), 'shock-kurtosis')
        m.ok(abs((z[:, 1:] * z[:, :-1]).mean()) < 5.5 * z.var() / math.sqrt(N), 'path-independence')
        if T > 1: m.ok(np.max(np.abs(np.corrcoef(z) - np.eye(T))) < q * 1.1, 'day-independence')
        m.event('shocks')
    m.event('mr_ensemble')


SECTIONS = [Section('gbm', gbm, 12000, 100000, ['gbm_many', 'gbm_one', 'gbm_square', 'gbm_single_step', 'gbm_refused', 'no_drift', 'whole']),
            Section('gbm_ensemble', gbm_ensemble, 240, 3000, ['gbm_ensemble', 'correlated_ensemble']),
            Section('mean_reverting', mean_reverting, 4000, 30000, ['mean_reverting', 'seg_one', 'seg_many']),
            Section('loops', loops, 3000, 20000, ['loops', 'loops_partial', 'loops_full']),
            Section('drift', drift, 2400, 20000, ['drift_fine', 'drift_coarse']),
            Section('mr_ensemble', mr_ensemble, 200, 2000, ['mr_ensemble', 'shocks'])]
