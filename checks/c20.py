"""C20 Heston path simulation: path by path against the scheme written out, ensembles against the model."""
import math
import numpy as np
from frmmon import Section
import gen, refopt, refheston as rh
from frm.pricing_engine.heston import heston_simulate, heston_simulate_scalar
from frm.pricing_engine.monte_carlo_generic import generate_rand_nbs

PROPERTY = 'C20'
ANCHORS = ['frm/pricing_engine/heston.py', 'frm/pricing_engine/monte_carlo_generic.py']
RULE = ('random admissible parameters x three schemes x grids of 1 to 60 steps x draws that are normal, extreme, zero or antithetic, so that both branches of the variance scheme '
        'and zero variance are visited; ensembles of 8000-40000 paths; non-trivial = new parameter set, grid and draws')
ASSUMPTIONS = ['The discretised schemes are the specification: quadratic-exponential with switching level 1.5 and central weights for the log price (Andersen 2008), '
               'full-truncation-style Euler with absorption or reflection.',
               'Ensemble tolerance: 5 standard errors plus the time-step bias allowed for (steps of at most 1/50 year, vol of vol below 0.6).',
               'The Euler spot recursion is arithmetic and may turn negative on extreme draws; only its value is judged.']
QE, EA, ER = 'quadratic_exponential', 'euler_with_absorption_of_volatility_process', 'euler_with_reflection_of_volatility_process'


def path(S0, mu, v0, vv, kappa, theta, rho, tau, Z, method, seen):
    """One path, draws Z (steps, 2); spot shock first."""
    n = len(Z); dt = tau / n
    S, V = [S0], [v0]
    x = math.log(S0)
    e = math.exp(-kappa * dt)
    for zs, zv in Z:
        v = V[-1]
        if method == QE:
            m = theta + (v - theta) * e
            s2 = rh.var_var(dt, v, vv, kappa, theta)
            psi = s2 / (m * m)
            if psi <= 1.5:
                h = 2 / psi
                b2 = h - 1 + math.sqrt(h * (h - 1))
                w = m / (1 + b2) * (math.sqrt(b2) + zv) ** 2
                seen.add('quadratic')
            else:
                p = (psi - 1) / (psi + 1)
                U = refopt.N(zv)
                w = 0.0 if U <= p else math.log((1 - p) / refopt.N(-zv)) * m / (1 - p)
                seen.add('zero_variance' if w == 0 else 'exponential')
            x += mu * dt - rho * kappa * theta * dt / vv + (.5 * dt * (kappa * rho / vv - .5)) * (v + w) + rho / vv * (w - v) + math.sqrt(.5 * dt * (1 - rho * rho) * (v + w)) * zs
            S.append(math.exp(x)); V.append(w)
        else:
            dws, dwv = math.sqrt(dt) * zs, math.sqrt(dt) * (rho * zs + math.sqrt(1 - rho * rho) * zv)
            w = v + kappa * (theta - v) * dt + vv * math.sqrt(v) * dwv
            if w < 0: seen.add('truncated')
            S.append(S[-1] * (1 + mu * dt + math.sqrt(v) * dws)); V.append(max(w, 0.0) if method == EA else abs(w))
    return np.array([S, V]).T


def params(rng, mild=False):
    v0 = gen.loguniform(rng, .003, .2)
    return dict(var0=v0, vv=gen.loguniform(rng, .1, .6 if mild else 2), kappa=gen.loguniform(rng, .3 if mild else .05, 4), theta=v0 * gen.loguniform(rng, .3, 3), rho=float(rng.uniform(-.95, .95)))


def paths(m, rng):
    p = params(rng)
    u = int(rng.integers(12))
    if u == 0: p['var0'] = 0.0
    elif u == 1: p['rho'] = 0.0
    elif u == 2: p['rho'] = float(gen.pick(rng, [-.999, .995]))
    elif u == 3: p['kappa'] = gen.loguniform(rng, 4, 40)
    elif u == 4: p['vv'] = gen.loguniform(rng, .005, .1)
    S0, mu, tau = gen.loguniform(rng, .01, 500), float(rng.uniform(-.1, .1)), gen.loguniform(rng, .02, 8)
    u = int(rng.integers(12))
    if u == 0: S0, mu, tau, p['kappa'] = int(rng.integers(1, 200)), 0, int(rng.integers(1, 6)), int(rng.integers(1, 4)); m.event('whole')
    elif u == 1: mu = 0.0
    elif u == 2: p['theta'] = p['var0'] or .04; m.event('at_the_mean')
    n, sims = int(gen.pick(rng, [1, 2, 3, 12, 60])), int(gen.pick(rng, [1, 2, 5, 16]))
    method = gen.pick(rng, [QE, QE, EA, ER])
    if method != QE: p['kappa'] = min(p['kappa'], 1.5 * n / tau)        # beyond, the explicit scheme itself is unstable and overflows
    kind = int(rng.integers(5))
    Z = rng.normal(size=(n, 2, sims))
    if kind == 1: Z *= 2.5
    elif kind == 2: Z[:, 1] -= 1.5
    elif kind == 3: Z[rng.random(Z.shape) < .3] = 0.0
    elif kind == 4 and sims > 1: Z = m.call('draws', generate_rand_nbs, n, 2, sims, True, int(rng.integers(1000)))
    if rng.integers(6) == 0: Z[tuple(int(rng.integers(k)) for k in Z.shape)] = float(rng.choice([-1, 1]) * rng.uniform(4, 12)); m.event('far_draw')
    else: Z = np.clip(Z, -4.5, 4.5)
    m.case(S0=S0, mu=mu, tau=tau, steps=n, sims=sims, method=method, draws=kind, z=float(Z[0, 0, 0]), **p)
    Z0 = Z.copy()
    X = m.call('simulate', heston_simulate, S0, mu, p['var0'], p['vv'], p['kappa'], p['theta'], p['rho'], tau, Z, method)
    m.ok(np.array_equal(Z, Z0), 'draws-altered')
    if not m.ok(np.shape(X) == (n + 1, 2, sims), 'shape', dict(got=np.shape(X))): return
    m.close(X[0, 0], np.full(sims, S0), 'start-spot', 1e-12); m.close(X[0, 1], np.full(sims, p['var0']), 'start-variance', 1e-12)
    m.ok(np.all(np.isfinite(X)) and np.all(X[:, 1] >= 0), 'variance-sign', lambda: dict(lowest=X[:, 1].min()))
    if method == QE: m.ok(np.all(X[:, 0] > 0), 'spot-sign')
    seen = set()
    for j in (range(sims) if sims <= 5 else rng.choice(sims, 4, False)):
        W = path(S0, mu, p['var0'], p['vv'], p['kappa'], p['theta'], p['rho'], tau, Z[:, :, j], method, seen)
        m.close(X[:, 1, j], W[:, 1], method + ':variance', 1e-7, 1e-7 * max(p['var0'], p['theta']), dict(path=int(j)))
        m.close(X[:, 0, j], W[:, 0], method + ':spot', 1e-6, 1e-9 * S0 if method != QE else 0, dict(path=int(j)))
        Y = m.call('scalar', heston_simulate_scalar, S0, mu, p['var0'], p['vv'], p['kappa'], p['theta'], p['rho'], tau, np.ascontiguousarray(Z[:, :, j]), method)
        m.ok(np.shape(Y) == (n + 1, 2), 'scalar-shape') and m.close(np.asarray(Y), X[:, :, j], 'scalar-vs-vector', 1e-9, 1e-12)
    for s in seen: m.event(s)
    m.event(method)


def ensemble(m, rng):
    p = params(rng, mild=True)
    p['rho'] *= .85
    S0, mu, tau = gen.loguniform(rng, .5, 150), float(rng.uniform(-.05, .05)), gen.loguniform(rng, .1, 2)
    method = gen.pick(rng, [QE, QE, QE, EA])
    n = int(math.ceil(max(tau * 50, 8)))
    seed, anti = int(rng.integers(10 ** 6)), bool(rng.integers(2))
    sims = 16000 if m.tier == 'quick' else 30000
    m.case(S0=S0, mu=mu, tau=tau, steps=n, sims=sims, method=method, seed=seed, antithetic=anti, **p)
    Z = m.call('draws', generate_rand_nbs, n, 2, sims, anti, seed)
    m.ok(np.array_equal(Z, m.call('draws', generate_rand_nbs, n, 2, sims, anti, seed)), 'draws-repeat')
    a = (p['var0'], p['vv'], p['kappa'], p['theta'], p['rho'])
    X = m.call('simulate', heston_simulate, S0, mu, *a, tau, Z, method)
    m.ok(np.array_equal(X, m.call('simulate', heston_simulate, S0, mu, *a, tau, Z, method)), 'repeat')
    m.ok(np.all(np.isfinite(X)) and np.all(X[:, 1] >= 0), 'variance-sign')
    F = S0 * math.exp(mu * tau)

    def within(samples, want, key, bias):
        x = samples
        if anti: x = .5 * (x[0::2] + x[1::2])
        se = float(np.std(x)) / math.sqrt(len(x))
        m.ok(abs(float(np.mean(x)) - want) <= 5 * se + bias, key, dict(got=float(np.mean(x)), want=want, se=se, bias=bias))
    vs = rh.mean_var(tau, p['var0'], p['kappa'], p['theta'])
    sd = math.sqrt(vs * tau)
    trunc = 1.0
    if method == EA:                       # truncation adds variance; Feller-violating sets are judged on the martingale only
        trunc = 0.0 if 2 * p['kappa'] * min(p['theta'], p['var0']) < 1.5 * p['vv'] ** 2 else 1.0
    if trunc:
        for i in (n // 3, n):
            t = tau * i / n
            within(X[i, 1], rh.var_mean(t, p['var0'], p['kappa'], p['theta']), 'mean-variance', 1e-3 * vs if method == QE else 1e-2 * vs)
        if method == QE:
            d = (X[n, 1] - np.mean(X[n, 1])) ** 2
            within(d, rh.var_var(tau, p['var0'], p['vv'], p['kappa'], p['theta']), 'variance-of-variance', 2e-2 * rh.var_var(tau, p['var0'], p['vv'], p['kappa'], p['theta']))
    within(X[n, 0] / F, 1.0, 'martingale', 2e-3 * sd)
    within(X[n // 2, 0] / (S0 * math.exp(mu * tau * (n // 2) / n)), 1.0, 'martingale', 2e-3 * sd)
    if trunc:
        for x in (-1.0, 0.0, 1.0):
            K, cp = F * math.exp(x * sd), 1 if x >= 0 else -1
            ref = float(rh.call_fwd(F, [K], tau, *a)[0]) - (0 if cp == 1 else F - K)
            within(np.maximum(cp * (X[n, 0] - K), 0), ref, 'option', (.01 if method == QE else .02) * sd * .4 * F)
    m.event('ensemble_' + method[:5]); m.event('antithetic' if anti else 'plain')


SECTIONS = [Section('paths', paths, 5000, 40000, [QE, EA, ER, 'quadratic', 'exponential', 'zero_variance', 'truncated', 'far_draw', 'whole', 'at_the_mean']),
            Section('ensemble', ensemble, 96, 600, ['ensemble_quadr', 'ensemble_euler', 'antithetic', 'plain'])]
