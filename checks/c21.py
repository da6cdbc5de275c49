"""C21 SABR expansion, level solved from the at-the-money volatility, smile fit."""
import math
import numpy as np
from frmmon import Section
import gen
from frm.pricing_engine.sabr import (calc_sln_vol_for_strike_from_sabr_params as sabr, solve_alpha_from_sln_vol as solve_alpha, fit_sabr_params_to_sln_smile as fit)

PROPERTY = 'C21'
ANCHORS = ['frm/pricing_engine/sabr.py']
RULE = ('random SABR parameters (elasticity 0 to 1, correlation to +-0.99, vol of vol .01-2) x forwards from negative shifted rates to FX levels x strikes within 4 standard '
        'deviations, at the money and a hair away from it x scalar, strike-vector and parameter-vector calls; fits of model smiles; non-trivial = new parameter set and strikes')
ASSUMPTIONS = ['Only the (shifted) lognormal expansion of Hagan et al. (2002), eq. 2.17 and 2.18, exists in the code base; vol of vol is positive as documented.',
               'A level is solvable when the at-the-money cubic has a positive root near the elementary guess; parameter sets without one are not generated.']


def hagan(tau, F, a, b, rho, v, K, s=0.0):
    F, K = F + s, K + s
    L = math.log(F / K)
    g = (F * K) ** ((1 - b) / 2)
    z = v / a * g * L
    if abs(z) < 1e-3:        # z / x(z) as a series
        r = 1 - rho * z / 2 + (2 - 3 * rho * rho) * z * z / 12 + rho * (5 - 6 * rho * rho) * z ** 3 / 24 * -1
    else:
        r = z / math.log((math.sqrt(1 - 2 * rho * z + z * z) + z - rho) / (1 - rho)) if z > 0 else \
            z / -math.log((math.sqrt(1 - 2 * rho * z + z * z) - z + rho) / (1 + rho))
    den = g * (1 + (1 - b) ** 2 / 24 * L ** 2 + (1 - b) ** 4 / 1920 * L ** 4)
    return a * r / den * (1 + ((1 - b) ** 2 * a * a / (24 * g * g) + rho * b * v * a / (4 * g) + (2 - 3 * rho * rho) / 24 * v * v) * tau)


def params(rng, tame=False):
    tau = gen.loguniform(rng, .05, 20)
    k = int(rng.integers(3))
    if k == 0: F, s = gen.loguniform(rng, .003, .1), 0.0
    elif k == 1:
        s = float(gen.pick(rng, [.01, .02, .03])); F = float(rng.uniform(-.8 * s, .08))
    else: F, s = gen.loguniform(rng, .3, 200), 0.0
    b = float(gen.pick(rng, [0.0, 1.0, .5, rng.uniform(0, 1)]))
    rho = float(rng.uniform(-.7, .7) if tame else gen.pick(rng, [rng.uniform(-.99, .99), 0.0, .95, -.95]))
    v = (gen.loguniform(rng, .1, 1) if tame else gen.loguniform(rng, .01, 2)) / max(1.0, math.sqrt(tau / 2))
    atm = gen.loguniform(rng, .05, .6) / max(1.0, math.sqrt(tau / 5))
    return tau, F, s, b, rho, v, atm


def smile(m, rng):
    tau, F, s, b, rho, v, atm = params(rng)
    a = atm * (F + s) ** (1 - b) * rng.uniform(.8, 1.2)
    if rng.integers(8) == 0:            # whole numbers
        tau, F, s, b = int(rng.integers(1, 8)), int(rng.integers(1, 150)), int(rng.integers(0, 3)), int(rng.integers(0, 2)); m.event('whole')
        a = atm * float(F + s) ** (1 - b)
    form = int(rng.integers(4))
    n = 1 if form == 0 else int(rng.integers(2, 9))
    x = np.where(rng.random(n) < .2, 0.0, rng.uniform(-4, 4, n)) * atm * math.sqrt(tau)
    eps = np.array([gen.pick(rng, [0.0, 0.0, 1e-12, 9e-7, -9e-7, 1.1e-6, -1.1e-6, 1e-5, -1e-4]) for _ in range(n)])
    K = (F + s) * np.exp(np.where(x == 0, eps, x)) - s
    if rng.integers(2): p = rng.integers(0, n, n); K = K[p]       # strikes more than once
    if isinstance(F, int) and rng.integers(2) and np.all(K > 1): K = np.round(K).astype(int)
    m.case(tau=tau, F=F, shift=s, alpha=a, beta=b, rho=rho, volvol=v, K=K.tolist(), form=form)
    if form <= 1:
        args = [tau, F, a, b, rho, v, K[0].item() if n == 1 else K]
        want = [hagan(tau, F, a, b, rho, v, k, s) for k in K]
        cols = [(tau, F, a, b, rho, v)] * n
    else:
        # one smile per element: every parameter a vector
        T, R, V, A, B, FF = (np.array([p * f for f in rng.uniform(.7, 1.0, n)]) for p in (tau, rho, v, a, b, F + s))
        FF = FF - s
        if rng.integers(3) == 0: p = rng.integers(0, n, n); T, R, V, A, B, FF = (z[p] for z in (T, R, V, A, B, FF))
        if form == 3: K = np.array([float(K[0])])
        kk = np.broadcast_to(K, (n,))
        want = [hagan(T[i], FF[i], A[i], B[i], R[i], V[i], kk[i], s) for i in range(n)]
        args = [T, FF, A, B, R, V, K if form == 2 else float(K[0])]
        cols = list(zip(T, FF, A, B, R, V))
    if all(len(np.atleast_1d(c)) == 1 for c in args[:6]) and n > 1: m.event('strike_vector')
    before = [np.copy(z) for z in args]
    got = m.call('vol', sabr, *args, s)
    m.ok(all(np.array_equal(p, q) for p, q in zip(before, args)), 'inputs-altered')
    m.ok(np.isscalar(got) if len(want) == 1 else np.shape(got) == (len(want),), 'shape', dict(got=np.shape(got)))
    kk = np.broadcast_to(K, (len(want),))
    # strikes within 1e-6 of the money take the at-the-money value: first-order slope of the smile times 1e-6
    slope = np.array([1 + (1 + abs(c[4])) * c[5] / c[2] * (c[1] + s) ** (1 - c[3]) for c in cols])
    hair = np.abs(np.log((np.array([c[1] for c in cols]) + s) / (kk + s))) < 2e-6
    g = np.atleast_1d(got)
    m.ok(np.shape(g) == (len(want),) and np.abs(g - want) <= np.abs(want) * np.where(hair, 2e-6 * slope, 1e-7), 'expansion', lambda: dict(form=form, args=args, got=g, want=want))
    far = np.abs(np.log((np.array([c[1] for c in cols]) + s) / (kk + s))) > 1e-3
    if np.any(far): m.close(np.atleast_1d(got)[far], np.array(want)[far], 'expansion-away-from-the-money', 1e-8, 0, lambda: dict(form=form, args=args))
    if np.any(~far): m.event('near_the_money')
    if np.any(kk == F): m.event('at_the_money')
    if form >= 2: m.event('parameter_vectors')
    if form >= 1 and len(want) > 1:
        i = int(rng.integers(len(want)))
        one = m.call('one', sabr, *[float(c) for c in cols[i]], float(kk[i]), s)
        m.close(one, np.atleast_1d(got)[i], 'scalar-vs-vector', 1e-9)
    if form == 0:
        lam = gen.loguniform(rng, .01, 100)
        m.close(m.call('scaled', sabr, tau, lam * (F + s), a * lam ** (1 - b), b, rho, v, lam * (K[0] + s), 0.0), got, 'scale-invariance', 1e-7)
        m.close(m.call('shifted', sabr, tau, F + s, a, b, rho, v, float(K[0]) + s, 0.0), got, 'shift-equivalence', 1e-7)
        at = m.call('atm', sabr, tau, F, a, b, rho, v, F, s)
        for e in (1e-7, -1e-7, 3e-6, -3e-6, 2e-5, -2e-5):
            w = m.call('atm', sabr, tau, F, a, b, rho, v, (F + s) * math.exp(e) - s, s)
            slope = abs((1 + abs(rho)) * v / a * (F + s) ** (1 - b)) + 1
            m.ok(abs(w / at - 1) <= 3 * slope * abs(e) * (1 + v * v * tau) + 1e-8, 'continuity', dict(e=e, at=at, near=w))
    if n > 2 and rng.integers(20) == 0 and form == 2:
        m.refuses('strikes', sabr, T, FF, A, B, R, V, K[:-1], s); m.event('shape_refused')


def level(m, rng):
    tau, F, s, b, rho, v, atm = params(rng)
    wild = rng.integers(3) == 0
    if wild:      # long expiries with a violent volatility: the linear coefficient of the cubic may be negative
        tau, v, rho, atm = float(rng.uniform(5, 30)), float(rng.uniform(.5, 2.5)), float(rng.choice([-1, 1])) * float(rng.uniform(.8, .995)), gen.loguniform(rng, .05, 1)
    f = (F + s) ** (1 - b)
    A, B, C = (1 - b) ** 2 * tau / (24 * f * f), rho * b * v * tau / (4 * f), 1 + (2 - 3 * rho * rho) * v * v * tau / 24
    # in units x = alpha / f: solvable with room to spare when the cubic reaches the target on its first rising branch
    xs = np.linspace(0, 3 * atm, 400)
    y = A * f * f * xs ** 3 + B * f * xs ** 2 + C * xs
    m.case(tau=tau, F=F, shift=s, beta=b, rho=rho, volvol=v, atm=atm)
    if wild:
        xs = atm * np.logspace(-3, 3, 4000)
        y = A * f * f * xs ** 3 + B * f * xs ** 2 + C * xs
        if np.max(y) < 1.1 * atm: m.event('unsolvable'); return
        a = m.call('alpha', solve_alpha, tau, F, b, rho, v, atm, s)
        m.ok(a > 0, 'alpha-positive', dict(got=a, linear=C))
        m.close(hagan(tau, F, a, b, rho, v, F, s), atm, 'reproduces', 1e-7, 0, dict(alpha=a))
        m.event('level_negative_slope' if C < 0 else 'level_violent'); return
    if C < .5 or np.max(y[: int(np.argmax(np.diff(y, append=-np.inf) <= 0)) or None]) < 1.1 * atm:
        m.event('unsolvable'); return
    a = m.call('alpha', solve_alpha, tau, F, b, rho, v, atm, *([s] if s or rng.integers(2) else []))
    m.ok(a > 0, 'alpha-positive', dict(got=a))
    m.close(hagan(tau, F, a, b, rho, v, F, s), atm, 'reproduces', 1e-9, 0, dict(alpha=a))
    m.close(m.call('vol', sabr, tau, F, a, b, rho, v, F, s), atm, 'round-trip', 1e-9, 0, dict(alpha=a))
    # the other way round: the volatility of a level gives the level back, where the volatility has no other level
    a0 = atm * f * float(rng.uniform(.7, 1.1))
    w = m.call('vol', sabr, tau, F, a0, b, rho, v, F, s)
    xs = np.linspace(1e-3, 30 * max(atm, 1), 6000)
    g = A * f * f * xs ** 3 + B * f * xs ** 2 + C * xs - w
    if np.sum(np.diff(np.sign(g)) != 0) == 1 and A * 3 * a0 ** 2 + 2 * B * a0 + C > .05:
        m.close(m.call('alpha', solve_alpha, tau, F, b, rho, v, w, s), a0, 'inverse', 1e-8)
        m.event('level_inverse')
    m.event('level')


def fits(m, rng):
    tau, F, s, b, rho, v, atm = params(rng, tame=True)
    if abs(v * tau * atm) > .35: tau = .35 / v / atm
    n = int(rng.integers(5, 18))
    while True:
        x = np.sort(np.append(rng.uniform(-2, 2, n - 1), 0.0))
        if np.min(np.diff(x)) > .02 and x[0] < -.8 and x[-1] > .8: break
    K = (F + s) * np.exp(x * atm * math.sqrt(tau)) - s
    K[x == 0] = F
    if rng.integers(3) == 0:            # strikes in any order
        o = rng.permutation(n); x, K = x[o], K[o]; m.event('unordered')
    a = m.call('alpha', solve_alpha, tau, F, b, rho, v, atm, s)
    vols = np.array([hagan(tau, F, a, b, rho, v, k, s) for k in K])
    free = bool(rng.integers(4) == 0)
    m.case(tau=tau, F=F, shift=s, beta=b, rho=rho, volvol=v, atm=atm, K=K.tolist(), beta_given=not free)
    if np.any(vols < .01): return
    if np.sum(np.isclose(K, F)) != 1:
        m.refuses('atm strike', fit, tau, F, K, vols, s, b); return
    kw = dict(tau=tau, F=F, K=K.copy(), vols_sln=vols.copy())
    if s or rng.integers(2): kw['ln_shift'] = s
    if not free: kw['beta_overide'] = b
    (p, res) = m.call('fit', fit, **kw)
    m.ok(np.array_equal(kw['K'], K) and np.array_equal(kw['vols_sln'], vols), 'inputs-altered')
    w = np.array([hagan(tau, F, p[0], p[1], p[2], p[3], k, s) for k in K])
    m.ok(np.abs(w - vols) <= (2e-5 if not free else 6e-3), 'fit-reprices', lambda: dict(params=p, got=w, want=vols))
    m.close(w[x == 0], atm, 'fit-atm', 1e-7)
    m.ok(p[0] > 0 and abs(p[2]) <= 1 and p[3] > 0 and (0 <= p[1] <= 1 if free else p[1] == b), 'admissible', dict(params=p))
    m.event('fit_free' if free else 'fit')
    if rng.integers(10) == 0:
        m.refuses('no atm', fit, tau, F, K[x != 0], vols[x != 0], s, b)
        m.refuses('two atm', fit, tau, F, np.append(K, F), np.append(vols, atm), s, b)
        m.event('atm_refused')


SECTIONS = [Section('smile', smile, 18000, 120000, ['near_the_money', 'at_the_money', 'parameter_vectors', 'strike_vector', 'shape_refused', 'whole']),
            Section('level', level, 8000, 50000, ['level', 'level_inverse', 'level_negative_slope', 'level_violent']), Section('fits', fits, 2400, 16000, ['fit', 'fit_free', 'atm_refused', 'unordered'])]
