"""C18 Heston pricers against an independent integration of the model, and against each other."""
import math
import numpy as np
from frmmon import Section
import gen, refopt, refheston as rh
from frm.pricing_engine.heston import (heston_price_vanilla_european, heston_cosine_price_vanilla_european, heston1993_price_vanilla_european)
from frm.pricing_engine.cosine_method_generic import cos_method, get_cos_truncation_range

PROPERTY = 'C18'
ANCHORS = ['frm/pricing_engine/heston.py', 'frm/pricing_engine/cosine_method_generic.py']
RULE = ('random admissible Heston parameters (vol of vol .05-1.5, correlation +-.95, Feller condition met and violated, expiry a week to 20 years) x '
        'strikes within 3 standard deviations x 5 pricers x both sides; strike ladders for shape; non-trivial = new parameter set and strike')
ASSUMPTIONS = ['Each pricer is judged inside its range of validity, to the accuracy measured there against the reference: Carr-Madan where the moment of the damped '
               'payoff exists with room to spare (explosion time beyond 1.5 expiries; 3 for the FFT grid, which interpolates linearly on a 0.0245 log-strike grid), '
               'cosine series where the excess kurtosis of the log price is below 50, tolerance growing with it (160 terms, truncation without the fourth cumulant).',
               'The reference is the Lewis integral by composite Gauss-Legendre; its characteristic function was checked against a Runge-Kutta solution of the Riccati equations.',
               'SciPy adaptive quadrature converges falsely at isolated inputs (about 1 in 5000, errors to 1e-3): such a pricer is judged at three neighbouring strikes instead.']
M93, GKQ, FFT, COS, LIP = 'heston_1993', 'heston_carr_madan_gauss_kronrod_quadrature', 'heston_carr_madan_fft_w_simpsons', 'heston_cosine', 'heston_lipton'


def texp(p, kappa, vv, rho):
    """Time at which the moment of order p of the price explodes."""
    b = kappa - rho * vv * p
    if p * p - p <= 0: return math.inf
    D = b * b - vv * vv * (p * p - p)
    if D >= 0:
        if b > 0: return math.inf
        s = math.sqrt(D)
        return math.log((b - s) / (b + s)) / s if s > 0 else -2 / b
    s = math.sqrt(-D)
    return 2 / s * (math.pi / 2 + math.atan(b / s))


def cumulants(tau, v0, vv, kappa, theta, rho):
    h = .02
    u = h * np.exp(2j * np.pi * np.arange(16) / 16)
    co = np.fft.fft(rh.lncf(u, tau, v0, vv, kappa, theta, rho)) / 16 / h ** np.arange(16)
    return (co[1] / 1j).real, -2 * co[2].real, 24 * co[4].real


def params(rng):
    v0 = gen.loguniform(rng, .0025, .25)
    p = dict(var0=v0, vv=gen.loguniform(rng, .05, 1.5), kappa=gen.loguniform(rng, .2, 6), theta=v0 * gen.loguniform(rng, .3, 3), rho=float(gen.pick(rng, [rng.uniform(-.95, .95), rng.uniform(-.9, -.5), 0.0])))
    tau = float(gen.pick(rng, [gen.loguniform(rng, 1 / 52, 20), gen.loguniform(rng, .2, 3), 1.0]))
    S, r, q = gen.loguniform(rng, .01, 200), float(rng.uniform(-.01, .08)), float(rng.uniform(-.01, .08))
    k = int(rng.integers(12))           # no carry, one rate nil
    if k == 0: r = q = 0.0
    elif k == 1: q = r
    elif k == 2: r = 0.0
    elif k == 3: q = 0.0
    if rng.integers(10) == 0: S = float(gen.pick(rng, [1, 2, 100]))
    return p, tau, S, r, q


def args(p): return p['var0'], p['vv'], p['kappa'], p['theta'], p['rho']


def cos_tol(kurt):
    for k, t in ((.2, 2e-11), (.5, 2e-10), (1, 1e-8), (2, 2e-7), (4, 4e-6), (8, 3e-5), (16, 2e-4), (50, 1e-3)):
        if kurt < k: return t
    return None


def methods(m, rng):
    p, tau, S, r, q = params(rng)
    F = S * math.exp((r - q) * tau)
    sd = math.sqrt(rh.mean_var(tau, p['var0'], p['kappa'], p['theta']) * tau)
    x = float(gen.pick(rng, [0.0, rng.uniform(-1.5, 1.5), rng.uniform(-3, 3)]))
    K, cp = F * math.exp(x * sd), int(gen.pick(rng, [1, -1]))
    m.case(S=S, K=K, tau=tau, r=r, q=q, cp=cp, **p)
    ref = float(rh.price(S, [K], [cp], tau, r, q, *args(p))[0])
    _, c2, c4 = cumulants(tau, *args(p))
    kurt = c4 / c2 ** 2
    if kurt > 100: m.event('extreme_kurtosis')
    unit = math.sqrt(F * K) * math.exp(-r * tau)
    te = texp(2.0 if cp == 1 else -1.0, p['kappa'], p['vv'], p['rho']) / tau
    tol = {M93: 1e-6 if kurt < 50 else 1e-4, LIP: 2e-6 if kurt < 50 else 1e-4}
    if te > 1.5 and kurt < 100: tol[GKQ] = 2e-5 if tau > .3 and kurt < 20 else 1e-3
    if te > 3 and kurt < 50 and .03 < sd < .7: tol[FFT] = 2e-4 / sd + 5e-5 if sd < .1 else 1.5e-4 / sd
    if cos_tol(kurt): tol[COS] = cos_tol(kurt)
    got, accident = {}, False
    for k, t in tol.items():
        X = m.call(k, heston_price_vanilla_european, S, tau, r, q, cp, K, p['var0'], p['vv'], p['kappa'], p['theta'], p['rho'], 0, k)
        X = float(np.asarray(X).item())
        got[k] = X
        good = abs(X - ref) <= t * unit
        if not good and k != COS and abs(X - ref) < 1e-2 * unit:
            # adaptive quadrature can converge falsely at an isolated strike: judge the neighbours
            m.event('quadrature_accident')
            for h in (1.0013, .9988, 1.0007):
                X2 = float(np.asarray(m.call(k, heston_price_vanilla_european, S, tau, r, q, cp, K * h, p['var0'], p['vv'], p['kappa'], p['theta'], p['rho'], 0, k)).item())
                good += abs(X2 - float(rh.price(S, [K * h], [cp], tau, r, q, *args(p))[0])) <= t * unit
            good = good >= 2
            t, accident = 1e-2, True
        m.ok(good, k + ':value', dict(got=X, want=ref, error=(X - ref) / unit, tol=t, kurtosis=kurt, explosion=te, x=x))
        m.event(k)
        lo = max(cp * (F - K), 0) * math.exp(-r * tau)
        hi = (F if cp == 1 else K) * math.exp(-r * tau)
        m.ok(lo - t * unit <= X <= hi + t * unit, k + ':bounds', dict(got=X, lo=lo, hi=hi))
    for k in (M93, LIP):
        Y = float(np.asarray(m.call(k, heston_price_vanilla_european, S, tau, r, q, -cp, K, p['var0'], p['vv'], p['kappa'], p['theta'], p['rho'], 0, k)).item())
        m.close((got[k] - Y) * cp, (F - K) * math.exp(-r * tau), k + ':parity', 1e-9, 1e-2 * unit if accident else 2e-6 * unit if kurt < 50 else 2e-4 * unit)
    if 2 * p['kappa'] * p['theta'] < p['vv'] ** 2: m.event('feller_violated')
    if tau > 8: m.event('long_dated')
    if 'lam' and rng.integers(4) == 0:
        lam = float(rng.uniform(0, 1.5))
        X = m.call('lambda', heston1993_price_vanilla_european, S, tau, r, q, cp, K, *args(p), lambda_=lam)
        k2 = p['kappa'] + lam
        want = float(rh.price(S, [K], [cp], tau, r, q, p['var0'], p['vv'], k2, p['kappa'] * p['theta'] / k2, p['rho'])[0])
        if kurt < 50: m.ok(abs(X - want) <= 1e-6 * unit, 'risk-premium', dict(got=X, want=want, lam=lam))
    if rng.integers(50) == 0:
        m.refuses('method', heston_price_vanilla_european, S, tau, r, q, cp, K, *args(p), 0, 'heston_2093')


def ladder(m, rng):
    """Strike ladders through the cosine pricer: shape of the price in strike, alignment, both computation routes."""
    p, tau, S, r, q = params(rng)
    F = S * math.exp((r - q) * tau)
    _, c2, c4 = cumulants(tau, *args(p))
    kurt = c4 / c2 ** 2
    t = cos_tol(kurt)
    sd = math.sqrt(rh.mean_var(tau, p['var0'], p['kappa'], p['theta']) * tau)
    n = int(rng.integers(2, 25))
    K = F * np.exp(np.sort(rng.uniform(-2.4, 2.4, n)) * sd)
    perm = rng.permutation(n)
    cp = rng.choice([1, -1], n)
    Kp = K[perm]
    m.case(S=S, tau=tau, r=r, q=q, n=n, kurtosis=kurt, **p)
    if t is None: m.event('outside_cosine_range'); return
    df = math.exp(-r * tau)
    a = args(p)
    K0, cp0 = Kp.copy(), cp.copy()
    X = m.call('ladder', heston_cosine_price_vanilla_european, S, tau, r, q, cp, Kp, *a)
    m.ok(np.array_equal(K0, Kp) and np.array_equal(cp0, cp), 'caller-arrays-altered')
    if not m.ok(np.shape(X) == (n,), 'ladder:shape'): return
    ref = rh.price(S, Kp, cp, tau, r, q, *a)
    unit = np.sqrt(F * Kp) * df
    m.ok(np.abs(X - ref) <= t * unit, 'ladder:value', lambda: dict(got=X, want=ref, K=Kp, cp=cp, tol=t))
    Y = m.call('ladder', heston_cosine_price_vanilla_european, S, tau, r, q, -cp, list(Kp), *a)
    m.close((X - Y) * cp, (F - Kp) * df, 'ladder:parity', 1e-10, 1e-10 * S)
    i = int(rng.integers(n))
    rep = rng.integers(0, n, int(rng.integers(1, 8)))       # strikes more than once, in any order
    m.close(m.call('repeats', heston_cosine_price_vanilla_european, S, tau, r, q, cp[rep], Kp[rep], *a), X[rep], 'ladder:repeats', 1e-11, 1e-13 * S)
    if abs(math.log(100 / S)) < 2 * sd:                     # whole-number strikes and spot
        Ki = np.unique(np.clip(np.round(np.exp(rng.uniform(-2, 2, 4) * sd) * F), 1, None)).astype(int)
        Si = int(round(S)) if float(S).is_integer() else S
        ci = rng.choice([1, -1], len(Ki))
        Xi = m.call('whole', heston_cosine_price_vanilla_european, Si, tau, r, q, ci, Ki, *a)
        ok = np.abs(np.log(Ki / F)) < 3 * sd
        m.ok((np.abs(Xi - rh.price(float(S), Ki.astype(float), ci, tau, r, q, *a)) <= t * np.sqrt(F * Ki) * df) | ~ok, 'ladder:whole', lambda: dict(K=Ki, got=Xi))
        m.event('whole')
    m.close(m.call('one', heston_cosine_price_vanilla_european, S, tau, r, q, int(cp[i]), float(Kp[i]), *a), X[i], 'ladder:scalar', 1e-11, 1e-13 * S)
    C = np.where(cp == 1, X, Y)[np.argsort(perm)]      # calls by rising strike
    e = 2 * t * np.sqrt(F * K) * df
    s = np.diff(C) / np.diff(K)
    es = (e[1:] + e[:-1]) / np.diff(K)
    m.ok((s <= es) & (s >= -df - es), 'ladder:monotone', lambda: dict(K=K, C=C))
    m.ok(np.diff(s) >= -(es[1:] + es[:-1]), 'ladder:convex', lambda: dict(K=K, C=C))
    if sd * 10 < 3 and kurt < 1:
        Z = m.call('direct', heston_cosine_price_vanilla_european, S, tau, r, q, cp, Kp, *a, calculate_via_put_call_parity=False)
        m.ok(np.abs(Z - ref) <= (1e-6 if kurt < .5 else 1e-5) * unit, 'ladder:direct', lambda: dict(got=Z, want=ref))
        m.event('direct')
    if kurt < 2 and rng.integers(3) == 0:
        Z = m.call('more terms', heston_cosine_price_vanilla_european, S, tau, r, q, cp, Kp, *a, N=400, L=14)
        m.ok(np.abs(Z - ref) <= 1e-9 * unit, 'ladder:more-terms', lambda: dict(got=Z, want=ref))
        m.event('more_terms')
    m.event('ladder')


def limit(m, rng):
    """Vanishing vol of vol: deterministic variance, lognormal price."""
    p, tau, S, r, q = params(rng)
    p['vv'] = gen.loguniform(rng, 1e-3, 1e-2) * math.sqrt(p['var0'])
    tau = min(tau, 5.0)
    F = S * math.exp((r - q) * tau)
    v = rh.mean_var(tau, p['var0'], p['kappa'], p['theta'])
    sd = math.sqrt(v * tau)
    K, cp = F * math.exp(float(rng.uniform(-1.5, 1.5)) * sd), int(gen.pick(rng, [1, -1]))
    k = gen.pick(rng, [M93, LIP, COS, GKQ])
    m.case(S=S, K=K, tau=tau, r=r, q=q, cp=cp, method=k, **p)
    if k == GKQ and (tau < .3 or texp(2.0 if cp == 1 else -1.0, p['kappa'], p['vv'], p['rho']) < 1.5 * tau): return
    X = float(np.asarray(m.call(k, heston_price_vanilla_european, S, tau, r, q, cp, K, *args(p), 0, k)).item())
    want = math.exp(-r * tau) * refopt.black(F, K, sd, cp)
    # leading correction: spot-variance covariance, of size rho vv sqrt(v) tau relative to the variance
    scale = p['vv'] * min(tau, 1 / p['kappa']) / math.sqrt(v) * math.exp(-r * tau) * math.sqrt(F * K) * sd
    m.ok(abs(X - want) <= 1.0 * scale + 2e-6 * math.sqrt(F * K), 'limit:' + k, dict(got=X, want=want, scale=scale))
    m.event('limit')


def cosine(m, rng):
    """Generic cosine inversion: distribution recovered from a characteristic function, truncation range covering it."""
    k = int(rng.integers(3))
    if k < 2:
        mu, s = float(rng.normal()) * .2, gen.loguniform(rng, .05, .8)
        cf = lambda u: np.exp(1j * u * mu - .5 * (u * s) ** 2)
        L, dt = float(rng.uniform(7, 10)), s * float(rng.uniform(.01, .05))
        a, b = mu - L * s, mu + L * s
        pts = np.arange(a, b + dt, dt)
        pt = float(pts[int(len(pts) * rng.uniform(.3, .7))])
        m.case(mu=mu, s=s, a=a, b=b, dt=dt, p=pt)
        F, Fs, fs, I, pts = m.call('cos', cos_method, pt, cf, dt, a, b)
        m.close(F, refopt.N((pt - mu) / s), 'cdf', 0, 1.05 * dt * .4 / s)
        m.close(I, 1.0, 'mass', 0, 1e-3)
        inside = pts <= b
        m.close(fs[inside], np.exp(-.5 * ((pts[inside] - mu) / s) ** 2) / s / math.sqrt(2 * math.pi), 'density', 1e-6, 1e-8 / s)
        m.ok(np.all(np.diff(pts) > 0) and len(Fs) == len(pts) == len(fs) and np.any(pts == pt), 'grid')
        m.refuses('outside', cos_method, b + .1, cf, dt, a, b)
        sig, tau = s, gen.loguniform(rng, .1, 5)
        lo, hi = m.call('range', get_cos_truncation_range, 'geomentric_brownion_motion', L, (mu, sig, tau))
        m.close([lo, hi], [mu * tau - L * sig * math.sqrt(tau), mu * tau + L * sig * math.sqrt(tau)], 'range-lognormal', 1e-9, 1e-12)
        m.event('inverted')
    else:
        p, tau, S, r, q = params(rng)
        m.case(tau=tau, mu=r - q, **p)
        c1, c2, _ = cumulants(tau, *args(p))
        lo, hi = m.call('range', get_cos_truncation_range, 'heston', 10, dict(tau=tau, mu=r - q, **p))
        sd = math.sqrt(c2)
        m.ok(abs(.5 * (lo + hi) - c1 - (r - q) * tau) <= .05 * sd, 'range-centre', dict(got=(lo, hi), mean=c1 + (r - q) * tau, sd=sd))
        m.ok(8 * sd <= .5 * (hi - lo) <= 25 * sd, 'range-width', dict(got=(lo, hi), sd=sd))
        m.event('range')


SECTIONS = [Section('methods', methods, 1600, 24000, [M93, GKQ, FFT, COS, LIP, 'feller_violated', 'long_dated']),
            Section('ladder', ladder, 900, 12000, ['ladder', 'whole', 'direct', 'more_terms']),
            Section('limit', limit, 400, 5000, ['limit']),
            Section('cosine', cosine, 240, 3000, ['inverted', 'range'])]


def warmup():
    """Compile the numba kernels once, before the workers fork."""
    for k in (M93, GKQ, FFT, COS, LIP):
        for cp in (1, -1):
            heston_price_vanilla_european(1.0, 1.0, .01, .02, cp, 1.0, .04, .3, 1.5, .04, -.3, 0, k)
