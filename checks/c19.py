"""C19 Heston smile calibration on smiles generated by an independent implementation of the model."""
import math
import numpy as np
from scipy.optimize import brentq
from frmmon import Section
import gen, refopt, refheston as rh
from checks import c17
from frm.pricing_engine.heston import heston_calibrate_vanilla_smile as calibrate

PROPERTY = 'C19'
ANCHORS = ['frm/pricing_engine/heston.py']
RULE = ('smiles generated by the reference Heston model at the deltas quoted (3 to 7 quotes, four delta conventions, level set so that the at-the-money volatility is '
        'the root of the initial variance, as the calibration assumes) and free-form smiles x cosine, 1993 and Lipton pricers; non-trivial = new smile')
ASSUMPTIONS = ['Fitting tolerance: 5e-4 in volatility on model-generated smiles with expiry beyond 0.3 years and pronounced vol of vol, 2.5e-3 on flatter or shorter ones and those below 5% volatility (the optimiser stops on a gradient of 1e-5, about three times the worst error seen); reported volatilities within 1.2e-4 '
               '(implied volatility solver) of the independent repricing; mean reversion is fixed at 1.5 by the method.',
               'Quotes below 2% or expiries outside one month to three years are not generated.']
CONV = c17.CONV


def iv(F, K, tau, P):
    cp = 1 if K >= F else -1
    c = float(rh.call_fwd(F, [K], tau, *P)[0])
    X = c if cp == 1 else c - F + K
    return brentq(lambda s: refopt.black(F, K, s * math.sqrt(tau), cp) - X, 1e-3, 5, xtol=1e-13)


def strike(F, tau, q, v, d, conv):
    cp, sd, pa = (1 if d > 0 else -1), v * math.sqrt(tau), conv.startswith('premium')
    if abs(d) == .5: return F * math.exp((-.5 if pa else .5) * sd * sd)
    f = lambda K: c17.delta(conv, cp, K, F, sd, q, tau) - d
    lo = c17.pa_max(F, sd)[0] if pa and cp == 1 else F * math.exp(-8 * sd)
    hi = F * math.exp(8 * sd)
    if f(lo) * f(hi) > 0: return None
    return brentq(f, lo, hi, xtol=1e-13 * F)


def strike_vol(F, tau, q, P, d, conv):
    v = iv(F, F, tau, P)
    for _ in range(80):
        K = strike(F, tau, q, v, d, conv)
        if K is None: return None
        v2 = iv(F, K, tau, P)
        if abs(v2 - v) < 1e-12: return K, v2
        v = v2
    return None


def market(rng, short=1 / 12, long=3):
    S, tau = gen.loguniform(rng, .5, 150), gen.loguniform(rng, short, long)
    r, q = float(rng.uniform(-.005, .06)), float(rng.uniform(-.005, .06))
    k = int(rng.integers(10))
    if k > 7: S = gen.loguniform(rng, .001, 2000)
    if k == 0: r = q
    elif k == 1: r = q = 0.0
    elif k == 2: S, tau = float(gen.pick(rng, [1, 100])), 1.0
    ds = gen.pick(rng, [[-.25, .5, .25], [-.1, -.25, .5, .25, .1], [-.05, -.1, -.25, .5, .25, .1, .05], [-.15, -.35, .5, .3, .15]])
    return S, tau, r, q, np.array(ds), gen.pick(rng, CONV), gen.pick(rng, ['heston_cosine'] * 6 + ['heston_1993', 'heston_lipton', 'heston_carr_madan_gauss_kronrod_quadrature'])


def judge(m, out, vols, ds, S, tau, r, q, conv, fit_tol):
    F = S * math.exp((r - q) * tau)
    if not m.ok(isinstance(out, tuple) and len(out) == 8, 'result'): return
    v0, vv, kappa, theta, rho, lam, IV, SSE = out
    m.close(v0, vols[len(vols) // 2] ** 2, 'initial-variance', 1e-12)
    m.ok(kappa > 0 and lam == 0 and vv >= 0 and theta >= 0 and abs(rho) <= 1, 'admissible', dict(vv=vv, theta=theta, rho=rho, kappa=kappa))
    IV = np.asarray(IV, float)
    if not m.ok(IV.shape == vols.shape, 'shape'): return
    m.close(SSE, float(np.sum((IV - vols) ** 2)), 'sum-of-squares', 1e-9, 1e-18)
    if fit_tol: m.ok(np.abs(IV - vols) <= fit_tol, 'fit', lambda: dict(vols=vols, IV=IV, params=out[:5]))
    if vv < .02 * math.sqrt(v0): return          # reference integral needs a vol of vol
    P = (v0, vv, kappa, theta, rho)
    if vv > 20 * math.sqrt(v0) or abs(rho) > .98: m.event('extreme_fit'); return
    _, c2, c4 = c18cum(tau, P)
    if c4 / c2 ** 2 > 8: m.event('extreme_fit'); return
    for d, v, w in zip(ds, vols, IV):
        if w < 0: continue
        K = strike(F, tau, q, v, d, conv)
        if K is None: continue
        m.close(w, iv(F, K, tau, P), 'reprices', 0, 2e-4, dict(delta=d, K=K, params=P))
        m.event('repriced')


def c18cum(tau, P):
    from checks import c18
    return c18.cumulants(tau, *P)


def model(m, rng):
    S, tau, r, q, ds, conv, method = market(rng)
    F = S * math.exp((r - q) * tau)
    low = rng.integers(5) == 0
    for _ in range(20):
        v0 = gen.loguniform(rng, *((.01, .05) if low else (.05, .25))) ** 2
        vv, rho = math.sqrt(v0) * rng.uniform(.5, 4), float(rng.uniform(-.7, .7))
        atm = lambda th: strike_vol(F, tau, q, (v0, vv, 1.5, th, rho), .5, conv)[1] - math.sqrt(v0)
        try:
            th = brentq(atm, v0 * .2, v0 * 6, xtol=1e-11)
        except ValueError:
            continue
        P = (v0, vv, 1.5, th, rho)
        kv = [strike_vol(F, tau, q, P, d, conv) for d in ds]
        if all(kv): break
    else:
        return
    vols = np.array([v for _, v in kv])
    cp = np.where(ds > 0, 1, -1)
    m.case(S=S, tau=tau, r=r, q=q, conv=conv, method=method, deltas=ds.tolist(), vols=vols.tolist(), params=P)
    a = [vols.copy(), ds.copy(), cp.copy()]
    out = m.call('calibrate', calibrate, a[0], a[1], S, r, q, tau, a[2], conv, method)
    m.ok(all(np.array_equal(x, y) for x, y in zip(a, (vols, ds, cp))), 'caller-arrays-altered')
    judge(m, out, vols, ds, S, tau, r, q, conv, 5e-4 if tau > .3 and vv > math.sqrt(v0) and not low else 2.5e-3)
    if rng.integers(6) == 0:
        o2 = m.call('calibrate', calibrate, vols, ds, S, r, q, tau, cp, conv, method)
        m.ok(np.array_equal(np.hstack([out[:6], out[6], out[7]]), np.hstack([o2[:6], o2[6], o2[7]])), 'repeat')
        m.event('repeated')
    m.event(method); m.event(conv)
    if low: m.event('low_volatility')


def free(m, rng):
    """Smiles no Heston model attains exactly: what is reported must still be true of the parameters returned."""
    S, tau, r, q, ds, conv, method = market(rng, 1 / 40, 8)
    atm = gen.loguniform(rng, .05, .3)
    x = np.sign(ds) * (.5 - np.abs(ds))
    vols = atm * (1 + rng.uniform(-.3, .3) * x + rng.uniform(0, 1.2) * x * x)
    vols[np.abs(ds) == .5] = atm
    k = int(rng.integers(8))
    if k == 0: vols = np.full(len(ds), atm); m.event('flat')                                            # flat
    elif k == 1: vols = np.round(np.where(np.abs(ds) == .5, atm, atm + .004 * (.5 - np.abs(ds))), 4); m.event('symmetric')      # equal quotes either side
    elif k == 2: S = int(math.ceil(S)); tau = int(math.ceil(tau)); m.event('whole')
    cp = np.where(ds > 0, 1, -1)
    m.case(S=S, tau=tau, r=r, q=q, conv=conv, method=method, deltas=ds.tolist(), vols=vols.tolist())
    out = m.call('calibrate', calibrate, vols, ds, S, r, q, tau, cp, conv, method)
    if out is None: m.event('no_fit'); return
    judge(m, out, vols, ds, S, tau, r, q, conv, None)
    m.event('free')


def invalid(m, rng):
    S, tau, r, q, ds, conv, method = market(rng)
    vols = np.full(len(ds), .1)
    cp = np.where(ds > 0, 1, -1)
    kw = dict(volatility_quotes=vols, delta_of_quotes=ds, S0=S, r=r, q=q, tau=tau, cp=cp, delta_convention=conv, pricing_method=method)
    bad = gen.pick(rng, [dict(S0=-S), dict(S0=0.0), dict(tau=0.0), dict(tau=-tau), dict(r=math.nan), dict(q=math.nan), dict(S0=math.nan), dict(cp=cp * 2), dict(cp=cp * 0),
                         dict(pricing_method='heston'), dict(pricing_method=None), dict(delta_convention='spot')])
    m.case(bad={k: str(v) for k, v in bad.items()}, S=S)
    m.refuses('invalid', calibrate, **{**kw, **bad})
    m.event('refused')


SECTIONS = [Section('model', model, 72, 1200, ['heston_cosine', 'heston_1993', 'heston_lipton', 'heston_carr_madan_gauss_kronrod_quadrature', 'repriced', 'low_volatility'] + CONV),
            Section('free', free, 56, 800, ['free', 'flat', 'symmetric', 'whole']), Section('invalid', invalid, 40, 300, ['refused'])]


def warmup():
    from checks import c18
    c18.warmup()
