"""C17 strikes solved from FX delta quotes and volatilities solved from prices."""
import math
import numpy as np
from frmmon import Section
import gen, refopt
from checks import c16
from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_solve_strike_from_delta as solveK, garman_kohlhagen_solve_implied_vol as solveV

PROPERTY = 'C17'
ANCHORS = ['frm/pricing_engine/garman_kohlhagen.py']
RULE = ('random markets (with and without a forward off interest parity) x four delta conventions x signed deltas 1% to 50% alone and in mixed '
        'batches with at-the-money quotes; prices of random options inverted from good and bad starting points; non-trivial = new market and quotes')
ASSUMPTIONS = ['A quote is admissible when a strike attains it: spot deltas below the foreign discount factor, premium-adjusted call deltas below their '
               'maximum over strikes, with 2% to spare. Unattainable premium-adjusted call deltas must be refused.',
               'Implied volatility is judged to the documented solver tolerance of 1e-4 in volatility, for volatilities between 0.0001 and 2 (the documented bracket).',
               'Spot rates between 1e-7 and 1e5.']
CONV = ['regular_spot', 'regular_forward', 'premium_adjusted_spot', 'premium_adjusted_forward']


def delta(conv, cp, K, F, sd, rf, tau):
    d1 = math.log(F / K) / sd + .5 * sd
    x = cp * refopt.N(cp * d1) if conv.startswith('regular') else cp * (K / F) * refopt.N(cp * (d1 - sd))
    return x * (math.exp(-rf * tau) if conv.endswith('spot') else 1.0)


def pa_max(F, sd):
    """Largest premium-adjusted forward call delta and its strike: sd N(d2) = n(d2)."""
    lo, hi = -40.0, 40.0
    g = lambda d2: sd * refopt.N(d2) - refopt.n(d2)
    for _ in range(200):
        mid = .5 * (lo + hi)
        if g(mid) > 0: hi = mid
        else: lo = mid
    d2 = .5 * (lo + hi)
    K = F * math.exp(-.5 * sd * sd - d2 * sd)
    return K, K / F * refopt.N(d2)


def strikes(m, rng):
    conv = gen.pick(rng, CONV)
    q, f, r = c16.market(rng)
    S, tau, rf, F = q['S'], q['tau'], q['rf'], q['F']
    if rng.integers(6) == 0:                # spots far below one (LBP/USD, IDR/KWD)
        g = gen.loguniform(rng, 1e-7, 1e-4) / S
        S, F, f = S * g, F and F * g, f * g; q = {**q, 'S': S, 'F': F}; m.event('tiny_spot')
    vol = min(max(q['vol'], .01), 1.5 / math.sqrt(tau))
    n = int(gen.pick(rng, [1, 1, 3, 5, 7]))
    vols = vol * np.exp(rng.uniform(-.2, .2, n))
    ds = []
    for v in vols:
        k = rng.integers(8)
        if k == 0: ds.append(float(gen.pick(rng, [.5, -.5])))
        elif k <= 2: ds.append(float(gen.pick(rng, [1, -1])) * gen.pick(rng, [.05, .1, .15, .2, .25, .3, .35, .4, .45]))
        elif k <= 5: ds.append(float(gen.pick(rng, [1, -1])) * rng.uniform(.01, .49))
        elif k == 6:                # just short of fifty percent
            ds.append(float(gen.pick(rng, [1, -1])) * (.5 - gen.loguniform(rng, 1e-6, .02))); m.event('near_fifty')
        else: ds.append(float(gen.pick(rng, [1, -1])) * gen.loguniform(rng, 1e-5, .02))
    ds = np.array(ds)
    if n > 1 and rng.integers(3) == 0:      # the same quote more than once
        p = rng.integers(0, n, n); ds, vols = ds[p], vols[p]; m.event('repeats')
    if rng.integers(8) == 0:                # whole numbers
        S, tau, rf, F = int(rng.integers(1, 200)), int(rng.integers(1, 4)), 0, gen.pick(rng, [None, int(rng.integers(50, 200))])
        q = {**q, 'rd': 0}; f = F or S; r = math.log(f / S) / tau; m.event('whole')
    atm_conv = gen.pick(rng, [None, 'forward', 'per_delta_convention'])
    ok = True
    for d, v in zip(ds, vols):
        sd = v * math.sqrt(tau)
        scale = math.exp(-rf * tau) if conv.endswith('spot') else 1.0
        if conv.endswith('spot') and abs(d) > .98 * scale: ok = False
        if conv.startswith('premium') and abs(d) < .5 and d > 0 and d > .98 * scale * pa_max(f, sd)[1]: ok = False
        if conv.startswith('premium') and conv.endswith('spot') and abs(d) / scale > .6: ok = False
        if sd < 1e-4: ok = False
    scalar = n == 1 and bool(rng.integers(2))
    m.case(conv=conv, S=S, tau=tau, rd=q['rd'], rf=rf, F=F, vols=vols.tolist(), deltas=ds.tolist(), atm=atm_conv)
    kw = dict(S0=S, tau=tau, r_d=q['rd'], r_f=rf, vol=float(vols[0]) if scalar else vols, signed_delta=float(ds[0]) if scalar else ds, delta_convention=conv, F=F)
    if atm_conv: kw['atm_delta_convention'] = atm_conv
    if not ok:
        sds = vols * math.sqrt(tau)
        if conv.startswith('premium') and any(abs(d) < .5 and d > 1.02 * (math.exp(-rf * tau) if conv.endswith('spot') else 1) * pa_max(f, s)[1] and s > .01
                                              for d, s in zip(ds, sds)):
            m.refuses('unattainable', solveK, **kw)
            m.event('unattainable_refused')
        return
    v0, d0 = vols.copy(), ds.copy()
    K = np.atleast_1d(np.asarray(m.call('solve', solveK, **kw), float))
    m.ok(np.array_equal(v0, vols) and np.array_equal(d0, ds), 'caller-arrays-altered')
    if not m.ok(K.shape == (n,), 'shape', dict(got=K.shape)): return
    for i in range(n):
        d, v, k = float(ds[i]), float(vols[i]), float(K[i])
        cp = 1 if d > 0 else -1
        sd = v * math.sqrt(tau)
        w = dict(row=i, delta=d, vol=v, K=k, F=f)
        if not m.ok(np.isfinite(k) and k > 0, 'strike', w): continue
        if abs(d) == .5 and (atm_conv != 'per_delta_convention' or conv.startswith('premium')):
            m.close(delta(conv, 1, k, f, sd, rf, tau) + delta(conv, -1, k, f, sd, rf, tau), 0.0, conv + ':atm-neutral', 0, 1e-9, w)
            m.event('atm')
            continue
        dK = 1e-10 + 2e-11 * min(1 / k, 1e3) / sd      # accuracy of the strike solver carried to the delta
        m.close(delta(conv, cp, k, f, sd, rf, tau), d, conv + ':delta', 0, dK, w)
        m.event(conv + ('_call' if cp > 0 else '_put'))
        if conv.startswith('premium') and cp > 0:
            m.ok(k >= pa_max(f, sd)[0] * (1 - 1e-9), 'premium-adjusted-branch', dict(k_max_delta=pa_max(f, sd)[0], **w))
    if F and abs(r - q['rd']) * tau > .01: m.event('forward_off_parity')


def implied(m, rng):
    q, f, r = c16.market(rng)
    S, tau, rf, cp = q['S'], q['tau'], q['rf'], q['cps'][0]
    if rng.integers(8) == 0:
        g = gen.loguniform(rng, 1e-7, 1e-4) / S
        S, f = S * g, f * g; m.event('tiny')
    rd = r
    vol = min(max(gen.pick(rng, [q['vol'], gen.loguniform(rng, .03, .4)]), .005), 1.9, 3 / math.sqrt(tau))
    sd = vol * math.sqrt(tau)
    K = f * math.exp(gen.pick(rng, [0.0, rng.normal() * sd, 2 * rng.normal() * sd]))
    X = refopt.gk(S, K, tau, rd, rf, vol, cp)
    g = float(gen.pick(rng, [vol, .1, vol * rng.uniform(.5, 2), .01, 1.0]))
    m.case(S=S, K=K, tau=tau, rd=rd, rf=rf, vol=vol, cp=cp, guess=g)
    d1 = math.log(f / K) / sd + .5 * sd
    vega = S * math.exp(-rf * tau) * math.sqrt(tau) * refopt.n(d1)
    tv = min(X, X - cp * (S * math.exp(-rf * tau) - K * math.exp(-rd * tau)))
    if tv < 1e-8 * S or tv < 1e-9 * X or vega * vol < 1e-7 * X:
        m.event('worthless'); return
    v = m.call('iv', solveV, S0=S, tau=tau, r_d=rd, r_f=rf, cp=cp, K=K, X=gen.pick(rng, [X, np.array([X])]), vol_guess=g)
    v = float(np.asarray(v).item())
    tolv = 1.05e-4 + 1e-11 * S / vega
    m.ok(abs(v - vol) <= tolv, 'implied-vol', dict(got=v, X=X))
    if v > 0:
        Y = refopt.gk(S, K, tau, rd, rf, v, cp)
        vmax = max(S * math.exp(-rf * tau) * math.sqrt(tau) * refopt.n(math.log(f / K) / (x * math.sqrt(tau)) + .5 * x * math.sqrt(tau)) for x in (vol, v, vol + 1.1e-4))
        m.ok(abs(Y - X) <= 1.2e-4 * vmax + 1e-10 * S, 'reprices', dict(got=v, X=X, Y=Y))
    if abs(d1) < 1.5 and .5 <= g / vol <= 2 and vol > .03 and .01 < tau < 10:
        m.ok(abs(v - vol) <= 3e-5, 'implied-vol-near-the-money', dict(got=v, X=X))
        m.event('near_the_money')
    m.event('inverted')


SECTIONS = [Section('strikes', strikes, 16000, 100000, ['atm', 'tiny_spot', 'repeats', 'whole', 'near_fifty', 'forward_off_parity', 'unattainable_refused'] + [c + s for c in CONV for s in ('_call', '_put')]),
            Section('implied', implied, 12000, 80000, ['inverted', 'tiny', 'near_the_money'])]
