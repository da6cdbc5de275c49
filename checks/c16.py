"""C16 Garman-Kohlhagen prices and greeks against an independent closed form and its derivatives."""
import math
import numpy as np
from frmmon import Section
import gen, refopt
from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_price as gk

PROPERTY = 'C16'
ANCHORS = ['frm/pricing_engine/garman_kohlhagen.py']
RULE = ('random spots over eight orders of magnitude, rates of either sign, expiries of hours to 40 years and zero, volatilities 0.5% to 300%, '
        'strikes deep in and out of the money, with and without a market forward that disagrees with the rates, scalar and vector arguments; '
        'non-trivial = new market')
ASSUMPTIONS = ['With a forward given the domestic rate is the one that forward implies (documented), and sensitivities to spot, time and the '
               'domestic rate are taken at that implied rate.',
               'Units as documented: vega per 1% of volatility, theta per calendar day (365.25), gamma per 1% of spot, rho per 1% of the domestic rate.',
               'Numerical greeks are judged for expiries above 3 days and volatilities above 3% (the bumps are one day and one volatility point); '
               'each must lie within the range its true derivative takes over twice the bump.']


def market(rng, n=1):
    S = gen.pick(rng, [gen.loguniform(rng, 1e-3, 1e5), gen.loguniform(rng, 0.5, 2)])
    tau = gen.pick(rng, [gen.loguniform(rng, 1 / 3000, 40), gen.loguniform(rng, .02, 5), float(rng.integers(1, 31))])
    rd, rf = [float(gen.pick(rng, [0.0, rng.uniform(-.02, .1), rng.uniform(-.02, .1), rng.uniform(-.05, .4) if tau < 5 else .03])) for _ in '12']
    vol = gen.pick(rng, [gen.loguniform(rng, .03, .6), gen.loguniform(rng, .005, 3.0)])
    vol = min(vol, 5 / math.sqrt(tau))
    F = None
    if rng.integers(2):
        F = S * math.exp((rd - rf + gen.pick(rng, [0.0, rng.normal(0, .01), rng.normal(0, .05)])) * tau)
    f = F or S * math.exp((rd - rf) * tau)
    sd = vol * math.sqrt(tau)
    Ks = [f * math.exp(float(np.clip(gen.pick(rng, [0.0, rng.normal() * sd, rng.uniform(-.3, .3), 2.5 * rng.normal() * sd]), -10, 10))) for _ in range(n)]
    cps = [int(gen.pick(rng, [1, -1])) for _ in range(n)]
    r = math.log(f / S) / tau + rf
    return dict(S=S, tau=tau, rd=rd, rf=rf, vol=vol, F=F, Ks=Ks, cps=cps), f, r


def px(S, K, tau, r, q, vol, cp):
    return refopt.gk(S, K, tau, r, q, vol, cp)


def one(x):
    return float(np.asarray(x, float).item())


def prices(m, rng):
    q, f, r = market(rng)
    S, tau, rf, vol, K, cp = q['S'], q['tau'], q['rf'], q['vol'], q['Ks'][0], q['cps'][0]
    m.case(**q)
    a = dict(S0=S, tau=tau, r_d=q['rd'], r_f=rf, cp=cp, K=K, vol=vol, F=q['F'])
    res = m.call('gk', gk, intrinsic_time_split=True, **a)
    X = one(res['price'])
    D, Q = math.exp(-r * tau), math.exp(-rf * tau)
    tol = 1e-11 * (S * Q + K * D)
    sd = vol * math.sqrt(tau)
    m.close(X, px(S, K, tau, r, rf, vol, cp), 'closed-form', 1e-9, tol)
    m.close(X, D * refopt.black(f, K, sd, cp), 'on-the-forward', 1e-9, tol)
    if .02 < sd < 3 and rng.integers(4) == 0:
        m.close(X, D * refopt.black_quad(f, K, sd, cp), 'expectation', 1e-7, 1e-9 * D * (f + K))
        m.event('quadrature')
    O = one(m.call('gk', gk, **{**a, 'cp': -cp})['price'])
    m.close(cp * (X - O), D * (f - K), 'parity', 1e-10, 4 * tol)
    m.ok(X >= max(cp * (S * Q - K * D), 0) - 4 * tol and X <= (S * Q if cp == 1 else K * D) + 4 * tol, 'bounds', dict(X=X))
    I, T = one(res['intrinsic']), one(res['time'])
    m.close(I, max(cp * (S * Q - K * D), 0), 'intrinsic', 1e-10, 4 * tol)
    m.close(I + T, X, 'intrinsic+time', 1e-12, tol)
    # the same contract seen from the other currency: a put on the domestic currency struck at 1/K
    b = dict(S0=1 / S, tau=tau, r_d=rf, r_f=r if q['F'] else q['rd'], cp=-cp, K=1 / K, vol=vol)
    m.close(S * K * one(m.call('gk', gk, **b)['price']), X, 'foreign-domestic-symmetry', 1e-8, 10 * tol)
    c = gen.loguniform(rng, .01, 100)
    m.close(m.call('gk', gk, **{**a, 'S0': c * S, 'K': c * K, 'F': q['F'] and c * q['F']})['price'], c * X, 'scale', 1e-8, 10 * c * tol)
    up = one(m.call('gk', gk, **{**a, 'vol': vol * 1.3})['price'])
    m.ok(up >= X - 4 * tol, 'rises-with-vol', dict(X=X, up=up))
    if q['F']:
        # consistent forward: same as no forward
        m.close(m.call('gk', gk, **{**a, 'r_d': r, 'F': None})['price'], X, 'forward-implies-rate', 1e-8, 10 * tol)
        m.event('forward_given')
        if abs(r - q['rd']) > 1e-6: m.event('forward_off_parity')
    # at expiry
    z = m.call('gk', gk, **{**a, 'tau': 0.0, 'F': None, 'intrinsic_time_split': True})
    m.close(z['price'], max(cp * (S - K), 0.0), 'expiry:price', 1e-12, 0)
    m.close(z['intrinsic'], max(cp * (S - K), 0.0), 'expiry:intrinsic', 1e-12, 0)
    m.close(z['time'], 0.0, 'expiry:time', 0, 1e-12 * S)
    m.event('call' if cp == 1 else 'put')


def vector(m, rng):
    n = int(rng.integers(2, 12))
    qs = [market(rng) for _ in range(n)]
    mode = gen.pick(rng, ['one-market', 'many-markets', 'many-contracts-vector-tau'])
    if mode == 'one-market':          # scalar market, vector contracts
        q, f, r = market(rng, n=n)
        Ks, cps = np.array(q['Ks']), np.array(q['cps'])
        vols = q['vol'] * np.exp(rng.normal(0, .2, n))
        a = dict(S0=q['S'], tau=q['tau'], r_d=q['rd'], r_f=q['rf'], cp=cps, K=Ks, vol=vols, F=q['F'])
        rows = [(q['S'], k, q['tau'], r, q['rf'], v, int(c)) for k, v, c in zip(Ks, vols, cps)]
    else:
        A = lambda k: np.array([x[0][k] for x in qs], float)
        useF = bool(rng.integers(2))
        fs, rs = np.array([x[1] for x in qs]), np.array([x[2] for x in qs])
        tau = A('tau')
        if mode != 'many-markets':
            tau[rng.integers(n)] = 0.0 if not useF else tau[0]
        Ks, cps = np.array([x[0]['Ks'][0] for x in qs]), np.array([x[0]['cps'][0] for x in qs])
        rd = A('rd')
        if not useF: rs = rd
        a = dict(S0=A('S'), tau=tau, r_d=rd, r_f=A('rf'), cp=cps, K=Ks, vol=A('vol'), F=fs if useF else None)
        if useF: rs = np.log(fs / A('S')) / tau + A('rf')
        rows = list(zip(A('S'), Ks, tau, rs, A('rf'), A('vol'), cps))
    if mode != 'one-market' and rng.integers(2):        # the same market more than once
        p = rng.integers(0, n, n)
        a = {k: (v[p] if isinstance(v, np.ndarray) else v) for k, v in a.items()}; rows = [rows[int(i)] for i in p]
        m.event('repeats')
    m.case(mode=mode, **{k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in a.items()})
    res = m.call('gk', gk, intrinsic_time_split=True, **a)
    want = np.array([px(S, K, t, r, q, v, int(c)) if t > 0 else max(c * (S - K), 0) for S, K, t, r, q, v, c in rows])
    tol = np.array([1e-11 * (S * math.exp(-q * t) + K * math.exp(-r * t)) for S, K, t, r, q, v, c in rows])
    got = np.asarray(res['price'], float)
    if m.ok(got.shape == (n,), 'shape', dict(shape=got.shape)):
        m.ok(np.abs(got - want) <= 1e-9 * want + tol, 'vector', dict(got=got, want=want))
        I = np.array([max(c * (S * math.exp(-q * t) - K * math.exp(-r * t)), 0) for S, K, t, r, q, v, c in rows])
        m.ok(np.abs(np.asarray(res['intrinsic'], float) - I) <= 1e-9 * I + 4 * tol, 'vector:intrinsic')
        m.ok(np.abs(np.asarray(res['time'], float) - (want - I)) <= 1e-9 * want + 4 * tol, 'vector:time')
    m.event(mode)


def d5(f, x, h):
    return (8 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))) / (12 * h)


def truth(S, K, tau, r, q, v, c):
    """Derivatives of the reference price, closed form."""
    sq = math.sqrt(tau)
    d1 = (math.log(S / K) + (r - q) * tau) / (v * sq) + .5 * v * sq
    d2 = d1 - v * sq
    D, Q = math.exp(-r * tau), math.exp(-q * tau)
    return dict(spot_delta=c * Q * refopt.N(c * d1), forward_delta=c * refopt.N(c * d1), vega=.01 * S * Q * sq * refopt.n(d1),
                theta=(-S * Q * refopt.n(d1) * v / (2 * sq) + c * q * S * Q * refopt.N(c * d1) - c * r * K * D * refopt.N(c * d2)) / 365.25,
                gamma=.01 * Q * refopt.n(d1) / (v * sq), rho=.01 * c * K * tau * D * refopt.N(c * d2))


def greeks(m, rng):
    n = int(gen.pick(rng, [1, 1, 4]))
    q, f, r = market(rng, n=n)
    if n > 1 and rng.integers(2): return greeks_of_markets(m, rng, n)
    if rng.integers(5) == 0:        # whole numbers
        q = dict(S=int(rng.integers(1, 200)), tau=int(rng.integers(1, 12)), rd=0, rf=0, vol=.2, F=gen.pick(rng, [None, int(rng.integers(50, 200))]),
                 Ks=[int(k) for k in rng.integers(1, 200, n)], cps=q['cps'])
        f = q['F'] or q['S']; r = math.log(f / q['S']) / q['tau']; m.event('whole')
    S, tau, rf, F = q['S'], max(q['tau'], 3.5 / 365.25), q['rf'], q['F']
    if tau != q['tau'] and F:
        F = S * math.exp((r - rf) * tau); f = F
    if not F: r = q['rd']
    vol = max(q['vol'], .032)
    Ks, cps = np.array(q['Ks']), np.array(q['cps'])
    if Ks.dtype.kind != 'i': Ks = np.clip(Ks, f * math.exp(-8 * vol * math.sqrt(tau)), f * math.exp(8 * vol * math.sqrt(tau)))
    vols = vol * np.exp(rng.uniform(0, .3, n)) if n > 1 else np.array([vol])
    m.case(**{**q, 'tau': tau, 'F': F, 'vol': vols.tolist(), 'Ks': Ks.tolist()})
    c1 = (lambda x: x[0].item()) if n == 1 else (lambda x: x)
    res = m.call('gk', gk, S0=S, tau=tau, r_d=q['rd'], r_f=rf, cp=c1(cps), K=c1(Ks), vol=c1(vols), F=F, analytical_greeks=True, numerical_greeks=True)
    judge(m, res, n, [(S, float(Ks[i]), tau, r, rf, float(vols[i]), int(cps[i])) for i in range(n)])
    m.event('greeks')
    if F: m.event('greeks_forward_given')


def judge(m, res, n, rows):
    ga, gn = res['analytical_greeks'], res['numerical_greeks']
    names = ['spot_delta', 'forward_delta', 'vega', 'theta', 'gamma', 'rho']
    m.ok(set(names) <= set(ga.columns) and set(names) <= set(gn.columns) and len(ga) == len(gn) == n, 'columns')
    for i in range(n):
        S, K, tau, r, rf, v, c = rows[i]
        sq = math.sqrt(tau)
        f = S * math.exp((r - rf) * tau)
        w = dict(row=i, K=K, cp=c, vol=v, r=r)
        D, Q = math.exp(-r * tau), math.exp(-rf * tau)
        T = truth(S, K, tau, r, rf, v, c)
        size = dict(spot_delta=Q, forward_delta=1.0, vega=.01 * S * Q * sq, gamma=.01 * Q / (v * sq),
                    theta=(S * Q * v / sq + abs(rf) * S * Q + abs(r) * K * D) / 365.25, rho=.01 * K * tau * D)
        if 1e-2 < K / f < 1e2 and v * sq < 3:      # the oracle's formulas against differences of the oracle's price
            e = (5e-6, 5e-6)
            m.close(d5(lambda x: px(x, K, tau, r, rf, v, c), S, 1e-3 * S * min(v * sq, 1)), T['spot_delta'], 'oracle', e[0], e[1] * size['spot_delta'] * max(1, K / f), w)
            m.close(.01 * d5(lambda x: px(S, K, tau, r, rf, x, c), v, 1e-3 * v), T['vega'], 'oracle', e[0], e[1] * size['vega'] * max(1, K / f), w)
            m.close(-d5(lambda x: px(S, K, x, r, rf, v, c), tau, 1e-3 * tau) / 365.25, T['theta'], 'oracle', e[0], e[1] * (size['theta'] + (S * Q + K * D) / tau * 1e-5), w)
            m.close(.01 * d5(lambda x: px(S, K, tau, x, rf, v, c), r, 1e-3 * min(1, v * sq / tau * 3)), T['rho'], 'oracle', e[0], e[1] * max(size['rho'], 1e-4 * (S * Q + K * D)), w)
            m.close(.01 * S * d5(lambda x: truth(x, K, tau, r, rf, v, c)['spot_delta'], S, 1e-3 * S * min(v * sq, 1)), T['gamma'], 'oracle', e[0], e[1] * size['gamma'], w)
        for g in names:
            m.close(float(ga[g].iloc[i]), T[g], 'analytical:' + g, 1e-8, 1e-10 * size[g], w)

        def inside(g, vals, eps):
            x = float(gn[g].iloc[i])
            lo, hi = min(vals), max(vals)
            e = 2e-3 * (hi - lo) + eps
            m.ok(lo - e <= x <= hi + e, 'numerical:' + g, dict(got=x, low=lo, high=hi, true=T[g], **w))
        rnd = 2e-13 * (S * Q + K * D)
        xs = np.linspace(-1, 1, 21)
        Ts = [truth(S * (1 + .02 * x), K, tau, r, rf, v, c) for x in xs]
        inside('spot_delta', [t['spot_delta'] for t in Ts], rnd / (.01 * S))
        inside('forward_delta', [t['forward_delta'] for t in Ts], rnd / (.01 * S) / Q)
        inside('gamma', [t['gamma'] / (1 + .02 * x) * 1.0 for t, x in zip(Ts, xs)] + [t['gamma'] for t in Ts], 1e-12)
        inside('vega', [truth(S, K, tau, r, rf, v + .02 * x, c)['vega'] for x in xs], rnd)
        inside('theta', [truth(S, K, tau + 2 * x / 365.25, r, rf, v, c)['theta'] for x in xs], rnd)
        inside('rho', [truth(S, K, tau, r + .02 * x, rf, v, c)['rho'] for x in xs], rnd)


def greeks_of_markets(m, rng, n):
    """Every option on its own market."""
    useF = bool(rng.integers(2))
    rows, a = [], dict(S0=[], tau=[], r_d=[], r_f=[], cp=[], K=[], vol=[], F=[])
    for _ in range(n):
        q, f, r = market(rng)
        S, rf, tau, vol = q['S'], q['rf'], max(q['tau'], 3.5 / 365.25), max(q['vol'], .032)
        r = r if useF else q['rd']
        f = S * math.exp((r - rf) * tau)
        K = float(np.clip(q['Ks'][0], f * math.exp(-8 * vol * math.sqrt(tau)), f * math.exp(8 * vol * math.sqrt(tau))))
        for k, v in zip(a, (S, tau, q['rd'], rf, q['cps'][0], K, vol, f)): a[k].append(v)
        rows.append((S, K, tau, r, rf, vol, q['cps'][0]))
    p = rng.integers(0, n, n) if rng.integers(3) == 0 else np.arange(n)
    a = {k: np.array(v)[p] for k, v in a.items()}; rows = [rows[int(i)] for i in p]
    if not useF: a['F'] = None
    m.case(**{k: (v.tolist() if v is not None else v) for k, v in a.items()})
    judge(m, m.call('gk', gk, analytical_greeks=True, numerical_greeks=True, **a), n, rows)
    m.event('greeks_of_markets')


SECTIONS = [Section('prices', prices, 12000, 80000, ['call', 'put', 'quadrature', 'forward_given', 'forward_off_parity']),
            Section('vector', vector, 4000, 25000, ['one-market', 'many-markets', 'many-contracts-vector-tau', 'repeats']),
            Section('greeks', greeks, 5000, 30000, ['greeks', 'greeks_forward_given', 'greeks_of_markets', 'whole'])]
