"""C14 Black-76 and Bachelier prices: closed form, quadrature, identities, inversion and conversion."""
import math
import numpy as np
from frmmon import Section
import gen, refopt
from frm.pricing_engine import black76_bachelier as bb

PROPERTY = 'C14'
ANCHORS = ['frm/pricing_engine/black76_bachelier.py']
RULE = ('random forwards over eight orders of magnitude (negative rates under a shift included), strikes from deep out of to deep in the money, '
        'expiries of hours to 50 years, volatilities 0.2% to 500%, any annuity; every market with random mixes of scalar and vector arguments; '
        'non-trivial = new market')
ASSUMPTIONS = ['Implied volatilities are judged by repricing within 2e-5 relative (the documented solver tolerance is 1e-5) for volatilities inside '
               'the solver bounds (Black 0.1%..1000%, Bachelier 0.01%..100%).',
               'The analytical normal-volatility approximation is judged against the order of the terms its expansion leaves out (total standard deviation below 1, log-moneyness below 2).']


def market(rng, rates=False, n=1):
    """Shifted forwards and strikes positive; returns lists."""
    tau = gen.pick(rng, [gen.loguniform(rng, 1 / 3000, 50), gen.loguniform(rng, 0.05, 10), float(rng.integers(1, 31))])
    vol = gen.pick(rng, [gen.loguniform(rng, 0.02, 1.0), gen.loguniform(rng, 0.002, 5.0)])
    if rates:
        shift = gen.pick(rng, [0.0, 0.01, 0.03, round(rng.uniform(0.001, 0.1), 4)])
        F = gen.pick(rng, [gen.loguniform(rng, 1e-3, 0.2), rng.uniform(-shift * .8, 0.1) if shift else 0.03])
        if F + shift < 1e-3:
            F = 1e-3 + rng.uniform(0, .05) - shift
    else:
        shift = gen.pick(rng, [0.0, 0.0, 0.02, 5.0, gen.loguniform(rng, 1e-3, 100)])
        F = gen.pick(rng, [gen.loguniform(rng, 1e-3, 1e5), gen.loguniform(rng, 0.5, 200)])
        if shift and rng.integers(4) == 0:
            F = -shift * rng.uniform(0.01, 0.9)
    sd = vol * math.sqrt(tau)
    if sd > 8:
        vol = 8 / math.sqrt(tau) * rng.uniform(.1, 1); sd = vol * math.sqrt(tau)
    Ks = [(F + shift) * math.exp(float(np.clip(gen.pick(rng, [0.0, rng.normal(0, 1) * sd, rng.uniform(-.3, .3), rng.normal(0, 2.5) * sd]), -12, 14))) - shift for _ in range(n)]
    cps = [int(gen.pick(rng, [1, -1])) for _ in range(n)]
    A = gen.pick(rng, [1, 1.0, gen.loguniform(rng, 1e-3, 1e3)])
    return dict(F=float(F), tau=float(tau), vol=float(vol), shift=float(shift), Ks=[float(k) for k in Ks], cps=cps, A=A)


def tolF(F, K, shift, A):
    return 1e-12 * A * (abs(F) + abs(K) + 2 * abs(shift) + 1e-9)


def prices(m, rng):
    q = market(rng)
    n = 1
    F, tau, vol, sh, A = q['F'], q['tau'], q['vol'], q['shift'], q['A']
    K, cp = q['Ks'][0], q['cps'][0]
    m.case(**q)
    sd = vol * math.sqrt(tau)
    r = m.call('black', bb.black76_price, F=F, tau=tau, cp=cp, K=K, vol_sln=vol, ln_shift=sh, annuity_factor=A, intrinsic_time_split=True)
    X = float(np.asarray(r['price']).item())
    tol = tolF(F, K, sh, A)
    f, k = F + sh, K + sh
    m.close(X, A * refopt.black(f, k, sd, cp), 'black:closed-form', 1e-9, tol)
    if 0.02 < sd < 3 and rng.integers(4) == 0:
        m.close(X, A * refopt.black_quad(f, k, sd, cp), 'black:expectation', 1e-7, 1e-9 * A * (f + k))
        m.event('quadrature')
    O = np.asarray(m.call('black', bb.black76_price, F=F, tau=tau, cp=-cp, K=K, vol_sln=vol, ln_shift=sh, annuity_factor=A)['price']).item()
    m.close(cp * (X - O), A * (f - k), 'black:parity', 1e-10, 4 * tol)
    m.ok(X >= A * max(cp * (f - k), 0) - 4 * tol and X <= A * (f if cp == 1 else k) + 4 * tol, 'black:bounds', dict(X=X))
    I, T = float(np.asarray(r['intrinsic']).item()), float(np.asarray(r['time']).item())
    m.close(I, A * max(cp * (f - k), 0.0), 'black:intrinsic', 1e-12, tol)
    m.close(I + T, X, 'black:intrinsic+time', 1e-12, tol)
    # homogeneity in (F,K,shift), annuity linearity
    c = gen.loguniform(rng, 0.01, 100)
    m.close(m.call('black', bb.black76_price, F=F * c, tau=tau, cp=cp, K=K * c, vol_sln=vol, ln_shift=sh * c, annuity_factor=A)['price'], c * X, 'black:homogeneity', 1e-9, 4 * c * tol)
    # only total variance matters
    m.close(m.call('black', bb.black76_price, F=F, tau=4 * tau, cp=cp, K=K, vol_sln=vol / 2, ln_shift=sh, annuity_factor=A)['price'], X, 'black:total-variance', 1e-9, 4 * tol)

    # Bachelier on the same market, negative forwards allowed, normal vol of comparable size or arbitrary
    vn = gen.pick(rng, [vol * max(abs(f), 1e-4), gen.loguniform(rng, 1e-4, 10)])
    sdn = vn * math.sqrt(tau)
    Fn = gen.pick(rng, [F, -abs(F), rng.normal(0, .02)])
    Kn = Fn + gen.pick(rng, [0.0, rng.normal(0, 1) * sdn, rng.normal(0, 3) * sdn])
    q2 = dict(F=Fn, tau=tau, cp=cp, K=Kn, vol_n=vn, annuity_factor=A)
    toln = 1e-12 * A * (abs(Fn) + abs(Kn) + sdn)
    w = dict(bachelier=q2)
    r = m.call('bachelier', bb.bachelier_price, intrinsic_time_split=True, **q2)
    X = float(np.asarray(r['price']).item())
    m.close(X, A * refopt.normal(Fn, Kn, sdn, cp), 'bachelier:closed-form', 1e-9, toln, w)
    if rng.integers(4) == 0:
        m.close(X, A * refopt.normal_quad(Fn, Kn, sdn, cp), 'bachelier:expectation', 1e-7, 1e-9 * A * sdn, w)
    O = np.asarray(m.call('bachelier', bb.bachelier_price, **{**q2, 'cp': -cp})['price']).item()
    m.close(cp * (X - O), A * (Fn - Kn), 'bachelier:parity', 1e-10, 4 * toln, w)
    I, T = float(np.asarray(r['intrinsic']).item()), float(np.asarray(r['time']).item())
    m.close(I, A * max(cp * (Fn - Kn), 0.0), 'bachelier:intrinsic', 1e-12, toln, w)
    m.close(I + T, X, 'bachelier:intrinsic+time', 1e-12, toln, w)
    m.ok(X >= I - 4 * toln, 'bachelier:bounds', w)
    m.close(m.call('bachelier', bb.bachelier_price, **{**q2, 'F': Fn + 7, 'K': Kn + 7})['price'], X, 'bachelier:translation', 1e-8, 1e-11 * A * (abs(Fn) + 10), w)
    m.event('call' if cp == 1 else 'put')
    if F < 0: m.event('negative_forward')
    if sh: m.event('shifted')
    if K == F: m.event('at_the_money')


def shape(m, rng):
    """Vector of strikes, vols: convexity, monotonicity; mixed scalar and vector arguments give each element's own price."""
    q = market(rng, n=1)
    F, tau, vol, sh, A, cp = q['F'], q['tau'], q['vol'], q['shift'], q['A'], q['cps'][0]
    sd = vol * math.sqrt(tau)
    f = F + sh
    model = gen.pick(rng, ['black', 'normal'])
    n = int(rng.integers(3, 30))
    if model == 'black':
        K = np.sort(f * np.exp(np.clip(rng.normal(0, 1.5, n) * sd, -12, 14))) - sh
        vols = np.sort(vol * np.exp(rng.normal(0, .5, n)))
        def px(K, v): return np.asarray(m.call('black', bb.black76_price, F=np.full(n, F), tau=np.full(n, tau), cp=cp, K=K, vol_sln=v, ln_shift=sh, annuity_factor=A)['price'])
        k = K + sh
        up = f if cp == 1 else np.max(k)
    else:
        vol = vol * f
        sd = vol * math.sqrt(tau)
        K = np.sort(F + rng.normal(0, 1.5, n) * sd)
        vols = np.sort(vol * np.exp(rng.normal(0, .5, n)))
        def px(K, v): return np.asarray(m.call('bachelier', bb.bachelier_price, F=np.full(n, F), tau=np.full(n, tau), cp=cp, K=K, vol_n=v, annuity_factor=A)['price'])
        k = K
        up = np.inf
    m.case(model=model, **q, K=K.tolist())
    tol = 1e-11 * A * (abs(f) + np.max(np.abs(k)) + sd)
    X = px(K, vol)
    if not m.ok(X.shape == (n,), 'shape', dict(got=X.shape)): return
    dK = np.diff(k)
    dX = np.diff(X)
    m.ok((-cp * dX >= -tol) & (np.abs(dX) <= A * dK + tol), model + ':monotone-in-strike', dict(X=X, K=K))
    keep = np.ones(n, bool)
    # convexity on triples: X(mid) <= linear interpolation
    for i in range(1, n - 1):
        a, b, c = k[i - 1], k[i], k[i + 1]
        if c > a:
            lam = (c - b) / (c - a)
            m.ok(X[i] <= lam * X[i - 1] + (1 - lam) * X[i + 1] + 2 * tol, model + ':convex', dict(K=K[i - 1:i + 2], X=X[i - 1:i + 2]))
    m.ok(np.all(X <= A * up + tol), model + ':upper')
    Kf = float(gen.pick(rng, K))
    V = px(Kf, vols)
    m.ok(np.all(np.diff(V) >= -tol), model + ':rises-with-vol', dict(X=V, vols=vols, K=Kf))
    m.event(model)

    # every argument a vector of its own markets, some collapsed to scalars
    qs = [market(rng) for _ in range(n)]
    if rng.integers(2):         # the same markets more than once, in any order
        qs = [qs[int(i)] for i in rng.integers(0, n, n)]; m.event('repeats')
    S = bool(rng.integers(2)), bool(rng.integers(2)), bool(rng.integers(2)), bool(rng.integers(2))
    Fs, taus = np.array([x['F'] + x['shift'] + .1 for x in qs]), np.array([x['tau'] for x in qs])
    Ks = np.array([x['Ks'][0] + x['shift'] + .1 for x in qs]) if not S[0] else float(np.median(Fs))
    cps = np.array([x['cps'][0] for x in qs]) if not S[1] else cp
    vs = np.array([x['vol'] for x in qs]) if not S[2] else .3
    As = np.array([x['A'] for x in qs], float) if not S[3] else A
    shs = gen.pick(rng, [0.0, np.full(n, .05), np.array([x['shift'] for x in qs])])
    b = lambda x: np.broadcast_to(np.asarray(x, float), (n,))
    got = m.call('black', bb.black76_price, F=Fs, tau=taus, cp=cps, K=Ks, vol_sln=vs, ln_shift=shs, annuity_factor=As)['price']
    want = [a * refopt.black(x + s, y + s, v * math.sqrt(t), int(c)) for x, t, c, y, v, s, a in zip(Fs, taus, b(cps), b(Ks), b(vs), b(shs), b(As))]
    at = max(tolF(x, y, s, a) for x, y, s, a in zip(Fs, b(Ks), b(shs), b(As)))
    m.close(got, want, 'black:vector', 1e-9, at, lambda: dict(F=Fs, tau=taus, cp=cps, K=Ks, vol=vs, shift=shs, A=As))
    got = m.call('bachelier', bb.bachelier_price, F=Fs, tau=taus, cp=cps, K=Ks, vol_n=vs, annuity_factor=As)['price']
    want = [a * refopt.normal(x, y, v * math.sqrt(t), int(c)) for x, t, c, y, v, a in zip(Fs, taus, b(cps), b(Ks), b(vs), b(As))]
    m.close(got, want, 'bachelier:vector', 1e-9, at + 1e-12 * np.max(b(vs) * np.sqrt(taus)), lambda: dict(F=Fs, tau=taus, cp=cps, K=Ks, vol=vs, A=As))


def implied(m, rng):
    model = gen.pick(rng, ['black', 'normal'])
    k = int(gen.pick(rng, [1, 1, 1, 4]))
    q = market(rng, rates=model == 'normal' or bool(rng.integers(2)), n=k)
    F, tau, sh, A = q['F'], q['tau'], q['shift'], q['A']
    f = F + sh
    vol = min(max(q['vol'], 0.0011), 9.0)
    cps = np.array(q['cps'])
    Ks = np.array(q['Ks'])
    if model == 'normal':
        vol = gen.loguniform(rng, 1.05e-4, 0.5) if rng.integers(2) else min(max(vol * f, 1.05e-4), .9)
        Ks = F + rng.normal(0, 1.2, k) * vol * math.sqrt(tau) * (rng.integers(4) > 0)
    else:
        Ks = f * np.exp(np.clip(rng.normal(0, 1.2, k) * vol * math.sqrt(tau) * (rng.integers(4) > 0), -12, 14)) - sh
    ref = (lambda K, c, v: A * refopt.black(f, K + sh, v * math.sqrt(tau), c)) if model == 'black' else (lambda K, c, v: A * refopt.normal(F, K, v * math.sqrt(tau), c))
    X = sum(ref(K, int(c), vol) for K, c in zip(Ks, cps))
    m.case(model=model, F=F, tau=tau, shift=sh, K=Ks.tolist(), cp=cps.tolist(), vol=vol, A=A)
    if X < 1e-12 * A * (abs(f) + vol):
        m.event('worthless'); return
    e = dict(tau=tau, cp=int(cps[0]), K=float(Ks[0]), F=F) if k == 1 else dict(tau=np.full(k, tau), F=np.full(k, F), cp=cps, K=Ks)
    guess = gen.pick(rng, [{}, {'g': vol * rng.uniform(.3, 3)}, {'g': .2}])
    if model == 'black':
        if 'g' in guess: guess = {'vol_sln_guess': guess['g']}
        v = m.call('iv', bb.black76_solve_implied_vol, ln_shift=sh, X=X, annuity_factor=A, **e, **guess)
    else:
        if 'g' in guess: guess = {'vol_n_guess': guess['g']}
        v = m.call('iv', bb.bachelier_solve_implied_vol, X=X, annuity_factor=A, **e, **guess)
    v = float(np.asarray(v).item())
    Y = sum(ref(K, int(c), v) for K, c in zip(Ks, cps))
    m.ok(abs(Y - X) <= 2e-5 * X, model + ':implied-vol-reprices', dict(v=v, X=X, Y=Y))
    h = 1e-4 * vol
    vega = (sum(ref(K, int(c), vol + h) for K, c in zip(Ks, cps)) - sum(ref(K, int(c), vol - h) for K, c in zip(Ks, cps))) / (2 * h)
    if vega * vol > 0.02 * X:      # the price determines the volatility
        m.ok(abs(v / vol - 1) <= 4e-5 * X / (vega * vol) + 1e-7, model + ':implied-vol', dict(v=v, X=X, vega=vega))
        m.event(model + '_inverted')


def convert(m, rng):
    """Conversions keep the price of the option (on the side out of the money, where it carries no intrinsic value)."""
    q = market(rng, rates=True)
    F, tau, sh = q['F'], min(q['tau'], 30.0), q['shift']
    f = F + sh
    vol = min(gen.loguniform(rng, 0.02, 2.0), 2.5 / math.sqrt(tau))
    K = f * math.exp(gen.pick(rng, [0.0, rng.normal(0, 1) * vol * math.sqrt(tau), rng.uniform(-.2, .2) * vol * math.sqrt(tau)])) - sh
    cp = 1 if K >= F else -1
    m.case(F=F, tau=tau, shift=sh, K=K, vol=vol)
    sq = math.sqrt(tau)
    X = refopt.black(f, K + sh, vol * sq, cp)
    if X < 1e-9 * f:
        return
    vn_lo, vn_hi = 1.5e-4, 0.9
    inside = lambda pr, lo, hi: pr(lo) < X < pr(hi)
    if inside(lambda v: refopt.normal(F, K, v * sq, cp), vn_lo, vn_hi):
        vn = float(np.asarray(m.call('sln->n', bb.black76_sln_to_normal_vol, F=F, tau=tau, K=K, vol_sln=vol, ln_shift=sh)).item())
        Y = refopt.normal(F, K, vn * sq, cp)
        m.ok(abs(Y - X) <= 3e-5 * X, 'sln->normal:price', dict(vn=vn, X=X, Y=Y))
        back = float(np.asarray(m.call('n->sln', bb.normal_vol_to_black76_sln, F=F, tau=tau, K=K, vol_n=vn, ln_shift=sh)).item())
        Z = refopt.black(f, K + sh, back * sq, cp)
        m.ok(abs(Z - Y) <= 3e-5 * Y, 'normal->sln:price', dict(vol=back, X=X, Y=Y, Z=Z))
        m.event('converted')
        L, s2 = abs(math.log(f / (K + sh))), (vol * sq) ** 2
        if s2 < 1.0 and L < 2.0 and X > 1e-7 * f:
            va = float(np.asarray(m.call('analytic', bb.black76_sln_to_normal_vol_analytical, F=F, tau=tau, K=K, vol_sln=vol, ln_shift=sh)).item())
            # the expansion leaves out terms of sixth order in the log-moneyness and third order in the variance
            tol = 1e-8 + 7e-6 * L ** 6 + 3e-5 * s2 ** 3
            g = lambda w: math.log(max(refopt.normal(F, K, w * sq, cp), 1e-300) / X)
            lo, hi = g(va * (1 - 2 * tol)), g(va * (1 + 2 * tol))
            m.ok(lo <= 0 <= hi, 'analytical-normal-vol', lambda: dict(analytical=va, solved=vn, L=L, s2=s2))
            m.event('analytical')
    # at the money in vector form
    vn_atm = f * (2 * refopt.N(vol * sq / 2) - 1) / (sq * refopt.n(0))
    m.close(m.call('atm', bb.normal_vol_atm_to_black76_sln_atm, F=F, tau=tau, vol_n_atm=vn_atm, ln_shift=sh), vol, 'atm', 1e-7, 1e-9)
    m.close(m.call('atm', bb.normal_vol_to_black76_sln, F=F, tau=tau, K=F, vol_n=vn_atm, ln_shift=sh), vol, 'atm-normal->sln', 1e-7, 1e-9)
    if vn_atm < .9:
        m.close(m.call('atm', bb.black76_sln_to_normal_vol, F=F, tau=tau, K=F, vol_sln=vol, ln_shift=sh), vn_atm, 'atm-sln->normal', 1e-6, 1e-12)
    # change of shift
    to = gen.pick(rng, [sh, sh + rng.uniform(.001, .05), max(sh - rng.uniform(0, .02), max(-F, -K) + 5e-3, 0.0)])
    if F + to > 1e-3 and K + to > 1e-3:
        pr = lambda v: refopt.black(F + to, K + to, v * sq, cp)
        if inside(pr, 0.0015, 9.0):
            v2 = float(np.asarray(m.call('shift', bb.shift_black76_vol, F=F, tau=tau, K=K, vol_sln=vol, from_ln_shift=sh, to_ln_shift=to)).item())
            m.ok(abs(pr(v2) - X) <= 3e-5 * X, 'change-of-shift:price', dict(vol=v2, X=X, Y=pr(v2), to=to))
            m.event('shift_changed')


def whole(m, rng):
    """Arguments given as whole numbers are the same numbers."""
    n = int(gen.pick(rng, [0, 1, 4]))
    I = lambda lo, hi: int(rng.integers(lo, hi)) if n == 0 else rng.integers(lo, hi, n)
    F, K, tau, vol, sh, A = I(1, 200), I(1, 200), I(1, 12), I(1, 3), I(0, 4), I(1, 5)
    if rng.integers(2): F = K if n == 0 else K.copy()
    cp = gen.pick(rng, [1, -1]) if n == 0 else rng.choice([1, -1], n)
    part = gen.pick(rng, [(), ('tau',), ('vol',), ('tau', 'vol'), ('F',), ('K',)])
    if 'tau' in part: tau = tau / 7
    if 'vol' in part: vol = vol / 9
    if 'F' in part: F = F * .93
    if 'K' in part: K = K * 1.04
    dt = gen.pick(rng, [np.int64, np.int32]) if n else int
    l = lambda x: x.tolist() if n else x
    m.case(F=l(F), K=l(K), tau=l(tau), vol=l(vol), shift=l(sh), A=l(A), cp=l(cp), dtype=dt.__name__)
    if n: F, K, tau, vol, sh, A, cp = (x.astype(dt) if x.dtype.kind == 'i' else x for x in (F, K, tau, vol, sh, A, cp))
    b = lambda x: np.broadcast_to(np.asarray(x, float), (max(n, 1),))
    rows = list(zip(*map(b, (F, K, tau, vol, sh, A, cp))))
    keep = [np.array(x) for x in (F, K, tau, vol, sh, A, cp)]
    w = dict(part=part)
    r = m.call('black', bb.black76_price, F=F, tau=tau, cp=cp, K=K, vol_sln=vol, ln_shift=sh, annuity_factor=A, intrinsic_time_split=True)
    m.close(r['price'], [a * refopt.black(f + s, k + s, v * math.sqrt(t), int(c)) for f, k, t, v, s, a, c in rows], 'whole:black', 1e-9, 1e-9, w)
    m.close(r['intrinsic'], [a * max(c * (f - k), 0) for f, k, t, v, s, a, c in rows], 'whole:black-intrinsic', 1e-12, 1e-9, w)
    r = m.call('bachelier', bb.bachelier_price, F=F, tau=tau, cp=cp, K=K, vol_n=vol, annuity_factor=A, intrinsic_time_split=True)
    m.close(r['price'], [a * refopt.normal(f, k, v * math.sqrt(t), int(c)) for f, k, t, v, s, a, c in rows], 'whole:bachelier', 1e-9, 1e-9, w)
    m.close(r['intrinsic'], [a * max(c * (f - k), 0) for f, k, t, v, s, a, c in rows], 'whole:bachelier-intrinsic', 1e-12, 1e-9, w)
    m.ok(all(np.array_equal(x, y) for x, y in zip(keep, (F, K, tau, vol, sh, A, cp))), 'whole:caller-altered')
    m.event('whole_vector' if n else 'whole_scalar')


SECTIONS = [Section('prices', prices, 16000, 120000, ['call', 'put', 'negative_forward', 'shifted', 'at_the_money', 'quadrature']),
            Section('shape', shape, 3000, 20000, ['black', 'normal', 'repeats']),
            Section('whole', whole, 3000, 15000, ['whole_vector', 'whole_scalar']),
            Section('implied', implied, 6000, 40000, ['black_inverted', 'normal_inverted']),
            Section('convert', convert, 4000, 25000, ['converted', 'analytical', 'shift_changed'])]
