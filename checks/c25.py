"""C25 one-factor Hull-White model."""
import math
import numpy as np, pandas as pd
import scipy.interpolate as si
from frmmon import Section
import gen, refopt
from frm.enums import CompoundingFreq, ZeroCurveInterpMethod as IM, DayCountBasis
from frm.term_structures.zero_curve import ZeroCurve
from frm.pricing_engine.hw1f import HullWhite1Factor
from frm.pricing_engine.monte_carlo_generic import generate_rand_nbs

PROPERTY = 'C25'
ANCHORS = ['frm/pricing_engine/hw1f.py']
TECHNIQUE = 'runtime monitoring: model prices, bond formulas and paths checked against the curve itself and closed forms; path-by-path recursion monitors'
RULE = ('random curves (4 to 9 pillars by year fraction or tenor, rates -1% to 9%, two spline interpolations) x mean reversion 0.005 to 0.6 x volatility 0 to 4%; random bond '
        'options, optionlets and swaptions with scalar and vector inputs; simulated paths in three schemes; non-trivial = new curve, model and trade')
ASSUMPTIONS = ['Mean reversion above zero (the drift formula divides by it) and times up to the last pillar.',
               'The theta spline and its numerical differentiation are judged to 1e-6 in discount factor; simulated ensembles to 5.5 standard errors plus a first-order step error.',
               'The forward curve reference is the numerical derivative of the curve\'s own discount factors (the curve itself is the subject of C08).']


def curve(rng):
    n = int(rng.integers(4, 10))
    if rng.integers(2):
        t = np.cumsum(rng.uniform(.3, 3, n)) if rng.integers(4) else np.cumsum(rng.integers(1, 4, n))        # whole years now and then
        if rng.integers(6) == 0: t = t * 2.0        # out to fifty years
        X = pd.DataFrame({'years': t}); date = pd.Timestamp('2024-04-01')
    else:
        X = pd.DataFrame({'tenor': list(rng.choice(['3m', '6m', '1y', '18m', '2y', '3y', '4y', '5y', '7y', '10y', '12y', '15y', '20y', '25y', '30y', '40y'], n, replace=False))})
        t = np.arange(1.0, n + 1); date = pd.Timestamp('2020-01-01') + pd.Timedelta(int(rng.integers(3000)), 'D')
    level, slope = rng.uniform(-.01, .08), rng.normal(0, .01)
    k = int(rng.integers(10))
    if k == 0: slope = 0.0              # level curve
    elif k == 1: level, slope = 0.0, .002
    order = np.argsort(X['tenor'].map(lambda s: float(s[:-1]) * (1 / 12 if s[-1] == 'm' else 1))) if 'tenor' in X else np.arange(n)
    rate = np.empty(n); x = np.linspace(0, 1, n)
    rate[np.asarray(order)] = level + slope * x + rng.normal(0, .0015, n) * (rng.integers(3) > 0)
    X['zero_rate'] = rate if k else np.full(n, round(level, 3))
    im = gen.pick(rng, [IM.CUBIC_SPLINE_ON_CCZR, IM.CUBIC_SPLINE_ON_LN_DISCOUNT])
    desc = dict(x=list(X.iloc[:, 0].astype(str)), rate=rate, interp=im.name, date=str(date))
    kw = dict(curve_date=date, pillar_df=X, compounding_freq=CompoundingFreq.CONTINUOUS, interp_method=im,
              day_count_basis=gen.pick(rng, [DayCountBasis.ACT_365, DayCountBasis.ACT_ACT, DayCountBasis.ACT_360]))
    return kw, desc


class Ref:
    def __init__(self, zc, a, s):
        self.zc, self.a, self.s = zc, a, s
        self.tmax = float(zc.pillar_df['years'].max())

    def P(self, t): return np.asarray(self.zc.get_discount_factors(years=np.atleast_1d(np.asarray(t, float))), float)

    def fwd(self, t, h=1e-4):
        t = np.atleast_1d(np.asarray(t, float)); lo, hi = np.maximum(t - h, 0), np.minimum(t + h, self.tmax)
        return -(np.log(self.P(hi)) - np.log(self.P(lo))) / (hi - lo)

    def B(self, t): return -np.expm1(-self.a * np.asarray(t, float)) / self.a

    def var(self, t): return self.s ** 2 * -np.expm1(-2 * self.a * np.asarray(t, float)) / (2 * self.a)

    def bond(self, t1, t2, r):      # model bond price given the short rate
        P1, P2 = self.P(t1)[0], self.P(t2)[0]; b = self.B(t2 - t1); f = self.fwd(t1)[0]
        return P2 / P1 * math.exp(b * (f - r) - .5 * b * b * self.var(t1))

    def zbo(self, T, S, K, cp):
        P1, P2 = self.P(T)[0], self.P(S)[0]; sp = math.sqrt(self.var(T)) * self.B(S - T)
        if S < T: return 0.0
        if sp <= 0: return max(cp * (P2 - K * P1), 0.0)
        h = math.log(P2 / (K * P1)) / sp + sp / 2
        return cp * (P2 * refopt.N(cp * h) - K * P1 * refopt.N(cp * (h - sp)))

    def swaption(self, T0, pay, acc, TN, c, payer):
        t = np.append(pay, TN); w = np.append(c * np.asarray(acc), 1.0)
        P0 = self.P(T0)[0]; Pi = self.P(t); b = self.B(t - T0); V = float(self.var(T0))
        cp = 1 if payer else -1
        swap = P0 - np.sum(w * Pi)
        if V <= 0: return max(cp * swap, 0.0), swap
        g = lambda y: np.sum(w * Pi / P0 * np.exp(-b * y - .5 * b * b * V)) - 1
        lo, hi = -1.0, 1.0
        while g(lo) < 0: lo *= 2
        while g(hi) > 0: hi *= 2
        for _ in range(200):
            mid = .5 * (lo + hi); lo, hi = (mid, hi) if g(mid) > 0 else (lo, mid)
        y = .5 * (lo + hi); sd = math.sqrt(V)
        # payer is exercised for y above the boundary; under measure of bond i, y has mean -b_i V
        up = lambda sh: refopt.N(cp * (-(y + sh)) / sd)
        return cp * (P0 * up(0) - sum(w[i] * Pi[i] * up(b[i] * V) for i in range(len(t)))), swap


def model(m, rng, sigma0=True, **more):
    kw, desc = curve(rng)
    a = float(np.exp(rng.uniform(math.log(.005), math.log(.6)))); s = float(rng.uniform(.0005, .04))
    if sigma0 and rng.integers(12) == 0: s = 0.0
    m.case(alpha=a, sigma=s, **desc, **more)
    zc = m.call('curve', ZeroCurve, **kw)
    hw = m.call('model', HullWhite1Factor, zero_curve=zc, mean_rev_lvl=a, vol=s)
    m.event('interp_' + kw['interp_method'].name)
    return hw, Ref(zc, a, s)


def bonds(m, rng):
    hw, R = model(m, rng)
    hw.num = int(gen.pick(rng, [300, 1000, 1000]))
    m.close(hw.r0, R.fwd(0.0, 1e-5)[0], 'initial-short-rate', 1e-3, 2e-6)
    m.call('theta', hw.setup_theta)

    def slack(a, b):     # what interpolating theta on its grid costs over [a, b]
        g = np.linspace(a, b, 20001); e = np.abs(si.splev(g, hw.theta_spline) - hw.get_thetas(g)) * R.B(b - g)
        return float(np.sum(e) * (g[1] - g[0]))
    pil = hw.zero_curve.pillar_df['years'].values.astype(float)
    for T in [pil[-1], pil[int(rng.integers(1, len(pil)))], rng.uniform(.02, R.tmax)]:
        T = float(T)
        one, two = m.call('bond 1', hw.calc_discount_factor_by_solving_ode_1, 0, T), m.call('bond 2', hw.calc_discount_factor_by_solving_ode_2, 0, T)
        m.close(one, R.P(T)[0], 'initial-curve:ode1', 1e-6 + 1e-6 * T + slack(0, T), 0, lambda: dict(T=T)); m.close(two, R.P(T)[0], 'initial-curve:ode2', 2e-6 + 1e-6 * T, 0, lambda: dict(T=T))
    t1 = rng.uniform(.05, R.tmax * .95); t2 = rng.uniform(t1 + .02, R.tmax); r = R.fwd(t1)[0] + rng.normal(0, .02)
    want = R.bond(t1, t2, r)
    m.close(m.call('bond 1', hw.calc_discount_factor_by_solving_ode_1, t1, t2, r), want, 'bond:ode1', 2e-6 + 2e-6 * t2 + slack(t1, t2), 0, lambda: dict(t1=t1, t2=t2, r=r))
    m.close(m.call('bond 2', hw.calc_discount_factor_by_solving_ode_2, t1, t2, r), want, 'bond:ode2', 2e-6 + 2e-6 * t2, 0, lambda: dict(t1=t1, t2=t2, r=r))
    m.close(m.call('b', hw.calc_b, t1, t2), R.B(t2 - t1), 'b', 1e-12, 0)
    u1 = rng.uniform(0, 60); u2 = u1 + gen.loguniform(rng, 1e-3, 100)
    m.close(m.call('b', hw.calc_b, u1, u2), R.B(u2 - u1), 'b', 1e-10, 0, lambda: dict(t1=u1, t2=u2))
    m.refuses('reversed', hw.calc_discount_factor_by_solving_ode_1, t2, t1, r); m.refuses('reversed', hw.calc_discount_factor_by_solving_ode_2, t2, t1, r)
    m.refuses('no rate', hw.calc_discount_factor_by_solving_ode_1, t1, t2); m.refuses('no rate', hw.calc_discount_factor_by_solving_ode_2, t1, t2)
    # drift: theta is what keeps the model on the curve
    h = 1e-3
    t = rng.uniform(h, R.tmax - h, 6); t = t[np.min(np.abs(t[:, None] - pil), 1) > 2 * h]
    if len(t):
        df = -(np.log(R.P(t + h)) - 2 * np.log(R.P(t)) + np.log(R.P(t - h))) / h ** 2
        want = df + R.a * R.fwd(t) + R.var(t)
        m.close(m.call('thetas', hw.get_thetas, t), want, 'theta', 1e-4, 1e-6)
    t = rng.uniform(0, R.tmax, 12); gap = np.diff(pil); j = np.clip(np.searchsorted(pil, t) - 1, 0, len(gap) - 1)
    near = np.maximum(gap[j], np.max(gap[np.clip(j[:, None] + [-1, 1], 0, len(gap) - 1)], 1)) / hw.num * 8
    t = t[np.min(np.abs(t[:, None] - pil), 1) > near]
    if len(t):
        m.close(si.splev(t, hw.theta_spline), hw.get_thetas(t), 'theta-spline', 1e-4, 1e-6); m.event('theta_spline')
    m.close(m.call('integral', hw.get_forward_rate_by_integration, t1, t2), math.log(R.P(t1)[0] / R.P(t2)[0]), 'forward-integral', 1e-4, 1e-6)
    m.event('bonds')


def fit(m, rng):
    hw, R = model(m, rng, sigma0=False)
    dts = tuple(rng.choice([1e-2, 1e-3, 1e-4], 2, replace=False)); nums = tuple(int(x) for x in rng.choice([4, 30, 300], 2, replace=False))
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()): m.call('fit', hw.fit_theta, dts, nums)
    err = m.call('error', hw.calc_error_for_theta_fit)
    pil = hw.zero_curve.pillar_df['years'].values.astype(float); pil = pil[pil > 0]
    mine = np.array([-math.log(hw.calc_discount_factor_by_solving_ode_1(0, p) / R.P(p)[0]) / p for p in pil])
    m.close(err, 1e4 * math.sqrt(np.mean(mine ** 2)), 'reported-error', 1e-6, 1e-9)
    best = np.inf
    for d in dts:
        for k in nums:
            other = HullWhite1Factor(zero_curve=hw.zero_curve, mean_rev_lvl=R.a, vol=R.s, dt=float(d), num=k); other.setup_theta()
            best = min(best, other.calc_error_for_theta_fit())
    m.close(err, best, 'best-fit-in-force', 1e-9, 1e-12)
    m.event('fit')


def options(m, rng):
    hw, R = model(m, rng)
    n = int(gen.pick(rng, [1, 1, 2, 5]))
    T = rng.uniform(.02, R.tmax * .9, n); S = T + rng.uniform(.01, 1, n) * (R.tmax - T); cp = rng.choice([1, -1], n)
    if rng.integers(8) == 0: S[0] = T[0] * .9; m.event('matured_before_expiry')
    if rng.integers(8) == 0: T[0] = 0.0; m.event('immediate')
    rep = n > 1 and rng.integers(3) == 0
    if rep: j = rng.integers(0, n, n); T, S, cp = T[j], S[j], cp[j]; m.event('repeats')       # the same trade more than once
    if rng.integers(6) == 0 and R.tmax > 3:                                                  # whole years
        T = rng.integers(1, int(R.tmax) - 1, n); S = np.minimum(T + rng.integers(1, 5, n), int(R.tmax)); m.event('whole')
    K = R.P(S) / R.P(T) * np.exp(rng.normal(0, 1, n) * (.02 + 3 * np.sqrt(R.var(T)) * R.B(S - T)))
    if rep: K = K[j]
    v = [rng.integers(2) for _ in range(4)]     # which of the four are given once
    if n > 1 and any(v):
        if v[0] and not all(v): T[:] = min(T[0], np.min(S) * .5) if not v[1] else T[0]
        if v[0]: T[:] = T[0]
        if v[1]: S[:] = S[0]
        if v[2]: K[:] = K[0]
        if v[3]: cp[:] = cp[0]
    g = lambda x, once: (x if not once or n == 1 and rng.integers(2) else gen.pick(rng, [x[0].item(), x[:1].copy()]))
    args = dict(expiry_years=g(T, v[0]), maturity_years=g(S, v[1]), K=g(K, v[2]), cp=(int(cp[0]) if v[3] else cp))
    args['K'] = args['K'] if not np.isscalar(args['K']) else float(args['K'])
    m.case(alpha=R.a, sigma=R.s, args=args, x=str(hw.zero_curve.pillar_df.values.tolist()))
    size = max(np.size(x) for x in args.values())
    keep = {k: np.copy(x) for k, x in args.items()}
    got = np.asarray(m.call('bond option', hw.price_zero_coupon_bond_option, **args))
    m.ok(all(np.array_equal(keep[k], args[k]) for k in args), 'inputs-altered')
    if not m.ok(got.size == size, 'shape', dict(got=got.shape, want=size)): return
    want = np.array([R.zbo(T[i], S[i], K[i], int(cp[i])) for i in range(size)])
    m.close(got.ravel(), want, 'bond-option', 1e-8, 1e-12, lambda: dict(T=T, S=S, K=K, cp=cp))
    m.ok(np.all(got >= -1e-14), 'negative-price')
    flip = dict(args); flip['cp'] = -np.asarray(args['cp'])
    other = np.asarray(m.call('bond option', hw.price_zero_coupon_bond_option, **flip)).ravel()
    ok = S[:size] >= T[:size]
    par = cp[:size] * (got.ravel() - other) - (R.P(S) - K * R.P(T))[:size]
    m.ok(np.all(np.abs(par[ok]) < 1e-10), 'bond-option-parity', lambda: dict(gap=par))
    m.event('options_vector' if size > 1 else 'options_scalar')
    if R.s == 0: m.event('no_volatility')
    if size > 1 and any(np.size(x) == 1 for x in args.values()): m.event('options_mixed')
    # optionlets
    t1 = float(rng.uniform(.05, R.tmax * .9)); t2 = t1 + float(rng.uniform(.02, min(1, R.tmax - t1))); tau = t2 - t1
    F = (R.P(t1)[0] / R.P(t2)[0] - 1) / tau; k = F + rng.normal(0, .01)
    if 1 + k * tau <= 0: return
    c, f = (float(np.asarray(m.call('optionlet', hw.price_optionlet, t1, t2, k, z)).reshape(-1)[0]) for z in (1, -1))
    m.close(c - f, R.P(t1)[0] - (1 + k * tau) * R.P(t2)[0], 'optionlet-parity', 1e-9, 1e-12)
    m.close(c, (1 + k * tau) * R.zbo(t1, t2, 1 / (1 + k * tau), -1), 'optionlet', 1e-8, 1e-12, lambda: dict(t1=t1, t2=t2, k=k))
    m.event('optionlet')


def swaptions(m, rng):
    hw, R = model(m, rng, sigma0=False); hw.num = 300
    n = int(rng.integers(1, 7)); T0 = float(rng.uniform(.1, R.tmax * .6)); step = min(float(rng.uniform(.2, 1.1)), (R.tmax - T0) / (n + .5))
    pay = T0 + step * np.arange(1, n + 1); acc = np.full(n, step) * rng.uniform(.97, 1.03, n)
    kind = int(rng.integers(3)); TN = float(pay[-1] if kind == 0 else pay[-1] - .02 * step if kind == 1 else pay[-1] + .02 * step)
    P = R.P(np.append(pay, TN)); par = (R.P(T0)[0] - P[-1]) / np.sum(acc * P[:-1])
    c = float(par + rng.normal(0, .01)); N = float(gen.pick(rng, [1.0, 1e6]))
    m.case(alpha=R.a, sigma=R.s, T0=T0, pay=pay, acc=acc, TN=TN, c=c, N=N, x=str(hw.zero_curve.pillar_df.values.tolist()))
    if c <= 0: return
    m.call('theta', hw.setup_theta)
    kw = dict(swaption_expiry=T0, coupon_payment_times=pay, coupon_year_fractions=acc, notional_payment_time=TN, fixed_rate=c)
    K = np.asarray(m.call('strikes', hw.jamshidian_decomposition, **kw))
    if not m.ok(K.size == (n if kind == 0 else n + 1), 'strike-count', dict(got=K.size)): return
    m.close(c * np.sum(acc * K[:n]) + K[-1], 1.0, 'strikes-make-par', 1e-9, 1e-9)
    ts = pay if kind == 0 else np.append(pay, TN)
    # all strikes come from one short rate
    f0 = R.fwd(T0)[0]; b = R.B(ts - T0)
    rs = f0 - (np.log(K * R.P(T0)[0] / R.P(ts)) + .5 * b * b * R.var(T0)) / b
    m.ok(np.ptp(rs) < 1e-4, 'one-short-rate', lambda: dict(rates=rs))
    for payer in (True, False):
        got = m.call('swaption', hw.price_swaption, is_payer=payer, notional=N, **kw)
        if not m.ok(np.size(got) == 1, 'swaption-scalar', dict(got=np.shape(got))): return
        want, swap = R.swaption(T0, pay, acc, TN, c, payer)
        m.close(got, N * want, 'swaption', 2e-5, N * 1e-8, lambda: dict(payer=payer))
        if payer: first = got
    m.close(first - got, N * swap, 'swaption-parity', 1e-6, N * 1e-9)
    m.event('swaption_%s' % ['same', 'before', 'after'][kind])
    if n == 1: m.event('single_coupon')
    m.refuses('lengths', hw.jamshidian_decomposition, T0, pay, acc[:-1], TN, c)
    if n > 1: m.refuses('order', hw.jamshidian_decomposition, T0, pay[::-1], acc, TN, c)


DECAY = {'euler': lambda x: 1 - x, 'rk4': lambda x: 1 - x + x ** 2 / 2 - x ** 3 / 6 + x ** 4 / 24, 'exact': lambda x: math.exp(-x)}


def paths(m, rng):
    hw, R = model(m, rng)
    method = gen.pick(rng, ['euler', 'rk4', 'exact'])
    steps, n = int(rng.integers(1, 13)), 2 * int(rng.integers(1, 8)); anti = bool(rng.integers(2)); seed = int(rng.integers(2 ** 31))
    tau = float(rng.uniform(.1, R.tmax)) if rng.integers(5) else int(rng.integers(1, int(R.tmax) + 1)) if R.tmax >= 1 else R.tmax
    m.case(alpha=R.a, sigma=R.s, method=method, steps=steps, n=n, anti=anti, seed=seed, tau=tau, x=str(hw.zero_curve.pillar_df.values.tolist()))
    kw = dict(tau=tau, nb_steps=steps, nb_simulations=n, flag_apply_antithetic_variates=anti, random_seed=seed, method=method)
    out = m.call('simulate', hw.simulate, **kw)
    X, t, D, Zr, av = (np.asarray(out[k]) if k != 'averages_df' else out[k] for k in ('R', 'years_grid', 'sim_dsc_factor', 'sim_cczr', 'averages_df'))
    dt = tau / steps
    if not m.ok(X.shape == D.shape == Zr.shape == (steps + 1, n), 'shape', dict(got=X.shape)): return
    m.close(t, np.linspace(0, tau, steps + 1), 'grid', 1e-12, 1e-12)
    m.close(X[0], np.full(n, hw.r0), 'start', 1e-12, 0); m.close(D[0], np.ones(n), 'start-discount', 0, 0)
    Z = generate_rand_nbs(steps, 1, n, anti, seed)[:, 0, :]
    sd = math.sqrt(R.var(dt)) if method == 'exact' else R.s * math.sqrt(dt)
    dec = DECAY[method](R.a * dt)
    m.close(X[1:, 1:] - X[1:, :1], dec * (X[:-1, 1:] - X[:-1, :1]) + sd * (Z[:, 1:] - Z[:, :1]), 'shocks', 1e-8, 1e-12)
    # common drift of each step, against the theta that keeps the model on its curve
    drift = (X[1:] - dec * X[:-1] - sd * Z).mean(1)
    th = np.asarray(hw.get_thetas(t))
    if method == 'exact':
        gx, gw = np.polynomial.legendre.leggauss(12); u = dt * (gx + 1) / 2; w = gw * dt / 2 * np.exp(-R.a * (dt - u))
        g1 = np.sum(w * u / dt); g0 = np.sum(w) - g1
        want = th[:-1] * g0 + th[1:] * g1       # theta linear over the step
        m.close(drift, want, 'drift', 1e-6, 1e-10)
    else:
        x = R.a * dt; k = (1 - dec) / x
        m.close(drift, th[:-1] * dt * k, 'drift', 1e-7, 1e-11)
    I = np.cumsum(.5 * (X[1:] + X[:-1]) * dt, 0)
    m.close(D[1:], np.exp(-I), 'path-discount', 1e-9, 0)
    ok = I < 700        # a coarse explicit scheme can run off to a discount factor of zero
    m.close(Zr[1:][ok], (I / t[1:, None])[ok], 'path-zero-rate', 1e-8, 1e-10)
    m.close(av['years'].values, t, 'average-grid', 1e-12, 0)
    m.close(av['discount_factor'].values, D.mean(1), 'average-discount', 1e-10, 0)
    m.close(av['cczr'].values[1:], -np.log(D.mean(1)[1:]) / t[1:], 'average-rate', 1e-8, 1e-10)
    again = m.call('simulate', hw.simulate, **kw)
    m.ok(np.array_equal(again['R'], X) and np.array_equal(again['sim_dsc_factor'], D), 'not-reproducible')
    m.event('paths_' + method)


def ensemble(m, rng):
    hw, R = model(m, rng, sigma0=False)
    method = gen.pick(rng, ['euler', 'rk4', 'exact']); n = 10000; tau = float(rng.uniform(.3, min(R.tmax, 6))); steps = int(max(40, 40 * tau)); seed = int(rng.integers(2 ** 31))
    anti = bool(rng.integers(2))
    m.case(alpha=R.a, sigma=R.s, method=method, steps=steps, anti=anti, seed=seed, tau=tau, x=str(hw.zero_curve.pillar_df.values.tolist()))
    out = m.call('simulate', hw.simulate, tau=tau, nb_steps=steps, nb_simulations=n, flag_apply_antithetic_variates=anti, random_seed=seed, method=method)
    X, D, t = out['R'], out['sim_dsc_factor'], out['years_grid']; dt = tau / steps
    q = 5.5 / math.sqrt(n)
    slack = 10 * dt * np.ptp(R.fwd(np.linspace(0, tau, 50))) * (R.a + 1)
    for i in {steps, steps // 2, int(rng.integers(1, steps + 1))}:
        T = t[i]; v = float(R.var(T))
        m.ok(abs(X[i].var() / v - 1) < q * (2.1 if anti else 1.5) + 1.5 * R.a * dt, 'rate-variance', lambda: dict(T=T, got=X[i].var(), want=v))
        want = R.fwd(T)[0] + R.s ** 2 / 2 * float(R.B(T)) ** 2
        m.ok(abs(X[i].mean() - want) < q * math.sqrt(v) + slack + 2 * R.a * dt * (abs(want) + .01), 'rate-mean', lambda: dict(T=T, got=X[i].mean(), want=want))
        se = D[i].std() / math.sqrt(n)
        m.ok(abs(D[i].mean() / R.P(T)[0] - 1) < 5.5 * se / R.P(T)[0] + T * (slack + R.a * dt * .02) + 1e-6, 'curve-in-expectation', lambda: dict(T=T, got=D[i].mean(), want=R.P(T)[0]))
    m.event('ensemble')


SECTIONS = [Section('bonds', bonds, 400, 4000, ['bonds', 'theta_spline', 'interp_CUBIC_SPLINE_ON_CCZR', 'interp_CUBIC_SPLINE_ON_LN_DISCOUNT']),
            Section('fit', fit, 40, 300, ['fit']),
            Section('options', options, 1500, 15000, ['options_vector', 'options_scalar', 'options_mixed', 'optionlet', 'no_volatility', 'immediate', 'repeats', 'whole', 'matured_before_expiry']),
            Section('swaptions', swaptions, 250, 2500, ['swaption_same', 'swaption_before', 'swaption_after', 'single_coupon']),
            Section('paths', paths, 600, 6000, ['paths_euler', 'paths_rk4', 'paths_exact']),
            Section('ensemble', ensemble, 80, 800, ['ensemble'])]
