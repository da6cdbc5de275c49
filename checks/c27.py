"""C27 FX volatility surface against an independently rebuilt market, smile and closed-form price."""
import datetime as dt, math, warnings
import numpy as np, pandas as pd
from scipy.interpolate import CubicSpline
from frmmon import Section
import gen, refcurve, refopt, refheston as rh
from checks.c01 import ref_yf
from checks.c05 import is_bus, ref_add, shift
from checks import c17, c19
from frm.enums import FXSmileInterpolationMethod as SM, DayCountBasis as B
from frm.utils.business_day_calendar import get_busdaycal
from frm.term_structures.zero_curve import ZeroCurve
from frm.term_structures.fx_volatility_surface import FXVolatilitySurface

PROPERTY = 'C27'
ANCHORS = ['frm/term_structures/fx_volatility_surface.py', 'frm/term_structures/fx_helpers.py', 'frm/pricing_engine/garman_kohlhagen.py', 'frm/pricing_engine/volatility_generic.py',
           'frm/pricing_engine/heston.py']
TECHNIQUE = ('runtime monitoring: every queried volatility and price is recomputed from the quotes by an independent implementation (forward, zero rates, total-variance interpolation, '
             'delta inversion, spline, closed form); repeated, split and reordered query histories are compared with fresh surfaces')
RULE = ('random currency pairs, dates, calendars, zero curves in every form, forward curves off interest parity, 3 to 9 quotes per smile given as calls and puts, strategies or a mixture, '
        'four delta conventions changing along the expiries, both spline methods; queries on and between expiries in any order with repeats; non-trivial = new market')
ASSUMPTIONS = ['Quotes are admissible: attainable deltas, total variance not falling along an expiry column, strikes increasing along the smile.',
               'Between expiries with different delta conventions the convention of the later expiry applies (as documented in the code).',
               'Queries lie between the first and last expiry and within 3% of the range of quoted strikes; the spline extrapolates beyond and is not judged there.',
               'Parametric smiles: fit tolerance 1e-3 in volatility (3e-3 with the transform pricer) on quotes generated from a Heston model; all five pricers.']
PAIRS = [('usd', 'aud'), ('usd', 'eur'), ('usd', 'gbp'), ('usd', 'nzd'), ('jpy', 'usd'), ('cad', 'usd'), ('chf', 'usd'), ('gbp', 'eur'), ('jpy', 'aud'), ('try', 'usd'), ('usd', 'cad'), ('sgd', 'usd')]
OFF1 = {frozenset(('usd', x)) for x in ('cad', 'php', 'rub', 'try')}
TEN = [('1w', '1W'), ('2w', '2 weeks'), ('1m', '1M'), ('2m', '2m'), ('3m', '3 Months'), ('6m', '6M'), ('9m', '9M'), ('1y', '1Y'), ('18m', '18M'), ('2y', '2Y'), ('3y', '3y'), ('5y', '5Y'), ('7y', '7Y')]
_cal = {}


def cal_of(*ccys):
    k = tuple(ccys)
    if k not in _cal: _cal[k] = get_busdaycal([c.upper() for c in k] if k else None)
    return _cal[k]


def warmup():
    cal_of()


class Market: pass


def smile_vols(rng, n, deltas, taus):
    """Volatilities (expiry x quote, put 5 .. atm .. call 5) with smooth smiles and growing total variance."""
    x = np.array([abs(d) - .5 if d < 0 else .5 - d if d < .5 else 0.0 for d in deltas])   # -.45 .. 0 .. .45
    lvl, skew, curv = rng.uniform(.06, .25), rng.uniform(-.1, .1), rng.uniform(.02, .3)
    w, out, t0 = None, [], 0.0
    for t in taus:
        v = (lvl * (1 + skew * x / .25 * .5 + curv * (x / .25) ** 2 * .25)) * (1 + rng.normal(0, .004, n))
        lvl = max(.05, lvl * math.exp(rng.normal(0, .06)))
        if w is not None:
            fv = np.maximum(v * v * t - w, (t - t0) * (v * .3) ** 2)
            v = np.sqrt((w + fv) / t)
        w, t0 = v * v * t, t
        out.append(v)
    return np.array(out)


def market(rng, methods=(SM.UNIVARIATE_SPLINE, SM.CUBIC_SPLINE), max_pillars=6, vols=None):
    M = Market()
    M.dom, M.fgn = gen.pick(rng, PAIRS)
    own_cal = rng.integers(3) > 0
    M.cal = cal_of() if own_cal and rng.integers(2) else cal_of(M.fgn, M.dom)
    M.own_cal = own_cal or M.cal is cal_of()
    d = gen.date(rng, dt.date(2005, 1, 3), dt.date(2050, 1, 1))
    while not is_bus(d, M.cal) or d.day > 28: d += dt.timedelta(1)
    M.d = d
    conv_lag = 1 if frozenset((M.dom, M.fgn)) in OFF1 else 2
    M.form = gen.pick(rng, ['curve', 'curve', 'curve+offset', 'spot', 'curve+spot', 'all'])
    M.lag = int(rng.integers(0, 4)) if M.form in ('curve+offset', 'curve+spot', 'all') else conv_lag
    M.spot_date = ref_add(d, M.lag, M.cal)
    # curves
    for who in ('dc', 'fc'):
        basis = gen.pick(rng, [B.ACT_360, B.ACT_365, B.ACT_ACT])
        kw, ref, desc, _ = refcurve.make(rng, basis=basis, extrap=refcurve.XM.FLAT, date_lo=d, date_hi=d)
        setattr(M, who, (kw, ref, desc))
    M.basis = gen.pick(rng, [None, None, B.ACT_ACT, B.ACT_365, B.ACT_360])
    # expiries
    n = int(rng.integers(2, max_pillars + 1)) if rng.integers(8) else 1
    idx = sorted(rng.choice(len(TEN), n, replace=False))
    M.ten, M.exp = [], []
    for i in idx:
        e = shift(d, TEN[i][0])
        while not is_bus(e, M.cal): e += dt.timedelta(1)
        if M.exp and e <= M.exp[-1]: continue
        M.ten.append(TEN[i][1]); M.exp.append(e)
    # forwards, off interest parity
    M.S = gen.loguniform(rng, .3, 200)
    span = (M.exp[-1] - d).days
    nf = int(rng.integers(1, 7))
    days = sorted({int(x) for x in rng.integers(2, int(span * gen.pick(rng, [.7, 1.2, 1.5])) + 4, nf)})
    fx = [d]
    for k in days:
        e = d + dt.timedelta(k)
        while not is_bus(e, M.cal): e += dt.timedelta(1)
        if e > fx[-1]: fx.append(e)
    drift = rng.normal(0, .03)
    M.fdates, M.fwd = fx, [M.S] + [M.S * math.exp((drift + rng.normal(0, .002)) * (x - d).days / 365) for x in fx[1:]]
    if rng.integers(8) == 0:        # whole numbers
        M.S = int(rng.integers(80, 200)); M.fwd = [M.S] + [int(round(M.S * f / M.fwd[0])) for f in M.fwd[1:]]
    # quotes
    ks = gen.pick(rng, [[.25], [.25, .1], [.25, .1], [.05, .1, .25], [.35, .25, .15, .05], [.4, .3, .2, .1]])
    methods = [x for x in methods if len(ks) > 1 or x != SM.CUBIC_SPLINE]
    M.method = gen.pick(rng, methods)
    M.deltas = [-k for k in sorted(ks)] + [.5] + sorted(ks, reverse=True)
    b = M.basis or B.ACT_ACT
    M.taus = [ref_yf(d, e, b, False) for e in M.exp]
    M.vols = smile_vols(rng, len(M.deltas), M.deltas, M.taus) if vols is None else vols(M)
    M.plain = []
    if vols is None:
        u = int(rng.integers(12))
        if u == 0: M.vols[:] = round(rng.uniform(.05, .3), 2); M.plain.append('one_volatility')
        elif u == 1: M.vols[:] = M.vols[:, len(ks):len(ks) + 1]; M.plain.append('flat_smiles')
        elif u == 2: M.vols = .5 * (M.vols + M.vols[:, ::-1]); M.plain.append('no_risk_reversal')
        elif u == 3: M.vols[:] = M.vols[:1]; M.plain.append('level_term')
    c0 = gen.pick(rng, ['regular', 'premium_adjusted'])
    M.conv = [(c0 if rng.integers(8) else gen.pick(rng, ['regular', 'premium_adjusted'])) + ('_spot' if t <= gen.pick(rng, [1.05, 1.05, .3, 9]) else '_forward') for t in M.taus]
    # tables
    cols = {}
    how = gen.pick(rng, ['tenor', 'expiry', 'delivery'])
    if how == 'tenor': cols['tenor'] = M.ten
    elif how == 'expiry': cols['expiry_date'] = [gen.ts(e) for e in M.exp]
    else: cols['delivery_date'] = [gen.ts(ref_add(e, M.lag, M.cal)) for e in M.exp]
    cols['delta_convention'] = M.conv
    atm = M.vols[:, len(ks)]
    cols['atm_delta_neutral'] = atm
    drop = int(rng.integers(2 * len(ks))) if len(ks) > 1 and rng.integers(3) == 0 else None       # one wing quoted on one side only
    for j, k in enumerate(sorted(ks)):
        p, c = M.vols[:, j], M.vols[:, -1 - j]
        nm = '%d' % round(100 * k)
        one_sided = drop is not None and drop // 2 == j
        if rng.integers(2) and not one_sided:
            cols[nm + gen.pick(rng, ['_delta_risk_reversal', ' delta rr', '_delta_riskreversal'])] = c - p
            cols[nm + gen.pick(rng, ['_delta_butterfly', ' delta bf'])] = .5 * (c + p) - atm
        else:
            if not (one_sided and drop % 2): cols[nm + gen.pick(rng, ['_delta_put', 'Δp'])] = p
            if not (one_sided and drop % 2 == 0): cols[nm + gen.pick(rng, ['_delta_call', '_delta_c'])] = c
    if drop is not None:
        i = drop // 2 if drop % 2 else len(M.deltas) - 1 - drop // 2
        M.deltas.pop(i); M.vols = np.delete(M.vols, i, axis=1)
    q = pd.DataFrame(cols)
    M.quotes = q.iloc[rng.permutation(len(q))].reset_index(drop=True) if rng.integers(3) == 0 else q
    if isinstance(M.S, int):
        M.plain.append('whole_forwards')
    f = pd.DataFrame({'tenor': ['SP'] + [None] * (len(fx) - 1), 'fixing_date': [gen.ts(x) for x in fx], 'fx_forward_rate': pd.Series(M.fwd, dtype=object) if M.plain and rng.integers(2) else M.fwd})
    M.fdf = f.iloc[rng.permutation(len(f))].reset_index(drop=True) if rng.integers(3) == 0 else f
    return M


def describe(M):
    return dict(pair=M.fgn + M.dom, date=str(M.d), form=M.form, lag=M.lag, basis=str(M.basis), method=M.method.name, quotes=M.quotes, forwards=M.fdf, domestic=M.dc[2], foreign=M.fc[2], own_cal=bool(M.own_cal))


def build(M, method=None):
    kw = dict(domestic_ccy=gen_case(M.dom), foreign_ccy=M.fgn, fx_forward_curve_df=M.fdf, vol_quotes=M.quotes, domestic_zero_curve=ZeroCurve(**M.dc[0]), foreign_zero_curve=ZeroCurve(**M.fc[0]),
              smile_interpolation_method=method or M.method)
    if M.own_cal: kw['cal'] = M.cal
    if M.form != 'spot': kw['curve_date'] = gen.ts(M.d)
    if M.form in ('curve+offset', 'all'): kw['spot_offset'] = M.lag
    if M.form in ('spot', 'curve+spot', 'all'): kw['spot_date'] = gen.ts(M.spot_date)
    if M.basis: kw['day_count_basis'] = M.basis
    return FXVolatilitySurface(**kw)


def gen_case(x): return x.upper() if len(x) % 2 == 0 else x


def forward(M, e):
    return float(np.interp(e.toordinal(), [x.toordinal() for x in M.fdates], M.fwd))


def zero(ref, e):
    t = ref.t(ref.d_eff(e))       # flat zero rates beyond the last pillar
    return -math.log(ref.df_d(e)) / t


def smile(M, e):
    """(tau, F, r_d, r_f, convention, vols, strikes or None) at expiry e, from the quotes."""
    b = M.basis or B.ACT_ACT
    t = ref_yf(M.d, e, b, False)
    i = next(k for k, x in enumerate(M.exp) if x >= e)
    if M.exp[i] == e: v = M.vols[i]
    else:
        t1, t2, v1, v2 = M.taus[i - 1], M.taus[i], M.vols[i - 1], M.vols[i]
        w = v1 ** 2 * t1 + (v2 ** 2 * t2 - v1 ** 2 * t1) * (t - t1) / (t2 - t1)
        v = np.sqrt(w / t)
    F, rd, rf = forward(M, e), zero(M.dc[1], e), zero(M.fc[1], e)
    Ks = [strike(F, t, rf, x, d, M.conv[i]) for x, d in zip(v, M.deltas)]
    return t, F, rd, rf, M.conv[i], v, (np.array(Ks) if all(k is not None for k in Ks) else None)


def strike(F, tau, q, v, d, conv):
    scale = math.exp(-q * tau) if conv.endswith('spot') else 1.0
    sd = v * math.sqrt(tau)
    if abs(d) < .5 and d > .96 * scale * (c17.pa_max(F, sd)[1] if conv.startswith('premium') else 1): return None
    if abs(d) / scale > .6: return None
    return c19.strike(F, tau, q, v, d, conv)


def admissible(M):
    for e, v in zip(M.exp, M.vols):
        K = smile(M, e)[6]
        if K is None or np.any(np.diff(K) < 1e-4 * K[:-1]): return False
    return True


def ref_vol(K, Ks, v):
    if len(Ks) == 3:
        return float(sum(v[i] * np.prod([(K - Ks[j]) / (Ks[i] - Ks[j]) for j in range(3) if j != i]) for i in range(3)))
    return float(CubicSpline(Ks, v, bc_type='not-a-knot')(K))


def query(M, rng, n):
    """Random (expiry, strike, side, reference volatility, tau, F, rd, rf) in random order with repeats; None where not judged."""
    out = []
    lo, hi = M.exp[0].toordinal(), M.exp[-1].toordinal()
    while len(out) < n:
        e = gen.pick(rng, M.exp) if rng.integers(3) == 0 else dt.date.fromordinal(int(rng.integers(lo, hi + 1)))
        s = smile(M, e)
        if s[6] is None or np.any(np.diff(s[6]) < 1e-4 * s[6][:-1]): n -= 1; continue
        Ks = s[6]
        for _ in range(int(rng.integers(1, 3))):
            u = rng.integers(4); cp = int(gen.pick(rng, [1, -1]))
            K = float(gen.pick(rng, list(Ks))) if u == 0 else float(rng.uniform(Ks[0], Ks[-1])) if u < 3 else float(rng.uniform(Ks[0] - .03 * (Ks[-1] - Ks[0]), Ks[-1] + .03 * (Ks[-1] - Ks[0])))
            v = ref_vol(K, Ks, s[5])
            if not 0.01 < v < 1: continue
            out.append((e, K, cp, v) + s[:4])
    if out and rng.integers(3) == 0: out.append(out[0])
    return [out[i] for i in rng.permutation(len(out))]


def ask(s, fn, Q, key, m, **kw):
    return m.call(key, fn, expiry_dates=pd.DatetimeIndex([gen.ts(q[0]) for q in Q]), K=np.array([q[1] for q in Q]), cp=np.array([q[2] for q in Q]), **kw)


def surface(m, rng):
    M = market(rng)
    m.case(**describe(M))
    if not admissible(M): m.event('inadmissible_market'); return
    q0, f0 = M.quotes.copy(deep=True), M.fdf.copy(deep=True)
    dc0, fc0 = [M.dc[0]['pillar_df'].copy(deep=True), M.fc[0]['pillar_df'].copy(deep=True)]
    s = m.call('surface', build, M)
    m.ok(s.curve_date == gen.ts(M.d) and s.spot_date == gen.ts(M.spot_date) and s.spot_offset == M.lag, 'dates', lambda: dict(got=[str(s.curve_date), str(s.spot_date), s.spot_offset]))
    m.ok(s.domestic_ccy == M.dom and s.foreign_ccy == M.fgn, 'currencies')
    m.close(s.fx_spot_rate, M.S, 'spot', 0, 0)
    # pillars
    P, KP = s.vol_smile_pillar_df, s.strike_pillar_df
    names = list(s.quotes_column_names)
    if not m.ok(len(P) == len(M.exp) and list(pd.DatetimeIndex(P['expiry_date'])) == [gen.ts(e) for e in M.exp], 'pillar-dates', lambda: dict(got=list(P['expiry_date']))): return
    m.close(np.asarray(s.quotes_signed_delta, float), M.deltas, 'signed-delta', 1e-12)
    m.close(P[names].values.astype(float), M.vols, 'pillar-vols', 1e-11, 1e-14)
    m.close(P['expiry_years'].values.astype(float), M.taus, 'pillar-years', 1e-12)
    ref = [smile(M, e) for e in M.exp]
    m.close(P['fx_forward_rate'].values.astype(float), [r[1] for r in ref], 'pillar-forward', 1e-11)
    m.close(P['domestic_zero_rate'].values.astype(float), [r[2] for r in ref], 'pillar-domestic-rate', 1e-9, 1e-11)
    m.close(P['foreign_zero_rate'].values.astype(float), [r[3] for r in ref], 'pillar-foreign-rate', 1e-9, 1e-11)
    m.close(KP[names].values.astype(float), [r[6] for r in ref], 'pillar-strikes', 2e-8, 0)
    # quotes are given back
    for i in rng.permutation(len(M.exp))[:3]:
        r = ref[i]
        Q = [(M.exp[i], K, 1 if d > 0 else -1) for K, d in zip(r[6], M.deltas)]
        o = ask(s, s.interp_vol_surface, Q, 'quotes', m)
        m.close(o['vol'].values.astype(float), M.vols[i], 'quoted-volatility', 1e-7, 0, lambda: dict(expiry=str(M.exp[i]), K=list(r[6])))
        m.event('quotes_' + M.conv[i])
        p = ask(s, s.price_vanilla_european, Q, 'prices', m, analytical_greeks_flag=True)
        g = np.asarray(p['analytical_greeks']['spot_delta' if M.conv[i].endswith('spot') else 'forward_delta'], float)
        if M.conv[i].startswith('regular'):
            k = np.array([abs(d) < .5 for d in M.deltas]); m.close(g[k], np.array(M.deltas)[k], 'quoted-delta', 0, 2e-6)
    Q = query(M, rng, int(rng.integers(1, 10)))
    if not Q: return
    judge(m, M, s, Q)
    m.ok(M.quotes.equals(q0) and list(M.quotes.columns) == list(q0.columns), 'quotes-altered')
    m.ok(M.fdf.equals(f0) and list(M.fdf.columns) == list(f0.columns), 'forwards-altered')
    m.ok(M.dc[0]['pillar_df'].equals(dc0) and M.fc[0]['pillar_df'].equals(fc0), 'curves-altered')
    if len(M.exp) == 1: m.event('single_expiry')
    m.event(M.method.name); m.event('form_' + M.form); m.event('quotes_%d' % len(M.deltas))
    if any(q[0] not in M.exp for q in Q): m.event('between_expiries')
    if any(c.split('_')[0] != M.conv[0].split('_')[0] for c in M.conv): m.event('mixed_conventions')
    for x in M.plain: m.event(x)
    if rng.integers(4) == 0: refusals(m, M, s, rng)


def judge(m, M, s, Q):
    e = [q[0] for q in Q]
    E = pd.DatetimeIndex([gen.ts(x) for x in e]); K = np.array([q[1] for q in Q]); cp = np.array([q[2] for q in Q]); K0, cp0 = K.copy(), cp.copy()
    o = m.call('query', s.interp_vol_surface, expiry_dates=E, K=K, cp=cp)
    w = lambda: dict(query=[(str(a), b) for a, b in zip(e, K)])
    if not m.ok(len(o) == len(Q) and list(pd.DatetimeIndex(o['expiry_date'])) == list(E), 'rows', w): return
    m.ok(np.array_equal(K, K0) and np.array_equal(cp, cp0), 'query-altered')
    m.close(o['K'].values.astype(float), K, 'row-strike', 0, 0, w)
    m.close(o['vol'].values.astype(float), [q[3] for q in Q], 'volatility', 2e-7, 1e-9, w)
    m.close(o['expiry_years'].values.astype(float), [q[4] for q in Q], 'row-years', 1e-12, 0, w)
    m.close(o['fx_forward_rate'].values.astype(float), [q[5] for q in Q], 'row-forward', 1e-11, 0, w)
    m.close(o['domestic_zero_rate'].values.astype(float), [q[6] for q in Q], 'row-domestic-rate', 1e-9, 1e-11, w)
    m.close(o['foreign_zero_rate'].values.astype(float), [q[7] for q in Q], 'row-foreign-rate', 1e-9, 1e-11, w)
    r = m.call('price', s.price_vanilla_european, expiry_dates=E, K=K, cp=cp, intrinsic_time_split_flag=True)
    r_dom = [math.log(q[5] / M.S) / q[4] + q[7] for q in Q]      # the domestic rate the forward implies
    X = [math.exp(-r * q[4]) * refopt.black(q[5], q[1], q[3] * math.sqrt(q[4]), q[2]) for q, r in zip(Q, r_dom)]
    m.close(np.asarray(r['price'], float), X, 'price', 2e-6, 1e-8 * M.S, w)
    m.close(np.asarray(r['intrinsic'], float) + np.asarray(r['time'], float), np.asarray(r['price'], float), 'intrinsic+time', 1e-9, 1e-12 * M.S)
    md = r['market_data_inputs']
    m.close(md['vol'].values.astype(float), o['vol'].values.astype(float), 'reported-vol', 1e-12)
    m.close(md['F'].values.astype(float), [q[5] for q in Q], 'reported-forward', 1e-11)
    m.close(md['r_d'].values.astype(float), [q[6] for q in Q], 'reported-domestic-rate', 1e-9, 1e-11)
    m.close(md['r_f'].values.astype(float), [q[7] for q in Q], 'reported-foreign-rate', 1e-9, 1e-11)
    g = m.call('price', s.price_vanilla_european, expiry_dates=E, K=K, cp=cp, analytical_greeks_flag=True)
    m.close(np.asarray(g['price'], float), np.asarray(r['price'], float), 'price-with-greeks', 1e-12)
    d1 = [(math.log(q[5] / q[1]) + .5 * q[3] ** 2 * q[4]) / (q[3] * math.sqrt(q[4])) for q in Q]
    fd = [q[2] * refopt.N(q[2] * d) for q, d in zip(Q, d1)]
    G = g['analytical_greeks']
    m.close(np.asarray(G['forward_delta'], float), fd, 'forward-delta', 1e-5, 1e-7, w)
    m.close(np.asarray(G['spot_delta'], float), [math.exp(-q[7] * q[4]) * x for q, x in zip(Q, fd)], 'spot-delta', 1e-5, 1e-7, w)
    m.close(np.asarray(G['vega'], float), [.01 * M.S * math.exp(-q[7] * q[4]) * math.sqrt(q[4]) * refopt.n(d) for q, d in zip(Q, d1)], 'vega', 1e-5, 1e-9 * M.S, w)
    # parity at the surface volatility
    r2 = m.call('price', s.price_vanilla_european, expiry_dates=E, K=K, cp=-cp)
    par = [math.exp(-r * q[4]) * (q[5] - q[1]) for q, r in zip(Q, r_dom)]
    m.close(cp * (np.asarray(r['price'], float) - np.asarray(r2['price'], float)), par, 'parity', 1e-8, 1e-9 * M.S, w)
    m.event('queried', len(Q))


def refusals(m, M, s, rng):
    for d in (M.exp[0] - dt.timedelta(1), M.exp[-1] + dt.timedelta(int(rng.integers(1, 40)))):
        m.refuses('outside', s.interp_vol_surface, expiry_dates=pd.DatetimeIndex([gen.ts(M.exp[0]), gen.ts(d)]), K=np.array([M.S, M.S]), cp=np.array([1, 1]))
    m.refuses('lengths', s.interp_vol_surface, expiry_dates=pd.DatetimeIndex([gen.ts(M.exp[0])] * 2), K=np.array([M.S]), cp=np.array([1]))
    m.refuses('lengths', s.price_vanilla_european, expiry_dates=pd.DatetimeIndex([gen.ts(M.exp[0])] * 2), K=np.array([M.S] * 2), cp=np.array([1]))
    import copy
    B_ = copy.copy(M); B_.dc = ({**M.dc[0], 'curve_date': gen.ts(M.d + dt.timedelta(1))},) + M.dc[1:]
    if M.dc[1].xkind == 'years': m.refuses('curve-date', build, B_)
    B_ = copy.copy(M); B_.fdf = M.fdf.drop(columns='fx_forward_rate'); m.refuses('no forward', build, B_)
    B_ = copy.copy(M); B_.quotes = M.quotes.drop(columns='atm_delta_neutral'); m.refuses('no atm', build, B_)
    if M.form == 'all':
        B_ = copy.copy(M); B_.lag = M.lag + 1; m.refuses('inconsistent spot', build, B_)
    m.event('refused')


def history(m, rng):
    """The answer to a query does not depend on the queries before it, the batch it came in or its place in the batch."""
    M = market(rng, max_pillars=4)
    m.case(**describe(M))
    if not admissible(M): m.event('inadmissible_market'); return
    Q = query(M, rng, int(rng.integers(3, 9)))
    if len(Q) < 2: return
    a, b = m.call('surface', build, M), m.call('surface', build, M)
    base = np.asarray(ask(a, a.interp_vol_surface, Q, 'all', m)['vol'], float)
    price = np.asarray(ask(a, a.price_vanilla_european, Q, 'all', m)['price'], float)
    n = len(Q)
    lo, hi = M.exp[0].toordinal(), M.exp[-1].toordinal()
    if rng.integers(2) and hi - lo < 800:       # every day of the surface in one query, once each and in order, then again
        days = [dt.date.fromordinal(x) for x in range(lo, hi + 1)]
        G = [(e, forward(M, e), 1) for e in days]
        g1 = np.asarray(ask(a, a.interp_vol_surface, G, 'grid', m)['vol'], float)
        g2 = np.asarray(ask(a, a.interp_vol_surface, G[::-1], 'grid', m)['vol'], float)[::-1]
        m.close(g2, g1, 'history-grid', 1e-12); m.event('whole_grid')
    for step in range(int(rng.integers(2, 6))):
        s = gen.pick(rng, [a, b]); u = rng.integers(4)
        idx = rng.permutation(n)[:int(rng.integers(1, n + 1))] if u < 2 else np.array([rng.integers(n)]) if u == 2 else rng.integers(0, n, n + 2)
        sub = [Q[i] for i in idx]
        if rng.integers(2):
            m.close(np.asarray(ask(s, s.interp_vol_surface, sub, 'sub', m)['vol'], float), base[idx], 'history-volatility', 1e-12, 0, lambda: dict(order=[int(i) for i in idx], step=step))
        else:
            m.close(np.asarray(ask(s, s.price_vanilla_european, sub, 'sub', m)['price'], float), price[idx], 'history-price', 1e-12, 1e-15, lambda: dict(order=[int(i) for i in idx], step=step))
        m.event('requeried')
    if rng.integers(3) == 0:
        s = a
        s.vol_smile_daily_df['note'] = 1      # a caller adding a column to the table the surface exposes
        m.close(np.asarray(ask(s, s.interp_vol_surface, Q, 'again', m)['vol'], float), base, 'history-column', 1e-12)
    if len(M.deltas) > 3:
        other = SM.CUBIC_SPLINE if M.method == SM.UNIVARIATE_SPLINE else SM.UNIVARIATE_SPLINE
        c = m.call('surface', build, M, other)
        m.close(np.asarray(ask(c, c.interp_vol_surface, Q, 'other', m)['vol'], float), base, 'spline-methods-agree', 1e-8, 1e-12); m.event('methods_compared')
    m.event('history')


HMETH = [SM.HESTON_COSINE, SM.HESTON_1993, SM.HESTON_COSINE, SM.HESTON_CARR_MADAN_GAUSS_KRONROD_QUADRATURE, SM.HESTON_CARR_MADAN_FFT_W_SIMPSONS, SM.HESTON_COSINE, SM.HESTON_LIPTON]
HCONV = ['regular_forward', 'regular_spot', 'premium_adjusted_forward', 'premium_adjusted_spot']


def heston(m, rng):
    """Quotes generated by a Heston model at the last expiry, proportional before it."""
    box = {}
    def vols(M):
        t = M.taus[-1]
        F, q = forward(M, M.exp[-1]), zero(M.fc[1], M.exp[-1])
        v0 = rng.uniform(.08, .2) ** 2
        for _ in range(20):
            P = (v0, float(rng.uniform(.5, 1.2)) * math.sqrt(v0) * 2, 1.5, v0 * rng.uniform(.8, 1.3), float(rng.uniform(-.5, .5)))
            kv = [c19.strike_vol(F, t, q, P, d, conv) for d in M.deltas]
            if all(kv): break
        if not all(kv): return np.full((len(M.exp), len(M.deltas)), .1)
        v = np.array([x[1] for x in kv])
        box['v'] = v
        return np.array([v] * len(M.exp))
    conv = HCONV[int(rng.integers(4))]
    method = HMETH[m.index % len(HMETH)]
    M = market(rng, methods=[method], max_pillars=3, vols=vols)
    M.conv = [conv] * len(M.exp); M.quotes['delta_convention'] = conv
    if not .25 < M.taus[-1] < 3.5 or len(M.deltas) > 7 or not box: return
    m.case(**describe(M))
    if not admissible(M): return
    fft = method == SM.HESTON_CARR_MADAN_FFT_W_SIMPSONS
    s = m.call('surface', build, M)
    e = M.exp[-1]
    t, F, rd, rf, conv, v, Ks = smile(M, e)
    Q = [(e, K, 1 if d > 0 else -1) for K, d in zip(Ks, M.deltas)]
    o = np.asarray(ask(s, s.interp_vol_surface, Q, 'heston', m)['vol'], float)
    m.close(o, v, 'heston-fit', 0, 3e-3 if fft else 1e-3, lambda: dict(vols=v, K=Ks))
    flip = [(q[0], q[1], -q[2]) for q in Q][::-1]
    o2 = np.asarray(ask(s, s.interp_vol_surface, flip, 'heston', m)['vol'], float)[::-1]
    m.close(o2, o, 'heston-call-put', 0, 3e-3 if fft else 4e-4, lambda: dict(K=Ks))
    mid = [(e, .5 * (Ks[i] + Ks[i + 1]), 1) for i in range(len(Ks) - 1)]
    o3 = np.asarray(ask(s, s.interp_vol_surface, mid, 'heston', m)['vol'], float)
    m.ok((o3 > v.min() - .01) & (o3 < v.max() + .01), 'heston-between', lambda: dict(got=o3, vols=v))
    p = np.asarray(ask(s, s.price_vanilla_european, Q, 'heston', m)['price'], float)
    r = math.log(F / M.S) / t + rf
    X = [math.exp(-r * t) * refopt.black(F, q[1], x * math.sqrt(t), q[2]) for q, x in zip(Q, o)]
    m.close(p, X, 'heston-price', 1e-6, 2e-4 * M.S * math.sqrt(t))
    one = np.asarray(ask(s, s.interp_vol_surface, Q[:1], 'heston', m)['vol'], float)
    m.close(one, o[:1], 'heston-history', 1e-12)
    m.event('heston'); m.event(method.name); m.event('heston ' + conv)


SECTIONS = [Section('surface', surface, 260, 4000, ['one_volatility', 'flat_smiles', 'no_risk_reversal', 'level_term', 'whole_forwards', 'quotes_regular_spot', 'quotes_regular_forward', 'quotes_premium_adjusted_spot', 'quotes_premium_adjusted_forward', 'UNIVARIATE_SPLINE', 'CUBIC_SPLINE',
                                                   'between_expiries', 'mixed_conventions', 'queried', 'refused', 'quotes_3', 'quotes_4', 'form_spot', 'single_expiry']),
            Section('history', history, 120, 2000, ['history', 'requeried', 'methods_compared', 'whole_grid']),
            Section('heston', heston, 42, 420, ['heston', 'HESTON_1993', 'HESTON_LIPTON', 'HESTON_CARR_MADAN_GAUSS_KRONROD_QUADRATURE'])]
