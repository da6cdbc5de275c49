"""C08 zero curves against an independent reference curve."""
import datetime as dt
import numpy as np, pandas as pd
from frmmon import Section, CaseAbort
import gen, refcurve
from refcurve import IM, XM, COMP, rate_from_df
from frm.enums.utils import CompoundingFreq as CF
from frm.term_structures.zero_curve import ZeroCurve

PROPERTY = 'C08'
ANCHORS = ['frm/term_structures/zero_curve.py']
RULE = ('random curves: 1-12 pillars (as few as the interpolation is defined on) given by tenor, date, day count or year fraction and by zero rate (any compounding) or discount '
        'factor, with or without a row at t=0, rows in any order, six day-count bases, three interpolations, two extrapolations; each '
        'queried at pillars, between and outside them through dates, day counts and year fractions, scalar and vector; non-trivial = new curve')
ASSUMPTIONS = ['The zero rate at t=0 is not judged (0/0).', 'Splines: as many points as a cubic needs (four), boundary condition not-a-knot.']


def build(m, rng, **k):
    kw, ref, desc, pillars = refcurve.make(rng, **k)
    m.case(**desc)
    m.event('interp_' + ref.interp.name); m.event('x_' + ref.xkind); m.event('y_' + ref.ykind); m.event('extrap_' + ref.extrap.name)
    zc = m.call('ZeroCurve', ZeroCurve, **kw)
    return zc, ref, desc, pillars, kw


def near_end(ref, d):
    # the last date covered by year-fraction pillars sits on a float comparison
    return ref.xkind == 'years' and abs((d - ref.max_date).days) <= 2


def tol(ref):
    """Spline coefficients are solved for: pillars a week and ten years apart cost a few digits."""
    return 1e-10 if ref.interp == IM.LINEAR_ON_LN_DISCOUNT else 1e-8


SC = ['Timestamp', 'date', 'datetime', 'datetime64']


def scalar_date(d, k):
    return {'Timestamp': gen.ts(d), 'date': d, 'datetime': dt.datetime(d.year, d.month, d.day), 'datetime64': np.datetime64(d)}[k]


def pillars_(m, rng):
    zc, ref, desc, pil, kw = build(m, rng)
    for x, d, t, df, v in pil:
        if d is not None:
            got = m.call('df:date', zc.get_discount_factors, dates=scalar_date(d, gen.pick(rng, SC)))
            m.close(got, df, 'pillar:df:date', 1e-10, 1e-12, dict(pillar=str(d)))
            got = m.call('df:days', zc.get_discount_factors, days=(d - ref.date).days)
            m.close(got, df, 'pillar:df:days', 1e-10, 1e-12, dict(pillar=str(d)))
            if ref.ykind == 'zero_rate':
                got = m.call('zr:date', zc.get_zero_rates, compounding_freq=ref.comp, dates=gen.ts(d))
                m.close(got, v, 'pillar:rate:date', 1e-9, 1e-9 / max(t, .02), dict(pillar=str(d)))
        tt = min(t, ref.max_t)
        got = m.call('df:years', zc.get_discount_factors, years=tt)
        m.close(got, df, 'pillar:df:years', 1e-10, 1e-12, dict(pillar=str(x)))
        m.ok(isinstance(got, float), 'scalar-not-float', dict(type=str(type(got))))
        if ref.ykind == 'zero_rate':
            got = m.call('zr:years', zc.get_zero_rates, compounding_freq=ref.comp, years=tt)
            m.close(got, v, 'pillar:rate:years', 1e-9, 1e-9 / max(t, .02), dict(pillar=str(x)))
    ts = np.array([min(p[2], ref.max_t) for p in pil])
    got = m.call('df:years', zc.get_discount_factors, years=ts)
    m.close(got, [p[3] for p in pil], 'pillar:df:years:vector', 1e-10, 1e-12)
    m.close(m.call('df:0', zc.get_discount_factors, dates=kw['curve_date']), 1.0, 'df:curve-date', 0, 1e-12)
    m.close(m.call('df:0', zc.get_discount_factors, years=0.0), 1.0, 'df:years0', 0, 1e-12)
    pf = zc.pillar_df
    m.close(pf['discount_factor'].to_numpy(float), [1.0] + [p[3] for p in pil], 'pillar_df:discount_factor', 1e-10)
    m.close(pf['years'].to_numpy(float), [0.0] + [p[2] for p in pil], 'pillar_df:years', 1e-10)
    m.close(pf['cczr'].to_numpy(float)[1:], [-np.log(p[3]) / p[2] for p in pil], 'pillar_df:cczr', 1e-9, 1e-10)


def qdates(rng, ref, n, out):
    span = (ref.max_date - ref.date).days
    lo, hi = (-40, span + 400) if out else (0, span)
    ds = [ref.date + dt.timedelta(int(k)) for k in rng.integers(lo, hi + 1, n)]
    if out and n > 4:
        ds[int(rng.integers(n))] = ref.max_date + dt.timedelta(int(rng.integers(3, 30)))
        ds[int(rng.integers(n))] = ref.date - dt.timedelta(int(rng.integers(1, 30)))
    if rng.integers(2): ds[int(rng.integers(n))] = ds[int(rng.integers(n))]
    ds = [d for d in ds if not near_end(ref, d)]
    if not ds: ds = [ref.date]
    if rng.integers(3) == 0: ds.sort()
    return ds


def contain(ds, k):
    l = [gen.ts(d) for d in ds]
    return {'series': pd.Series(l, index=np.arange(len(l))[::-1] + 3), 'index': pd.DatetimeIndex(l), 'array': np.array(l, dtype='datetime64[ns]')}[k]


def want_zr(ref, comp, ds):
    out = []
    for d in ds:
        e = ref.d_eff(d)
        if e is None: out.append(np.nan); continue
        t = ref.t(e)
        out.append(np.nan if t <= 0 else rate_from_df(comp, float(np.exp(ref.ln_df(t))), t))
    return out


def judge_zr(m, got, want, ts, key, w=None):
    got, want, ts = np.asarray(got, float), np.asarray(want, float), np.asarray(ts, float)
    if not m.ok(got.shape == want.shape, key + ':shape', dict(got=got.shape, want=want.shape)): return
    k = ~(ts <= 1e-12) | np.isnan(ts)       # not judged at t = 0
    k &= ~((np.nan_to_num(ts, nan=1) > 0) & (np.nan_to_num(ts, nan=1) < 1e-5))
    m.close(got[k], want[k], key, 1e-8, 1e-11 / max(1e-3, np.nanmin(np.r_[ts[k], 1.0])) + 1e-10, w)


def by_date(m, rng):
    zc, ref, desc, pil, kw = build(m, rng)
    out = bool(rng.integers(2))
    ds = qdates(rng, ref, int(gen.pick(rng, [1, 2, 7, 25])), out)
    kind = gen.pick(rng, ['series', 'index', 'array'])
    W = dict(query=[str(d) for d in ds], container=kind, max_date=str(ref.max_date))
    q = contain(ds, kind)
    want = [ref.df_d(d) for d in ds]
    if any(ref.d_eff(d) != d for d in ds): m.event('outside_' + ref.extrap.name)
    got = m.call('df:dates', zc.get_discount_factors, dates=q)
    m.close(got, want, 'df:dates', tol(ref), 1e-12, W)
    comp = gen.pick(rng, COMP)
    got = m.call('zr:dates', zc.get_zero_rates, compounding_freq=comp, dates=q)
    te = [np.nan if ref.d_eff(d) is None else ref.t(ref.d_eff(d)) for d in ds]
    judge_zr(m, got, want_zr(ref, comp, ds), te, 'zr:dates', dict(W, comp=comp.name))
    days = [(d - ref.date).days for d in ds]
    dq = gen.pick(rng, [pd.Series(days, index=np.arange(len(days)) + 2), np.array(days)])
    got = m.call('df:days', zc.get_discount_factors, days=dq)
    m.close(got, want, 'df:days:vector', tol(ref), 1e-12, W)
    i = int(rng.integers(len(ds)))
    got = m.call('df:date1', zc.get_discount_factors, dates=scalar_date(ds[i], gen.pick(rng, SC)))
    m.close(got, want[i], 'df:date:scalar', tol(ref), 1e-12, W)
    m.ok(isinstance(got, float), 'scalar-not-float', dict(type=str(type(got))))
    got = m.call('df:days1', zc.get_discount_factors, days=gen.pick(rng, [int, np.int64])(days[i]))
    m.close(got, want[i], 'df:days:scalar', tol(ref), 1e-12, W)
    m.event('query_elements', len(ds))


def by_years(m, rng):
    zc, ref, desc, pil, kw = build(m, rng)
    out = bool(rng.integers(2))
    n = int(gen.pick(rng, [1, 2, 8, 30]))
    ts = rng.uniform(-0.2 if out else 1e-4, ref.max_t * (1.3 if out else 0.999999), n)
    ts = np.where(np.abs(ts - ref.max_t) < 0.02, ref.max_t * .9, ts)
    if rng.integers(3) == 0: ts = np.sort(ts)
    W = dict(query=ts.tolist(), max_t=ref.max_t)
    want = [ref.df_t(t) for t in ts]
    if any(not 0 <= t <= ref.max_t for t in ts): m.event('outside_years_' + ref.extrap.name)
    q = gen.pick(rng, [ts, pd.Series(ts, index=np.arange(n) + 4), list(ts)])
    got = m.call('df:years', zc.get_discount_factors, years=q)
    m.close(got, want, 'df:years:vector', tol(ref), 1e-12, W)
    comp = gen.pick(rng, COMP)
    got = m.call('zr:years', zc.get_zero_rates, compounding_freq=comp, years=q)
    te = np.array([ref.t_eff(t) for t in ts])
    judge_zr(m, got, [np.nan if not t > 0 else rate_from_df(comp, float(np.exp(ref.ln_df(t))), t) for t in te], te, 'zr:years', dict(W, comp=comp.name))
    i = int(rng.integers(n))
    got = m.call('df:years1', zc.get_discount_factors, years=float(ts[i]))
    m.close(got, want[i], 'df:years:scalar', tol(ref), 1e-12, W)
    # a date and its own year fraction are the same point
    d = qdates(rng, ref, 1, False)[0]
    a, b = m.call('df', zc.get_discount_factors, dates=gen.ts(d)), m.call('df', zc.get_discount_factors, years=min(ref.t(d), ref.max_t))
    m.close(a, b, 'date-vs-years', tol(ref), 1e-12, dict(date=str(d)))


def twins(m, rng):
    """The same curve from equivalent inputs: zero rates vs discount factors, any row order, dates vs day counts."""
    kw, ref, desc, pil = refcurve.make(rng, xkind=gen.pick(rng, ['date', 'days']), ykind='discount_factor', t0=False)
    m.case(**desc)
    zc = m.call('ZeroCurve', ZeroCurve, **kw)
    comp = gen.pick(rng, COMP)
    pdf = pd.DataFrame({'days': [(p[1] - ref.date).days for p in pil], 'zero_rate': [rate_from_df(comp, p[3], p[2]) for p in pil]})
    pdf = pdf.iloc[rng.permutation(len(pdf))]
    z2 = m.call('ZeroCurve', ZeroCurve, **dict(kw, pillar_df=pdf, compounding_freq=comp))
    ds = qdates(rng, ref, 20, True)
    a, b = [m.call('df', z.get_discount_factors, dates=contain(ds, 'index')) for z in (zc, z2)]
    m.close(a, b, 'twin:df', 1e-8, 1e-12, dict(comp=comp.name, query=[str(d) for d in ds]))
    a, b = [np.asarray(m.call('zr', z.get_zero_rates, compounding_freq=CF.CONTINUOUS, dates=contain(ds, 'index'))) for z in (zc, z2)]
    te = [np.nan if ref.d_eff(d) is None else ref.t(ref.d_eff(d)) for d in ds]
    judge_zr(m, a, b, te, 'twin:zr')


def refused(m, rng):
    kw, ref, desc, pil = refcurve.make(rng, xkind='date', ykind='zero_rate')
    bad = gen.pick(rng, ['no_comp', 'three_cols', 'no_x', 'no_y', 'two_args', 'no_args'])
    m.case(bad=bad, **desc)
    pdf = kw['pillar_df']
    if bad == 'no_comp': m.refuses('no_comp', ZeroCurve, **{k: v for k, v in kw.items() if k != 'compounding_freq'})
    elif bad == 'three_cols': m.refuses('three_cols', ZeroCurve, **dict(kw, pillar_df=pdf.assign(discount_factor=.9)))
    elif bad == 'no_x': m.refuses('no_x', ZeroCurve, **dict(kw, pillar_df=pdf.rename(columns={'date': 'foo'})))
    elif bad == 'no_y': m.refuses('no_y', ZeroCurve, **dict(kw, pillar_df=pdf.rename(columns={'zero_rate': 'foo'})))
    else:
        zc = m.call('ZeroCurve', ZeroCurve, **kw)
        if bad == 'two_args': m.refuses('two_args', zc.get_discount_factors, dates=kw['curve_date'], years=.5)
        else: m.refuses('no_args', zc.get_discount_factors)


REQ = ['interp_' + i.name for i in IM] + ['x_tenor', 'x_date', 'x_days', 'x_years', 'y_zero_rate', 'y_discount_factor']
SECTIONS = [Section('pillars', pillars_, 500, 6000, REQ),
            Section('by_date', by_date, 700, 9000, ['outside_NONE', 'outside_FLAT']),
            Section('by_years', by_years, 700, 9000, ['outside_years_NONE', 'outside_years_FLAT']),
            Section('twins', twins, 300, 3000), Section('refused', refused, 60, 200)]
