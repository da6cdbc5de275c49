"""Independent reference zero curve, and a generator of random curves in every input form ZeroCurve accepts."""
import calendar, datetime as dt
import numpy as np, pandas as pd
from scipy.interpolate import CubicSpline
import gen
from checks.c01 import ref_yf
from frm.enums.utils import DayCountBasis as B, CompoundingFreq as CF
import frm.enums as enums
IM = enums.ZeroCurveInterpMethod
XM = enums.ZeroCurveExtrapMethod

BASES = [B.ACT_360, B.ACT_365, B.ACT_ACT, B.ACT_366, B._30_360, B._30E_360]
COMP = list(CF)
PPY = {'annual': 1, 'semiannual': 2, 'quarterly': 4, 'monthly': 12, 'weekly': 52, 'daily': 365}


def df_from_rate(comp, r, t):
    if comp == CF.CONTINUOUS: return float(np.exp(-r * t))
    if comp == CF.SIMPLE: return 1.0 / (1.0 + r * t)
    n = PPY[comp.name.lower()]
    return float((1.0 + r / n) ** (-n * t))


def rate_from_df(comp, df, t):
    if comp == CF.CONTINUOUS: return -np.log(df) / t
    if comp == CF.SIMPLE: return (1.0 / df - 1.0) / t
    n = PPY[comp.name.lower()]
    return n * (df ** (-1.0 / (n * t)) - 1.0)


class RefCurve:
    """ts, dfs: pillars with t > 0; r0: zero rate given at t = 0, if any (only the spline on zero rates uses it)."""

    def __init__(self, date, basis, interp, extrap, ts, dfs, max_date, max_t, r0=None):
        self.date, self.basis, self.interp, self.extrap = date, basis, interp, extrap
        self.ts, self.ln = np.array(ts, float), np.log(np.array(dfs, float))
        self.max_date, self.max_t = max_date, max_t
        x0, y0 = np.r_[0.0, self.ts], np.r_[0.0, self.ln]
        if interp == IM.CUBIC_SPLINE_ON_LN_DISCOUNT:
            self.sp = CubicSpline(x0, y0, bc_type='not-a-knot')
        elif interp == IM.CUBIC_SPLINE_ON_CCZR:
            z = -self.ln / self.ts
            if r0 is not None:
                self.sp = CubicSpline(x0, np.r_[r0, z], bc_type='not-a-knot')
            else:
                self.sp = CubicSpline(self.ts, z, bc_type='not-a-knot')
        self.x0, self.y0 = x0, y0

    def ln_df(self, t):
        if self.interp == IM.LINEAR_ON_LN_DISCOUNT:
            if t >= self.x0[-1]: return float(self.y0[-1])
            i = int(np.searchsorted(self.x0, t, side='right')) - 1
            w = (t - self.x0[i]) / (self.x0[i + 1] - self.x0[i])
            return float(self.y0[i] * (1 - w) + self.y0[i + 1] * w)
        if self.interp == IM.CUBIC_SPLINE_ON_LN_DISCOUNT: return float(self.sp(t))
        return float(-self.sp(t) * t)

    def t(self, d):
        return ref_yf(self.date, d, self.basis, False)

    def t_eff(self, t):
        """The term whose values a query at t gets (nan: no value)."""
        if 0 <= t <= self.max_t + 1e-9: return t
        return float(min(max(t, 0.0), self.max_t)) if self.extrap == XM.FLAT else float('nan')

    def d_eff(self, d):
        if self.date <= d <= self.max_date: return d
        return min(max(d, self.date), self.max_date) if self.extrap == XM.FLAT else None

    def df_t(self, t):
        t = self.t_eff(t)
        return float('nan') if np.isnan(t) else float(np.exp(self.ln_df(t)))

    def df_d(self, d):
        d = self.d_eff(d)
        return float('nan') if d is None else float(np.exp(self.ln_df(self.t(d))))


def rates(rng, n):
    """Smooth-ish zero rate curves: positive, negative, humped, steep."""
    lvl = rng.uniform(-0.01, 0.09)
    x = np.linspace(0, 1, n)
    k = rng.integers(12)
    if k <= 1: return np.full(n, 0.0 if k else round(lvl, 3))       # a flat curve
    if k == 2: lvl = rng.uniform(.1, .45)
    r = lvl + rng.uniform(-0.03, 0.03) * x + rng.uniform(-0.02, 0.02) * np.exp(-3 * x) + rng.normal(0, 0.0008, n)
    return np.round(r * 200) / 200 if k == 3 else r       # whole half per cents, with plateaus


TEN = ['1w', '2w', '1m', '2m', '3m', '6m', '9m', '1y', '18m', '2y', '3y', '4y', '5y', '7y', '10y', '12y', '20y', '30y']


def tenor_date(d, ten):
    n, u = int(ten[:-1]), ten[-1]
    return d + dt.timedelta(7 * n) if u == 'w' else gen.add_months(d, n * (12 if u == 'y' else 1))


def make(rng, interp=None, basis=None, extrap=None, xkind=None, ykind=None, comp=None, max_years=12.0, t0=None, small=True,
         date_lo=dt.date(2000, 1, 1), date_hi=dt.date(2060, 1, 1)):
    """Returns (kwargs for ZeroCurve, RefCurve, description, pillars) with pillars = list of (x, date or None, t, df, given value)."""
    if max_years == 12.0 and rng.integers(10) == 0: max_years = 50.0
    interp = interp or gen.pick(rng, list(IM))
    basis = basis or gen.pick(rng, BASES)
    extrap = extrap or gen.pick(rng, [XM.NONE, XM.FLAT])
    xkind = xkind or gen.pick(rng, ['tenor', 'date', 'days', 'years'])
    ykind = ykind or gen.pick(rng, ['zero_rate', 'discount_factor'])
    comp = comp or gen.pick(rng, COMP)
    t0_asked = t0
    t0 = (rng.integers(4) == 0) if t0 is None else t0
    d0 = gen.date(rng, date_lo, date_hi)
    if basis in (B._30_360, B._30E_360) and d0.day > 28: d0 = d0.replace(day=28)
    nmin = {IM.LINEAR_ON_LN_DISCOUNT: 1, IM.CUBIC_SPLINE_ON_LN_DISCOUNT: 3, IM.CUBIC_SPLINE_ON_CCZR: 4}[interp]   # fewest pillars the method is defined on
    n = int(rng.integers(nmin, 5) if small and rng.integers(6) == 0 else rng.integers(5, 12))
    hol = [d0 + dt.timedelta(int(k)) for k in rng.integers(1, 4400, 200)]
    npcal = np.busdaycalendar(holidays=[np.datetime64(h) for h in hol])
    soon = xkind != 'tenor' and rng.integers(8) == 0      # a first pillar one or two days out
    if xkind == 'tenor':
        idx = np.sort(rng.choice(len(TEN), min(n, len(TEN)), replace=False))
        xs = [TEN[i] for i in idx]
        dates = [pd.Timestamp(np.busday_offset(np.datetime64(tenor_date(d0, x)), 0, roll='following', busdaycal=npcal)).date() for x in xs]
        keep = [i for i in range(len(xs)) if i == 0 or dates[i] > dates[i - 1]]
        xs, dates = [xs[i] for i in keep], [dates[i] for i in keep]
        t0 = False
    elif xkind in ('date', 'days'):
        span = int(rng.uniform(0.5, max_years) * 365)
        gaps = np.sort(rng.choice(np.arange(3, span, 2 if basis not in (B._30_360, B._30E_360) else 5), n, replace=False))
        if soon and n > 1: gaps[0] = int(rng.integers(1, 3))
        dates = [d0 + dt.timedelta(int(g)) for g in gaps]
        xs = dates if xkind == 'date' else [int(g) for g in gaps]
    else:
        span = rng.uniform(0.5, max_years)
        xs = np.sort(rng.choice(np.arange(1, 400), n, replace=False)) * span / 400
        if rng.integers(2): xs = np.unique(np.maximum(np.round(xs * 4) / 4, 0.25))
        while len(xs) < min(n, 5): xs = np.r_[xs, xs[-1] + 0.5]
        xs = [float(x) for x in xs]
        if soon and n > 1: xs[0] = int(rng.integers(1, 3)) / 365
        dates = [None] * len(xs)
    ts = [ref_yf(d0, d, basis, False) if d else x for d, x in zip(dates, xs)]
    n = len(xs)
    r = rates(rng, n)
    if soon and n > 1: r[0] = r[1]
    if ykind == 'zero_rate':
        if comp == CF.SIMPLE: r = np.maximum(r, -.6 / np.array(ts, float))       # simple interest on a long negative rate has no discount factor
        vals = [float(v) for v in r]
        dfs = [df_from_rate(comp, v, t) for v, t in zip(vals, ts)]
    else:
        dfs = [float(np.exp(-v * t)) for v, t in zip(r, ts)]
        vals = list(dfs)
    r0 = None
    X, Y = list(xs), list(vals)
    if t0:
        X = [d0 if xkind == 'date' else 0 if xkind == 'days' else 0.0] + X
        if ykind == 'zero_rate':
            r0 = vals[0] + float(rng.normal(0, 0.002))
            Y = [r0] + Y
        else:
            Y = [1.0] + Y
    r0c = None
    if r0 is not None:
        nper = PPY.get(comp.name.lower())
        r0c = r0 if comp in (CF.CONTINUOUS, CF.SIMPLE) else nper * np.log1p(r0 / nper)
    if xkind == 'date': X = [gen.ts(d) for d in X]
    order = rng.permutation(len(X)) if rng.integers(2) else np.arange(len(X))
    if xkind == 'tenor':
        X = [x.upper() if rng.integers(2) else x for x in X]
    pdf = pd.DataFrame({xkind: [X[i] for i in order], ykind: [Y[i] for i in order]})
    if rng.integers(2): pdf.index = range(10, 10 + len(pdf))
    if dates[-1] is not None:
        max_date, max_t = dates[-1], ts[-1]
    else:
        # a curve on year fractions covers the dates up to the anniversary of its last whole year, or the last date
        # within the last pillar if later
        max_t = xs[-1]
        max_date = gen.add_months(d0, 12 * int(max_t))
        while ref_yf(d0, max_date, basis, False) < int(max_t): max_date += dt.timedelta(1)
        while ref_yf(d0, max_date + dt.timedelta(1), basis, False) <= max_t: max_date += dt.timedelta(1)
        max_t = max(max_t, ref_yf(d0, max_date, basis, False))
    ref = RefCurve(d0, basis, interp, extrap, ts, dfs, max_date, max_t, r0c)
    if n < 5 and interp != IM.LINEAR_ON_LN_DISCOUNT and np.max(np.abs([ref.ln_df(t) for t in np.linspace(0, ts[-1], 60)])) > 4:
        return make(rng, interp, basis, extrap, xkind, ykind, comp, max_years, t0_asked, small, date_lo, date_hi)   # a wild spline through close pillars
    kw = dict(curve_date=gen.ts(d0), pillar_df=pdf, day_count_basis=basis, cal=npcal, interp_method=interp, extrap_method=extrap)
    if ykind == 'zero_rate': kw['compounding_freq'] = comp
    desc = dict(curve_date=str(d0), basis=basis.name, interp=interp.name, extrap=extrap.name, x=xkind, y=ykind,
                comp=comp.name if ykind == 'zero_rate' else None, t0=bool(t0), X=[str(x) for x in X], Y=Y, order=[int(i) for i in order])
    ref.npcal, ref.comp, ref.ykind, ref.xkind = npcal, comp, ykind, xkind
    return kw, ref, desc, list(zip(xs, dates, ts, dfs, vals))
