"""C11 historical fixings: coupon rates from an independent day-by-day accrual."""
import datetime as dt
import numpy as np, pandas as pd
from frmmon import Section
import gen
from frm.enums import DayCountBasis as B, RFRFixingCalcMethod as RFR
from frm.term_structures.historical_swap_index_fixings import RFRFixings, TermFixings

PROPERTY = 'C11'
ANCHORS = ['frm/term_structures/historical_swap_index_fixings.py']
RULE = ('random fixing histories (weekends, holidays, missing days, shuffled rows, negative rates) x accrual periods with ends on any '
        'weekday; every day of every period is accrued independently; non-trivial = new history and period set')
ASSUMPTIONS = ['Every accrual period contains at least one fixing.', 'Bases ACT/360, ACT/365, ACT/366.']
DPY = {B.ACT_360: 360, B.ACT_365: 365, B.ACT_366: 366}


def history(rng, days=None):
    d0 = gen.date(rng, dt.date(2000, 1, 1), dt.date(2040, 1, 1))
    n = days or int(gen.pick(rng, [20, 60, 200, 500]))
    p = gen.pick(rng, [0.0, 0.03, 0.15])
    ds = [d0 + dt.timedelta(k) for k in range(n)]
    pub = [d for d in ds if d.weekday() < 5 and rng.random() >= p]
    if rng.integers(4) == 0:   # a long holiday
        k = int(rng.integers(len(pub))); pub = pub[:k] + pub[k + int(rng.integers(1, 6)):]
    if len(pub) < 5: pub = [d for d in ds if d.weekday() < 5]
    lvl = rng.uniform(-0.01, 0.08)
    r = lvl + np.cumsum(rng.normal(0, 0.0007, len(pub)))
    if rng.integers(4) == 0: r[rng.integers(len(r))] += 0.02      # a spike
    if rng.integers(2): r = np.round(r * 400) / 400               # a policy rate: the same fixing for days on end, some of them zero
    return {d: float(x) for d, x in zip(pub, r)}


def table(rng, h, shuffle):
    ds = list(h)
    o = rng.permutation(len(ds)) if shuffle else np.arange(len(ds))
    df = pd.DataFrame({'date': [gen.ts(ds[i]) for i in o], 'fixing': [h[ds[i]] for i in o]})
    return df[['fixing', 'date']] if rng.integers(3) == 0 else df


def carried(h, d):
    while d not in h: d -= dt.timedelta(1)
    return h[d]


def ref_rate(h, s, e, method, dpy):
    days = [s + dt.timedelta(k) for k in range((e - s).days)]
    if method == RFR.SIMPLE_AVERAGE: return float(np.mean([h[d] for d in days if d in h]))
    f = [carried(h, d) for d in days]
    if method == RFR.WEIGHTED_AVERAGE: return float(np.mean(f))
    g = 1.0
    for x in f: g *= 1 + x / dpy
    return (g - 1) * dpy / len(days)


def last_covered(h):
    d = max(h)
    n = d + dt.timedelta(1)
    while n.weekday() >= 5: n += dt.timedelta(1)
    return n        # first day not covered by the history


def periods(rng, h, n):
    lo, hi = min(h), last_covered(h)
    out = []
    for _ in range(n):
        for _ in range(50):
            a = lo + dt.timedelta(int(rng.integers(0, (hi - lo).days)))
            b = a + dt.timedelta(int(gen.pick(rng, [1, 2, 5, 7, 30, 91, 182, 365])))
            if rng.integers(5) == 0: a = lo
            if rng.integers(5) == 0: b = hi
            if out and rng.integers(2): a = out[-1][1]; b = max(b, a + dt.timedelta(3))
            b = min(b, hi)
            if a < b and any(a <= d < b for d in h): out.append((a, b)); break
    return out or [(lo, hi)]


def rfr(m, rng):
    h = history(rng)
    basis = gen.pick(rng, list(DPY))
    df = table(rng, h, rng.integers(2))
    before = df.copy()
    ps = periods(rng, h, int(gen.pick(rng, [1, 2, 5, 12])))
    m.case(n=len(h), first=str(min(h)), last=str(max(h)), basis=basis.name, periods=[[str(a), str(b)] for a, b in ps], fixings=list(h.values())[:20])
    f = m.call('RFRFixings', RFRFixings, fixings=df, day_count_basis=basis)
    S, E = pd.DatetimeIndex([gen.ts(p[0]) for p in ps]), pd.DatetimeIndex([gen.ts(p[1]) for p in ps])
    if rng.integers(3) == 0: S, E = pd.Series(S), pd.Series(E)
    W = lambda: dict(periods=[[str(a), str(b)] for a, b in ps], fixings={str(k): v for k, v in h.items()})
    for meth in RFR:
        want = [ref_rate(h, a, b, meth, DPY[basis]) for a, b in ps]
        got = m.call('coupon:' + meth.name, f.get_coupon_rates, S, E, meth)
        m.close(got, want, 'coupon:' + meth.name, 1e-9, 1e-12, W)
        m.event(meth.name, len(ps))
        one = m.call('coupon1:' + meth.name, f.get_coupon_rates, S[:1], E[:1], meth)
        m.close(one, want[:1], 'coupon:first-alone:' + meth.name, 1e-9, 1e-12, W)
    m.event('accrual_days', sum((b - a).days for a, b in ps))
    m.event('period_starts_on_non_publication_day', sum(a not in h for a, b in ps))
    m.event('period_ends_after_last_fixing', sum(b > max(h) + dt.timedelta(1) for a, b in ps))
    m.ok(before.equals(df), 'caller-data-altered')
    # additivity: growth over adjacent periods multiplies, weighted averages average
    a, b = max(ps, key=lambda p: p[1] - p[0])
    n = (b - a).days
    if n >= 4:
        c = a + dt.timedelta(int(rng.integers(1, n)))
        idx = lambda *d: pd.DatetimeIndex([gen.ts(x) for x in d])
        if any(a <= d < c for d in h) and any(c <= d < b for d in h):
            r = m.call('split', f.get_coupon_rates, idx(a, c, a), idx(c, b, b), RFR.DAILY_COMPOUNDED)
            dpy = DPY[basis]
            m.close((1 + r[0] * (c - a).days / dpy) * (1 + r[1] * (b - c).days / dpy), 1 + r[2] * n / dpy, 'split:compounded', 1e-11)
            r = m.call('split', f.get_coupon_rates, idx(a, c, a), idx(c, b, b), RFR.WEIGHTED_AVERAGE)
            m.close(r[0] * (c - a).days + r[1] * (b - c).days, r[2] * n, 'split:weighted', 1e-9, 1e-11)


def refused(m, rng):
    h = history(rng)
    f = RFRFixings(fixings=table(rng, h, False), day_count_basis=B.ACT_360)
    lo, hi = min(h), last_covered(h)
    k = gen.pick(rng, ['late', 'early', 'method', 'columns', 'basis', 'late_one_of_many', 'early_one_of_many', 'all_late'])
    meth = gen.pick(rng, list(RFR))
    idx = lambda *d: pd.DatetimeIndex([gen.ts(x) for x in d])
    m.case(kind=k, first=str(lo), last=str(hi), method=meth.name)
    late = hi + dt.timedelta(int(gen.pick(rng, [1, rng.integers(1, 4), rng.integers(1, 20)])))
    if k == 'late': m.refuses('late', f.get_coupon_rates, idx(lo), idx(late), meth)
    elif k == 'early': m.refuses('early', f.get_coupon_rates, idx(lo - dt.timedelta(int(rng.integers(1, 20)))), idx(hi), meth)
    elif k == 'late_one_of_many': m.refuses('late', f.get_coupon_rates, idx(lo, lo, lo), idx(hi, late, hi), meth)
    elif k == 'early_one_of_many': m.refuses('early', f.get_coupon_rates, idx(lo, lo - dt.timedelta(int(gen.pick(rng, [1, 5]))), lo), idx(hi, hi, hi), meth)
    elif k == 'all_late': m.refuses('late', f.get_coupon_rates, idx(late), idx(late + dt.timedelta(1)), meth)
    elif k == 'method': m.refuses('method', f.get_coupon_rates, idx(lo), idx(hi), 'nonsense')
    elif k == 'columns': m.refuses('columns', RFRFixings, fixings=f.fixings.rename(columns={'fixing': 'rate'}), day_count_basis=B.ACT_360)
    else: m.refuses('basis', RFRFixings, fixings=f.fixings, day_count_basis='ACT/360')


def term(m, rng):
    h = history(rng)
    df = table(rng, h, rng.integers(2))
    before = df.copy()
    f = m.call('TermFixings', TermFixings, fixings=df, day_count_basis=gen.pick(rng, list(B)))
    ds = list(h)
    q = []
    for _ in range(int(gen.pick(rng, [1, 3, 15]))):
        q.append(gen.pick(rng, ds) if rng.integers(3) else min(h) + dt.timedelta(int(rng.integers(-5, 520))))
    m.case(n=len(h), first=str(min(h)), last=str(max(h)), query=[str(d) for d in q])
    want = [np.nan if d < min(h) else carried(h, d) for d in q]
    Q = pd.DatetimeIndex([gen.ts(d) for d in q])
    if rng.integers(4) == 0: Q = pd.Series(Q, index=np.arange(len(Q)))
    got = m.call('term', f.index_historical_fixings, Q)
    m.close(got, want, 'term', 0, 1e-15, dict(query=[str(d) for d in q]))
    m.ok(before.equals(df), 'caller-data-altered')
    m.event('term_published', sum(d in h for d in q)); m.event('term_not_published', sum(d not in h for d in q))


SECTIONS = [Section('rfr', rfr, 1000, 6000, ['accrual_days', 'period_starts_on_non_publication_day', 'period_ends_after_last_fixing']),
            Section('refused', refused, 800, 4000), Section('term', term, 1000, 5000, ['term_published', 'term_not_published'])]
