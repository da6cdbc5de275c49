"""C12 swap-index projections: history before the curve date, curve after it, product of both across it."""
import datetime as dt
import numpy as np, pandas as pd
from frmmon import Section
import gen, refcurve
from refcurve import B, XM
from checks.c01 import ref_yf
from checks.c09 import want_rate
from checks.c11 import carried, ref_rate, table
from frm.enums import CompoundingFreq, TermRate, RFRFixingCalcMethod as RFR, PeriodFreq
from frm.term_structures.zero_curve import ZeroCurve
from frm.term_structures.historical_swap_index_fixings import RFRFixings, TermFixings
from frm.term_structures.swap_curve import RFRSwapCurve, TermSwapCurve

PROPERTY = 'C12'
ANCHORS = ['frm/term_structures/swap_curve.py', 'frm/term_structures/historical_swap_index_fixings.py', 'frm/term_structures/zero_curve.py']
RULE = ('random curve and fixing history meeting at the curve date x random period sets placed before, across, on and after the curve date '
        'in any order; every rate is recomputed from the day-by-day history and the reference curve; non-trivial = new history, curve and periods')
ASSUMPTIONS = ['Simple-average coupons of a straddling period are not judged.', 'Bases ACT/360, ACT/365, ACT/366.']
DPY = {B.ACT_360: 360, B.ACT_365: 365, B.ACT_366: 366}


def setup(m, rng):
    kw, ref, desc, pil = refcurve.make(rng, basis=gen.pick(rng, list(DPY)), max_years=6.0, date_lo=dt.date(2005, 1, 1), date_hi=dt.date(2040, 1, 1))
    if rng.integers(3):      # curve dates are normally weekdays
        pass
    n = int(gen.pick(rng, [40, 150, 420]))
    h, lvl = {}, rng.uniform(-0.005, 0.07)
    p = gen.pick(rng, [0.0, 0.05])
    for k in range(n, 0, -1):
        d = ref.date - dt.timedelta(k)
        if d.weekday() < 5 and (k > n - 4 or k < 8 or rng.random() >= p):
            lvl += rng.normal(0, .0006); h[d] = float(lvl)
    zc = m.call('ZeroCurve', ZeroCurve, **kw)
    return zc, ref, desc, h, kw


def period_set(rng, ref, h, n):
    span = (ref.max_date - ref.date).days - 3
    back = (ref.date - min(h)).days
    out = []
    for _ in range(n):
        k = int(rng.integers(6))
        if k == 0: a = -int(rng.integers(5, back + 1)); b = -int(rng.integers(0, -a - 3)) if a < -4 else 0     # past
        elif k == 1: a, b = -int(rng.integers(4, back + 1)), 0                                                   # ends on the curve date
        elif k in (2, 3): a, b = -int(rng.integers(4, back + 1)), int(rng.integers(1, min(span, 400)))          # straddles
        elif k == 4: a, b = 0, int(rng.integers(1, min(span, 400)))                                             # starts on the curve date
        else: a = int(rng.integers(1, span - 1)); b = int(rng.integers(a + 1, span + 1))                        # future
        if rng.integers(10) == 0 and a < 0: b = 1
        if rng.integers(10) == 0 and b > 0 and k in (2, 3): a = -4
        s, e = ref.date + dt.timedelta(a), ref.date + dt.timedelta(b)
        if not any(s <= d < min(e, ref.date) for d in h) and s < ref.date: continue
        out.append((s, e))
    return out or [(ref.date, ref.date + dt.timedelta(30 if span > 30 else 3))]


def wavg(ref, s, e):
    on = [want_rate(ref, TermRate.SIMPLE, s + dt.timedelta(k), s + dt.timedelta(k + 1)) for k in range((e - s).days)]
    return float(np.mean(on))


def savg(ref, s, e):
    ds = [s + dt.timedelta(k) for k in range((e - s).days)]
    bus = np.is_busday(np.array(ds, dtype='datetime64[D]'), busdaycal=ref.npcal)
    on = [want_rate(ref, TermRate.SIMPLE, d, d + dt.timedelta(1)) for d, b in zip(ds, bus) if b]
    return float(np.mean(on)) if on else float('nan')


def proj(ref, s, e, meth):
    if meth == RFR.DAILY_COMPOUNDED: return want_rate(ref, TermRate.SIMPLE, s, e)
    return wavg(ref, s, e) if meth == RFR.WEIGHTED_AVERAGE else savg(ref, s, e)


def rfr(m, rng):
    zc, ref, desc, h, kw = setup(m, rng)
    meth = gen.pick(rng, [RFR.DAILY_COMPOUNDED, RFR.DAILY_COMPOUNDED, RFR.WEIGHTED_AVERAGE, RFR.SIMPLE_AVERAGE])
    ps = period_set(rng, ref, h, int(gen.pick(rng, [1, 3, 8])))
    if meth == RFR.SIMPLE_AVERAGE: ps = [p for p in ps if not p[0] < ref.date < p[1]] or [(ref.date, ref.date + dt.timedelta(10))]
    if meth != RFR.DAILY_COMPOUNDED:
        ps = [p for p in ps if (p[1] - ref.date).days < 500] or [(ref.date, ref.date + dt.timedelta(10))]
    m.case(method=meth.name, periods=[[str(a), str(b)] for a, b in ps], fixings={str(k): v for k, v in list(h.items())[-30:]}, **desc)
    fx = m.call('RFRFixings', RFRFixings, fixings=table(rng, h, rng.integers(2)), day_count_basis=ref.basis)
    sc = m.call('RFRSwapCurve', RFRSwapCurve, zero_curve=zc, historical_fixings=fx)
    want = []
    for s, e in ps:
        if s >= ref.date: want.append(proj(ref, s, e, meth)); m.event('future')
        elif e <= ref.date: want.append(ref_rate(h, s, e, meth, DPY[ref.basis])); m.event('past')
        else:
            m.event('straddling')
            th, tf = [ref_yf(*x, ref.basis, False) for x in ((s, ref.date), (ref.date, e))]
            a, b = ref_rate(h, s, ref.date, meth, DPY[ref.basis]), proj(ref, ref.date, e, meth)
            want.append(((1 + a * th) * (1 + b * tf) - 1) / (th + tf) if meth == RFR.DAILY_COMPOUNDED else (a * th + b * tf) / (th + tf))
    S, E = pd.DatetimeIndex([gen.ts(p[0]) for p in ps]), pd.DatetimeIndex([gen.ts(p[1]) for p in ps])
    if meth == RFR.DAILY_COMPOUNDED and rng.integers(2): got = m.call('rfr', sc.get_fixings, S, E)
    else: got = m.call('rfr', sc.get_fixings, S, E, meth)
    m.close(got, want, 'rfr:' + meth.name, 1e-7, 1e-10, lambda: dict(periods=[[str(a), str(b)] for a, b in ps], curve_date=str(ref.date)))
    d = gen.ts(ref.date + dt.timedelta(int(rng.integers(0, (ref.max_date - ref.date).days - 2))))
    m.close(m.call('df', sc.get_discount_factors, d), np.exp(ref.ln_df(ref.t(d.date()))), 'discount-factors', 1e-9)


def term(m, rng):
    zc, ref, desc, h, kw = setup(m, rng)
    ps = period_set(rng, ref, h, int(gen.pick(rng, [1, 3, 8])))
    kind = gen.pick(rng, [TermRate.SIMPLE, TermRate.SIMPLE, TermRate.CONTINUOUS, TermRate.ANNUAL])
    ps = [p for p in ps if p[0] >= min(h)] or [(ref.date, ref.date + dt.timedelta(30))]
    m.case(kind=kind.name, periods=[[str(a), str(b)] for a, b in ps], **desc)
    fx = m.call('TermFixings', TermFixings, fixings=table(rng, h, rng.integers(2)), day_count_basis=ref.basis)
    sc = m.call('TermSwapCurve', TermSwapCurve, zero_curve=zc, historical_fixings=fx)
    want = [carried(h, s) if s < ref.date else want_rate(ref, kind, s, e) for s, e in ps]
    m.event('term_past', sum(s < ref.date for s, e in ps)); m.event('term_future', sum(s >= ref.date for s, e in ps))
    S, E = pd.DatetimeIndex([gen.ts(p[0]) for p in ps]), pd.DatetimeIndex([gen.ts(p[1]) for p in ps])
    a = () if kind == TermRate.SIMPLE and rng.integers(2) else (kind,)
    got = m.call('term', sc.get_fixings, S, E, PeriodFreq.QUARTERLY, *a)
    m.close(got, want, 'term:' + kind.name, 1e-7, 1e-10, lambda: dict(periods=[[str(a), str(b)] for a, b in ps], curve_date=str(ref.date)))


def refused(m, rng):
    zc, ref, desc, h, kw = setup(m, rng)
    t = table(rng, h, False)
    if rng.integers(2):
        # Any two different bases, those which only count the days of the month alike included
        mine = gen.pick(rng, list(B))
        zc = m.call('ZeroCurve', ZeroCurve, curve_date=pd.Timestamp(ref.date), pillar_df=pd.DataFrame({'years': [.25, .5, 1., 2., 3., 5.], 'zero_rate': [.03, .035, .04, .05, .05, .051]}),
                    compounding_freq=CompoundingFreq.CONTINUOUS, day_count_basis=mine)
        others = [b for b in B if b != mine]
        desc = {}
    else:
        mine, others = ref.basis, [gen.pick(rng, [b for b in DPY if b != ref.basis])]
    m.case(basis=mine.name, others=[b.name for b in others], **{k: v for k, v in desc.items() if k != 'basis'})
    m.call('same-basis', RFRSwapCurve, zero_curve=zc, historical_fixings=RFRFixings(fixings=t, day_count_basis=mine))
    m.call('same-basis', TermSwapCurve, zero_curve=zc, historical_fixings=TermFixings(fixings=t, day_count_basis=mine))
    for other in others:
        m.refuses('basis:rfr', RFRSwapCurve, zero_curve=zc, historical_fixings=RFRFixings(fixings=t, day_count_basis=other))
        m.refuses('basis:term', TermSwapCurve, zero_curve=zc, historical_fixings=TermFixings(fixings=t, day_count_basis=other))
        m.event('bases refused')


SECTIONS = [Section('rfr', rfr, 1000, 5000, ['future', 'past', 'straddling']), Section('term', term, 800, 4000, ['term_past', 'term_future']),
            Section('refused', refused, 120, 400, ['bases refused'])]
