"""C09 forward rates against the discount factors of an independent reference curve."""
import datetime as dt
import numpy as np, pandas as pd
from frmmon import Section
import gen, refcurve
from refcurve import IM, XM, B
from checks.c01 import ref_yf
from checks.c08 import contain, scalar_date, SC
from frm.enums import TermRate, RFRFixingCalcMethod as RFR
from frm.term_structures.zero_curve import ZeroCurve

PROPERTY = 'C09'
ANCHORS = ['frm/term_structures/zero_curve.py']
RULE = ('random curves (as C08) x random period sets inside the curve (unsorted, overlapping, one day to years) x every forward convention; '
        'non-trivial = new curve and period set')
ASSUMPTIONS = ['Periods are not empty and lie inside the curve.', 'Averaged overnight forwards are judged on actual-day bases.']


def build(m, rng, **k):
    kw, ref, desc, pil = refcurve.make(rng, **k)
    zc = m.call('ZeroCurve', ZeroCurve, **kw)
    return zc, ref, desc


def periods(rng, ref, n, maxlen=None):
    span = (ref.max_date - ref.date).days - 3
    out = []
    for _ in range(n):
        a = int(rng.integers(0, span))
        L = int(gen.pick(rng, [1, 2, 3, 7, 30, 91, 182, 365, 800]))
        if maxlen: L = min(L, maxlen)
        b = min(a + L, span)
        if rng.integers(8) == 0: a = 0
        if b <= a: a = b - 1
        if rng.integers(2) and n > 1 and out: a = (out[-1][1] - ref.date).days; b = min(a + L, span)
        if b <= a: a, b = span - 1, span
        s, e = ref.date + dt.timedelta(a), ref.date + dt.timedelta(b)
        if ref_yf(s, e, ref.basis, False) <= 0 or ref.t(e) - ref.t(s) <= 0: s, e = ref.date, ref.date + dt.timedelta(35 if span > 40 else 3)
        out.append((s, e))
    return out


def want_rate(ref, kind, s, e):
    tau = ref_yf(s, e, ref.basis, False)
    g = np.exp(ref.ln_df(ref.t(s)) - ref.ln_df(ref.t(e)))
    if kind in (TermRate.SIMPLE, RFR.DAILY_COMPOUNDED): return (g - 1) / tau
    if kind == TermRate.CONTINUOUS: return np.log(g) / tau
    return g ** (1 / tau) - 1


def term(m, rng):
    zc, ref, desc = build(m, rng)
    ps = periods(rng, ref, int(gen.pick(rng, [1, 2, 6, 20])))
    m.case(periods=[[str(a), str(b)] for a, b in ps], **desc)
    S, E = [p[0] for p in ps], [p[1] for p in ps]
    for kind in (TermRate.SIMPLE, TermRate.CONTINUOUS, TermRate.ANNUAL, RFR.DAILY_COMPOUNDED):
        want = [want_rate(ref, kind, s, e) for s, e in ps]
        if len(ps) == 1 and rng.integers(2):
            k = gen.pick(rng, SC)
            got = m.call('fwd', zc.get_forward_rates, scalar_date(S[0], k), scalar_date(E[0], k), kind)
        else:
            k = gen.pick(rng, ['series', 'index'])
            got = m.call('fwd', zc.get_forward_rates, contain(S, k), contain(E, gen.pick(rng, ['series', 'index'])), kind)
        tau = min(ref_yf(s, e, ref.basis, False) for s, e in ps)
        m.close(got, want, 'forward:' + kind.name, 1e-8, 1e-12 / tau, lambda: dict(periods=[[str(a), str(b)] for a, b in ps]))
        m.event('forward_' + kind.name, len(ps))


def chain(m, rng):
    """Growth factors over consecutive periods multiply to the growth over the whole, in each convention."""
    zc, ref, desc = build(m, rng)
    span = (ref.max_date - ref.date).days - 3
    k = int(rng.integers(2, 12))
    lo = int(rng.integers(0, max(1, span - 40)))
    cut = np.unique(rng.integers(lo, span + 1, k + 1))
    ds = [ref.date + dt.timedelta(int(c)) for c in cut]
    ds = [ds[0]] + [b for a, b in zip(ds, ds[1:]) if ref_yf(a, b, ref.basis, False) > 0]
    if len(ds) < 2 or any(ref_yf(a, b, ref.basis, False) <= 0 for a, b in zip(ds, ds[1:])): return
    m.case(dates=[str(d) for d in ds], **desc)
    kind = gen.pick(rng, [TermRate.SIMPLE, TermRate.CONTINUOUS, TermRate.ANNUAL, RFR.DAILY_COMPOUNDED])
    r = np.asarray(m.call('fwd', zc.get_forward_rates, contain(ds[:-1], 'index'), contain(ds[1:], 'index'), kind))
    R = float(np.asarray(m.call('fwd', zc.get_forward_rates, gen.ts(ds[0]), gen.ts(ds[-1]), kind))[0])
    def growth(r, s, e):
        tau = ref_yf(s, e, ref.basis, False)
        return 1 + r * tau if kind in (TermRate.SIMPLE, RFR.DAILY_COMPOUNDED) else np.exp(r * tau) if kind == TermRate.CONTINUOUS else (1 + r) ** tau
    m.close(np.prod([growth(x, s, e) for x, s, e in zip(r, ds, ds[1:])]), growth(R, ds[0], ds[-1]), 'chain:' + kind.name, 1e-9)
    a, b = m.call('df', zc.get_discount_factors, dates=gen.ts(ds[0])), m.call('df', zc.get_discount_factors, dates=gen.ts(ds[-1]))
    m.close(growth(R, ds[0], ds[-1]), a / b, 'no-arbitrage:' + kind.name, 1e-9)


def daily(m, rng):
    """Compounding the overnight forwards gives the daily-compounded forward; averages are what they say."""
    zc, ref, desc = build(m, rng, basis=gen.pick(rng, [B.ACT_360, B.ACT_365, B.ACT_366, B.ACT_ACT]), xkind=gen.pick(rng, ['tenor', 'date', 'days']))
    ps = periods(rng, ref, int(gen.pick(rng, [1, 3])), maxlen=200)
    m.case(periods=[[str(a), str(b)] for a, b in ps], **desc)
    wa, sa = [], []
    nd = 0
    for s, e in ps:
        ds = [s + dt.timedelta(k) for k in range((e - s).days + 1)]
        nd += len(ds) - 1
        on = []
        for a, b in zip(ds, ds[1:]):
            on.append((np.exp(ref.ln_df(ref.t(a)) - ref.ln_df(ref.t(b))) - 1) / ref_yf(a, b, ref.basis, False))
        bus = np.is_busday(np.array(ds[:-1], dtype='datetime64[D]'), busdaycal=ref.npcal)
        wa.append(np.mean(on)); sa.append(np.mean(np.array(on)[bus]) if bus.any() else np.nan)
    S, E = contain([p[0] for p in ps], 'index'), contain([p[1] for p in ps], 'index')
    m.close(m.call('wa', zc.get_forward_rates, S, E, RFR.WEIGHTED_AVERAGE), wa, 'weighted-average', 1e-8, 1e-10)
    m.close(m.call('sa', zc.get_forward_rates, S, E, RFR.SIMPLE_AVERAGE), sa, 'simple-average', 1e-8, 1e-10)
    s, e = ps[0]
    ds = [s + dt.timedelta(k) for k in range((e - s).days + 1)]
    on = np.asarray(m.call('on', zc.get_forward_rates, contain(ds[:-1], 'index'), contain(ds[1:], 'index'), TermRate.SIMPLE))
    g = np.prod([1 + r * ref_yf(a, b, ref.basis, False) for r, a, b in zip(on, ds, ds[1:])])
    R = float(np.asarray(m.call('dc', zc.get_forward_rates, gen.ts(s), gen.ts(e), RFR.DAILY_COMPOUNDED))[0])
    m.close(1 + R * ref_yf(s, e, ref.basis, False), g, 'daily-compounded', 1e-9)
    m.event('overnight_accruals', nd)


GL = np.polynomial.legendre.leggauss(6)


def instantaneous(m, rng):
    zc, ref, desc = build(m, rng)
    m.case(**desc)
    a, b = np.sort(rng.uniform(0, ref.max_t * .999, 2))
    if rng.integers(3) == 0: a = 0.0
    knots = np.unique(np.r_[a, [t for t in ref.ts if a < t < b], b])
    tot, pts, wts = 0.0, [], []
    for l, u in zip(knots, knots[1:]):
        pts += list((u - l) / 2 * GL[0] + (u + l) / 2); wts += list((u - l) / 2 * GL[1])
    f = np.asarray(m.call('inst', zc.get_instantaneous_forward_rate, np.array(pts)), float)
    m.close(np.sum(f * wts), ref.ln_df(a) - ref.ln_df(b), 'integral', 1e-9, 1e-11, dict(a=a, b=b))
    i = int(rng.integers(len(pts)))
    m.close(m.call('inst', zc.get_instantaneous_forward_rate, pts[i]), f[i], 'scalar', 1e-10, 1e-12)
    # limit of short forwards
    h = min(1e-4, (knots[1] - knots[0]) / 10)
    t = (knots[0] + knots[1]) / 2
    m.close(m.call('inst', zc.get_instantaneous_forward_rate, t), (ref.ln_df(t - h) - ref.ln_df(t + h)) / (2 * h), 'limit', 1e-5, 1e-7, dict(t=t))
    m.event('instantaneous_' + ref.interp.name)


def refused(m, rng):
    zc, ref, desc = build(m, rng, xkind='date')
    bad = gen.pick(rng, ['before', 'reversed', 'length', 'type'])
    (s, e), = periods(rng, ref, 1)
    m.case(bad=bad, s=str(s), e=str(e), **desc)
    if bad == 'before': a = (gen.ts(ref.date - dt.timedelta(1)), gen.ts(e), TermRate.SIMPLE)
    elif bad == 'reversed': a = (gen.ts(e), gen.ts(s), TermRate.SIMPLE)
    elif bad == 'length': a = (contain([s, s], 'index'), contain([e, e, e], 'index'), TermRate.SIMPLE)
    else: a = (gen.ts(s), gen.ts(e), 'nonsense')
    m.refuses(bad, zc.get_forward_rates, *a)


SECTIONS = [Section('term', term, 500, 6000, ['forward_SIMPLE', 'forward_CONTINUOUS', 'forward_ANNUAL', 'forward_DAILY_COMPOUNDED']),
            Section('chain', chain, 500, 6000), Section('daily', daily, 150, 2500, ['overnight_accruals']),
            Section('instantaneous', instantaneous, 400, 5000, ['instantaneous_' + i.name for i in IM]), Section('refused', refused, 60, 300)]
