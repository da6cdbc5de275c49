"""C10 parallel shifts of a curve: algebra of shifts and isolation of the original."""
import datetime as dt
import numpy as np, pandas as pd
from frmmon import Section
import gen, refcurve
from refcurve import IM
from frm.enums.utils import CompoundingFreq as CF
from frm.term_structures.zero_curve import ZeroCurve

PROPERTY = 'C10'
ANCHORS = ['frm/term_structures/zero_curve.py']
RULE = ('random curves (as C08) x random sequences of shifts (positive, negative, zero, fractional basis points), each step observed at '
        'pillars, between pillars, by date and by year fraction; non-trivial = new curve and shift sequence')
ASSUMPTIONS = ['Zero rates at t=0 are not judged.']


def snapshot(zc, ref, ds, ts):
    pf = zc.pillar_df.copy()
    return (pf, np.asarray(zc.get_discount_factors(dates=ds)), np.asarray(zc.get_discount_factors(years=ts)),
            np.asarray(zc.get_zero_rates(compounding_freq=CF.CONTINUOUS, years=ts)))


def grids(rng, ref):
    span = (ref.max_date - ref.date).days - 3
    while span > 2 and ref.t(ref.date + dt.timedelta(span)) > ref.ts[-1]: span -= 1      # not past the last pillar
    ds = pd.DatetimeIndex([gen.ts(ref.date + dt.timedelta(int(k))) for k in np.sort(rng.integers(1, max(span, 2), 12))])
    ts = np.r_[rng.uniform(0.01, min(ref.max_t, ref.ts[-1]) * .999, 10), [min(t, ref.max_t) for t in ref.ts]]
    return ds, ts


def judge(m, zc, ref, shift, ds, ts, key, w):
    """zc must be the reference curve with all continuously compounded zero rates moved by shift (decimal)."""
    t_d = np.array([ref.t(d.date()) for d in ds])
    want_d = np.exp([ref.ln_df(t) - shift * t for t in t_d])
    want_t = np.exp([ref.ln_df(t) - shift * t for t in ts])
    m.close(m.call('df', zc.get_discount_factors, dates=ds), want_d, key + ':df:dates', 1e-9, 1e-12, w)
    m.close(m.call('df', zc.get_discount_factors, years=ts), want_t, key + ':df:years', 1e-9, 1e-12, w)
    m.close(m.call('zr', zc.get_zero_rates, compounding_freq=CF.CONTINUOUS, years=ts), [-ref.ln_df(t) / t + shift for t in ts],
            key + ':zero-rates', 1e-7, 1e-9, w)
    pf = zc.pillar_df
    k = pf['years'].to_numpy(float) > 0
    m.close(pf['years'].to_numpy(float)[k], ref.ts, key + ':pillar-years', 1e-9, 1e-12, w)
    m.close(pf['cczr'].to_numpy(float)[k], -ref.ln / ref.ts + shift, key + ':pillar-cczr', 1e-9, 1e-9, w)
    m.close(pf['discount_factor'].to_numpy(float)[k], np.exp(ref.ln - shift * ref.ts), key + ':pillar-df', 1e-9, 1e-12, w)
    m.close(pf['discount_factor'].to_numpy(float)[~k], 1.0, key + ':df0', 1e-12, 0, w)
    m.ok(zc.curve_date == gen.ts(ref.date) and zc.day_count_basis == ref.basis and zc.interp_method == ref.interp and zc.extrap_method == ref.extrap,
         key + ':conventions', w)


def shifts(m, rng):
    kw, ref, desc, pil = refcurve.make(rng)
    n = int(rng.integers(1, 5))
    seq = [float(gen.pick(rng, [0.0, 1.0, -1.0, 25.0, -50.0, 100.0, 1000.0, round(rng.normal(0, 80), 3), rng.normal(0, 5)])) for _ in range(n)]
    if rng.integers(3) == 0: seq = [int(s) for s in seq]
    m.case(shifts=seq, **desc)
    given = kw['pillar_df'].copy()
    zc = m.call('ZeroCurve', ZeroCurve, **kw)
    m.ok(given.equals(kw['pillar_df']) and list(given.columns) == list(kw['pillar_df'].columns), 'caller-data-altered', lambda: dict(before=given, after=kw['pillar_df']))
    ds, ts = grids(rng, ref)
    before = snapshot(zc, ref, ds, ts)
    cur, tot, chain = zc, 0.0, [(zc, 0.0)]
    for s in seq:
        src, base = chain[int(rng.integers(len(chain)))] if rng.integers(3) == 0 else (cur, tot)
        cur = m.call('shift', src.flat_shift, s)
        tot = base + s / 1e4
        m.ok(cur is not src, 'same-object')
        judge(m, cur, ref, tot, ds, ts, 'shifted', dict(shift=tot))
        chain.append((cur, tot))
        m.event('shifts')
    # every curve of the history still is what it was, the original bit by bit
    for z, s in chain:
        judge(m, z, ref, s, ds, ts, 'history', dict(shift=s, history=[c[1] for c in chain]))
    after = snapshot(zc, ref, ds, ts)
    m.ok(before[0].equals(after[0]) and all(np.array_equal(a, b, equal_nan=True) for a, b in zip(before[1:], after[1:])), 'original-altered')
    back = m.call('shift', cur.flat_shift, -tot * 1e4)
    judge(m, back, ref, 0.0, ds, ts, 'back', dict(shift=0))
    if rng.integers(2):
        # default shift is one basis point
        judge(m, m.call('shift', zc.flat_shift), ref, 1e-4, ds, ts, 'default', {})
    if rng.integers(2) and ref.xkind != 'tenor':
        # the shifted curve does not share data with the original: writing to its table leaves the original alone
        c = m.call('shift', zc.flat_shift, 3.0)
        c.pillar_df.loc[:, 'discount_factor'] = 0.5
        if hasattr(c, 'daily_df'): c.daily_df.loc[:, 'discount_factor'] = 0.5
        judge(m, zc, ref, 0.0, ds, ts, 'aliased', {})
    m.event('interp_' + ref.interp.name)


SECTIONS = [Section('shifts', shifts, 500, 6000, ['shifts'] + ['interp_' + i.name for i in IM])]
