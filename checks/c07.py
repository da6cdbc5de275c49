"""C07 rate / discount factor / compounding algebra against high-precision formulas."""
import math
import numpy as np, pandas as pd
from frmmon import Section
import gen
from frm.enums.utils import CompoundingFreq as C

PROPERTY = 'C07'
ANCHORS = ['frm/enums/utils.py']
RULE = 'all ordered pairs of compounding conventions x log-uniform terms (1 day - 60 y) x rates (-3% .. 40%), scalars and arrays'
PPY = {'DAILY': 365, 'WEEKLY': 52, 'MONTHLY': 12, 'QUARTERLY': 4, 'SEMIANNUAL': 2, 'ANNUAL': 1}


def ref_df(c, t, r):
    if c == C.CONTINUOUS: return math.exp(-r * t)
    if c == C.SIMPLE: return 1 / (1 + r * t)
    n = PPY[c.name]
    return math.exp(-n * t * math.log1p(r / n))


def ref_rate(c, t, df):
    if c == C.CONTINUOUS: return -math.log(df) / t
    if c == C.SIMPLE: return (1 / df - 1) / t
    n = PPY[c.name]
    return n * math.expm1(-math.log(df) / (n * t))


def draw(rng, k):
    t = np.array([gen.loguniform(rng, 1 / 366, 60) for _ in range(k)])
    r = np.where(rng.integers(0, 3, k) == 0, rng.uniform(-0.012, 0, k), rng.uniform(0, 0.4, k))
    if rng.integers(6) == 0: r[0] = 0.0
    if rng.integers(6) == 0: r[-1] = rng.uniform(.4, 2.5)        # a high-inflation currency
    if rng.integers(5) == 0: t = np.maximum(1, np.round(t)); r = np.where(r > .4, .4, r)
    return t, r


def roundtrip(m, rng):
    c = gen.pick(rng, list(C))
    k = int(rng.integers(1, 6))
    t, r = draw(rng, k)
    scalar = k == 1
    T, R = (float(t[0]), float(r[0])) if scalar else (t, r)
    if not scalar and rng.integers(4) == 0:
        T = float(t[0]); t = np.full(k, T)
    kind = 'float'
    if (t == np.round(t)).all() and rng.integers(2): T = int(T) if np.ndim(T) == 0 else np.asarray(T).astype(int); kind = 'int'      # whole years as integers
    if not scalar and rng.integers(3) == 0: R = pd.Series(R, index=np.arange(k) + 3); T = T if np.ndim(T) == 0 else pd.Series(T, index=np.arange(k) + 3); kind += ' series'
    m.case(freq=c.name, years=T, rate=R, kind=kind); m.event('kind ' + kind)
    m.event(c.name)
    df = m.call('df', c.calc_discount_factor_from_zero_rate, T, R)
    want = np.array([ref_df(c, a, b) for a, b in zip(t, r)])
    m.close(np.atleast_1d(df), want, 'df:formula:' + c.name, 1e-10, 1e-14)
    back = m.call('rate', c.calc_zero_rate_from_discount_factor, T, df)
    tol = 1e-11 / float(np.min(t))
    m.close(np.atleast_1d(back), r, 'roundtrip:rate:' + c.name, 1e-9, tol)
    rr = m.call('rate', c.calc_zero_rate_from_discount_factor, T, want if not scalar else float(want[0]))
    m.close(np.atleast_1d(rr), [ref_rate(c, a, b) for a, b in zip(t, want)], 'rate:formula:' + c.name, 1e-9, tol)
    df2 = m.call('df', c.calc_discount_factor_from_zero_rate, T, back)
    m.close(np.atleast_1d(df2), want, 'roundtrip:df:' + c.name, 1e-10, 1e-14)
    m.ok((np.asarray(df) > 0).all(), 'df:positive:' + c.name)


def convert(m, rng):
    k = int(rng.integers(1, 5))
    t, r = draw(rng, k)
    R = float(r[0]) if k == 1 else r
    m.case(rate=R)
    comp = [c for c in C if c != C.SIMPLE]
    for a in comp:
        for b in comp:
            out = m.call('convert', a.convert_rate_to, R, b)
            for ti in (0.3, 1.0, 7.5):
                m.close(np.atleast_1d([ref_df(b, ti, float(x)) for x in np.atleast_1d(out)]), [ref_df(a, ti, x) for x in r],
                        'convert:%s->%s' % (a.name, b.name), 1e-10, 1e-14)
            back = m.call('convert', b.convert_rate_to, out, a)
            m.close(np.atleast_1d(back), r, 'convert:roundtrip:%s->%s' % (a.name, b.name), 1e-9, 1e-13)
            m.event('pair')
    # simple interest has no term in this conversion: the documented meaning is the one-year equivalent
    for a in comp:
        s = m.call('convert', a.convert_rate_to, R, C.SIMPLE)
        m.close(np.atleast_1d(s), [ref_rate(C.SIMPLE, 1.0, ref_df(a, 1.0, x)) for x in r], 'convert:%s->SIMPLE(1y)' % a.name, 1e-9, 1e-13)
        q = m.call('convert', C.SIMPLE.convert_rate_to, R, a)
        m.close(np.atleast_1d(q), [ref_rate(a, 1.0, ref_df(C.SIMPLE, 1.0, x)) for x in r], 'convert:SIMPLE(1y)->%s' % a.name, 1e-9, 1e-13)


SECTIONS = [Section('roundtrip', roundtrip, 12000, 200000, [c.name for c in C] + ['kind int', 'kind float series', 'kind int series']), Section('convert', convert, 1200, 10000, ['pair'])]
