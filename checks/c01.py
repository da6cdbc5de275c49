"""C01 day counts and year fractions against an independent integer model of the ISDA definitions."""
import calendar, datetime as dt
from fractions import Fraction
import numpy as np, pandas as pd
from frmmon import Section
import gen
from frm.utils.daycount import day_count, year_frac, to_datetimeindex
from frm.enums.utils import DayCountBasis as B

PROPERTY = 'C01'
ANCHORS = ['frm/utils/daycount.py']
RULE = ('date pairs drawn with a bias to month ends, February, leap days and year ends, times seven bases, '
        'containers and broadcast shapes; a case is non-trivial when its dates/basis/shape tuple is new')
BASES = list(B)


def ref_days(a, b, basis, term):
    if basis in (B.ACT_360, B.ACT_365, B.ACT_366, B.ACT_ACT):
        return b.toordinal() - a.toordinal()
    d1, d2 = a.day, b.day
    eof = lambda d: d.month == 2 and d.day == calendar.monthrange(d.year, 2)[1]
    if basis == B._30_360:
        if d1 == 31: d1 = 30
        if d2 == 31 and d1 == 30: d2 = 30
    elif basis == B._30E_360:
        d1, d2 = min(d1, 30), min(d2, 30)
    elif basis == B._30E_360_ISDA:
        if d1 == 31 or eof(a): d1 = 30
        if d2 == 31 or (eof(b) and not term): d2 = 30
    return 360 * (b.year - a.year) + 30 * (b.month - a.month) + d2 - d1


def ref_yf(a, b, basis, term):
    if basis == B.ACT_ACT:
        t = Fraction(0)
        for y in range(a.year, b.year + 1):
            lo, hi = max(a, dt.date(y, 1, 1)).toordinal(), min(b.toordinal(), dt.date(y, 12, 31).toordinal() + 1)
            t += Fraction(hi - lo, 366 if calendar.isleap(y) else 365)
        return float(t)
    den = {B.ACT_365: 365, B.ACT_366: 366}.get(basis, 360)
    return ref_days(a, b, basis, term) / den


CONT = ['date', 'datetime', 'Timestamp', 'datetime64']


def as_scalar(d, kind):
    return {'date': d, 'datetime': dt.datetime(d.year, d.month, d.day), 'Timestamp': gen.ts(d),
            'datetime64': np.datetime64(d)}[kind]


def as_vector(ds, kind):
    l = [gen.ts(d) for d in ds]
    return {'list': l, 'series': pd.Series(l, index=range(5, 5 + len(l))), 'index': pd.DatetimeIndex(l), 'datelist': list(ds)}[kind]


def pair(rng):
    a = gen.date(rng, dt.date(1950, 1, 1), dt.date(2110, 1, 1))
    k = rng.integers(6)
    if k == 0: b = a
    elif k == 1: b = a + dt.timedelta(int(rng.integers(0, 40)))
    elif k == 2: b = gen.add_months(a, int(rng.integers(0, 40)))
    elif k == 3: b = gen.add_months(dt.date(a.year, a.month, 28), int(rng.integers(1, 120)))
    else:
        b = gen.date(rng, dt.date(1950, 1, 1), dt.date(2115, 1, 1))
        if rng.integers(2) and b.month != 2: b = dt.date(b.year, 2, calendar.monthrange(b.year, 2)[1])
    return (a, b) if a <= b else (b, a)


def scalar(m, rng):
    for _ in range(12):
        a, b = pair(rng)
        term = gen.pick(rng, [None, True, False])
        ka, kb = gen.pick(rng, CONT), gen.pick(rng, CONT)
        m.case(a=str(a), b=str(b), term=term, containers=[ka, kb])
        for basis in BASES:
            kw = {} if term is None else {'is_end_date_on_termination': term}
            d = m.call('scalar:day_count', day_count, as_scalar(a, ka), as_scalar(b, kb), basis, **kw)
            y = m.call('scalar:year_frac', year_frac, as_scalar(a, ka), as_scalar(b, kb), basis, **kw)
            t = True if term is None else term
            w = {'basis': basis.value}
            m.close(d, ref_days(a, b, basis, t), 'scalar:day_count:' + basis.name, 0, 0, w)
            m.close(y, ref_yf(a, b, basis, t), 'scalar:year_frac:' + basis.name, 1e-12, 1e-14, w)
            m.ok(np.ndim(d) == 0 and np.ndim(y) == 0, 'scalar:shape:' + basis.name, w)
            m.event('basis ' + basis.name)
            if a < b:
                m.refuses('scalar:reversed:' + basis.name, day_count, as_scalar(b, kb), as_scalar(a, ka), basis)
                m.refuses('scalar:reversed_yf:' + basis.name, year_frac, as_scalar(b, kb), as_scalar(a, ka), basis)


def vector(m, rng):
    n = int(rng.integers(1, 12))
    ps = [pair(rng) for _ in range(n)]
    if rng.integers(4) == 0: ps = [ps[int(i)] for i in rng.integers(0, n, n)]       # the same period more than once
    mode = gen.pick(rng, ['both', 'start_scalar', 'end_scalar'])
    if mode == 'start_scalar':
        a0 = min(p[0] for p in ps); ps = [(a0, p[1]) for p in ps]
    if mode == 'end_scalar':
        b0 = max(p[1] for p in ps); ps = [(p[0], b0) for p in ps]
    ka, kb = gen.pick(rng, ['list', 'series', 'index', 'datelist']), gen.pick(rng, ['list', 'series', 'index', 'datelist'])
    term = gen.pick(rng, ['none', 'scalar', 'vector'])
    flags = {'none': [False] * (n - 1) + [True], 'scalar': [bool(rng.integers(2))] * n,
             'vector': [bool(x) for x in rng.integers(0, 2, n)]}[term]
    arg = {'none': None, 'scalar': flags[0], 'vector': flags}[term]
    if term == 'vector' and rng.integers(2): arg = np.array(flags)
    A = as_scalar(ps[0][0], gen.pick(rng, CONT)) if mode == 'start_scalar' else as_vector([p[0] for p in ps], ka)
    Bv = as_scalar(ps[0][1], gen.pick(rng, CONT)) if mode == 'end_scalar' else as_vector([p[1] for p in ps], kb)
    m.case(mode=mode, containers=[ka, kb], term=term, flags=flags, pairs=[[str(x), str(y)] for x, y in ps])
    m.event('vector ' + mode); m.event('flag ' + term)
    for basis in BASES:
        kw = {} if arg is None else {'is_end_date_on_termination': arg}
        d = m.call('vector:day_count', day_count, A, Bv, basis, **kw)
        y = m.call('vector:year_frac', year_frac, A, Bv, basis, **kw)
        w = {'basis': basis.value}
        m.close(np.asarray(d), [ref_days(a, b, basis, f) for (a, b), f in zip(ps, flags)], 'vector:day_count:' + basis.name, 0, 0, w)
        m.close(np.asarray(y), [ref_yf(a, b, basis, f) for (a, b), f in zip(ps, flags)], 'vector:year_frac:' + basis.name, 1e-12, 1e-14, w)
        bad = [(b, a) if i == n - 1 else (a, b) for i, (a, b) in enumerate(ps)]
        if mode == 'both' and ps[-1][0] < ps[-1][1]:
            m.refuses('vector:reversed:' + basis.name, day_count, as_vector([p[0] for p in bad], ka), as_vector([p[1] for p in bad], kb), basis)
            m.refuses('vector:reversed_yf:' + basis.name, year_frac, as_vector([p[0] for p in bad], ka), as_vector([p[1] for p in bad], kb), basis)


def additive(m, rng):
    n = int(rng.integers(2, 8))
    ds = sorted(gen.date(rng) for _ in range(n + 1))
    m.case(dates=[str(d) for d in ds])
    for basis in (B.ACT_360, B.ACT_365, B.ACT_366, B.ACT_ACT):
        v = [gen.ts(d) for d in ds]
        whole = m.call('additive:year_frac', year_frac, v[0], v[-1], basis)
        parts = m.call('additive:year_frac', year_frac, v[:-1], v[1:], basis)
        m.close(np.sum(np.asarray(parts, dtype=float)), whole, 'additive:year_frac:' + basis.name, 1e-11, 1e-12)
        wd = m.call('additive:day_count', day_count, v[0], v[-1], basis)
        pd_ = m.call('additive:day_count', day_count, v[:-1], v[1:], basis)
        m.close(np.sum(np.asarray(pd_)), wd, 'additive:day_count:' + basis.name, 0, 0)
        m.close(m.call('additive:empty', day_count, v[0], v[0], basis), 0, 'additive:empty:' + basis.name, 0, 0)
        m.close(m.call('additive:empty', year_frac, v[0], v[0], basis), 0, 'additive:empty_yf:' + basis.name, 0, 1e-15)


SECTIONS = [Section('scalar', scalar, 1600, 20000, ['basis ' + b.name for b in BASES]),
            Section('vector', vector, 2400, 20000, ['vector both', 'vector start_scalar', 'vector end_scalar']),
            Section('additive', additive, 600, 4000)]
