"""C05 tenor normalisation, calendar shifts and business-day offset helpers against an integer date model."""
import datetime as dt
import numpy as np, pandas as pd
from frmmon import Section
import gen
from frm.utils.tenor import (clean_tenor, tenor_to_date_offset, workday, calc_implied_business_day_offset,
                             check_day_offset_consistency, resolve_fx_curve_dates, get_fx_spot_day_offset, get_ir_settlement_offset)
from frm.utils.business_day_calendar import get_busdaycal

PROPERTY = 'C05'
ANCHORS = ['frm/utils/tenor.py']
RULE = ('tenor strings assembled from every unit spelling with random case, blanks, line breaks and slashes; dates '
        'biased to month ends and holidays; random joint calendars; non-trivial when the input tuple is new')
UNITS = {'d': ['d', 'day', 'days'], 'w': ['w', 'week', 'weeks'], 'm': ['m', 'mon', 'month', 'months'],
         'y': ['y', 'yr', 'yrs', 'year', 'years']}
WORDS = {'on': ['on', 'o/n', 'overnight', 'over night'], 'tn': ['tn', 't/n', 'tom next', 'tomorrow next', 'tomnext'],
         'sw': ['sw', 's/w', 'spot week', 'spotweek'], 'sn': ['sn', 's/n', 'spot next', 'spotnext'], 'sp': ['sp', 'spot']}
WORD_DAYS = {'on': 1, 'tn': 2, 'sp': 0, 'sn': 1, 'sw': 5}


def mangle(rng, s):
    out = ''
    for c in s:
        if rng.integers(3) == 0: c = c.upper()
        if rng.integers(12) == 0: out += gen.pick(rng, [' ', '  ', '\u00a0', '\n', '\r'])
        if c.isdigit() and rng.integers(12) == 0: c = chr(ord(c) - 48 + 0xff10)
        out += c
    return gen.pick(rng, ['', ' ']) + out + gen.pick(rng, ['', ' ', '\n', '\r\n'])


def shift(d, canon):
    if canon in WORD_DAYS: return d + dt.timedelta(WORD_DAYS[canon])
    n, u = canon[:-1], canon[-1]
    if u == 'd': return d + dt.timedelta(int(n))
    if u == 'w': return d + dt.timedelta(7 * int(n))
    if 'y' in n:
        y, mth = n.split('y'); return gen.add_months(d, 12 * int(y) + int(mth))
    return gen.add_months(d, int(n) * (12 if u == 'y' else 1))


def tenor(m, rng):
    for _ in range(10):
        k = rng.integers(4)
        if k == 0:
            canon = gen.pick(rng, sorted(WORDS)); s = gen.pick(rng, WORDS[canon])
        elif k == 1:
            y, mo = int(rng.integers(0, 40)), int(rng.integers(0, 30))
            canon = '%dy%dm' % (y, mo)
            s = '%d%s%s%d%s' % (y, gen.pick(rng, UNITS['y']), gen.pick(rng, ['', ' ']), mo, gen.pick(rng, UNITS['m']))
        else:
            u = gen.pick(rng, 'dwmy')
            n = int(rng.integers(0, {'d': 800, 'w': 200, 'm': 400, 'y': 40}[u]))
            canon = '%d%s' % (n, u); s = '%d%s%s' % (n, gen.pick(rng, ['', ' ']), gen.pick(rng, UNITS[u]))
        s = mangle(rng, s)
        d = gen.date(rng, dt.date(1992, 1, 1), dt.date(2060, 1, 1))
        m.case(tenor=s, canon=canon, date=str(d))
        m.event('canonical unit ' + (canon if canon in WORDS else canon[-1] if 'y' not in canon[:-1] else 'ym'))
        c = m.call('clean', clean_tenor, s)
        m.ok(c == canon, 'clean:canonical', {'got': c})
        m.ok(m.call('clean', clean_tenor, c) == c, 'clean:idempotent', {'got': c})
        off = m.call('offset', tenor_to_date_offset, canon)
        want = shift(d, canon)
        m.ok(gen.ts(d) + off == gen.ts(want), 'offset:forward', {'got': str(gen.ts(d) + off), 'want': str(want)})
        idx = pd.DatetimeIndex([gen.ts(d), gen.ts(d) + pd.Timedelta(days=1)]) + off
        m.ok(list(idx) == [gen.ts(want), gen.ts(shift(d + dt.timedelta(1), canon))], 'offset:vector', {'got': idx})


ILL = ['', 'm', 'y', '1q', '1.5y', '-1m', '1m3y', '3m1y2', 'abc', '1y3', '1y3d', '1w2d', 'onn', 'xsp', '1dd', 'y1', '1 m', '+1m', '1b', '1ym', 'm3']


def illformed(m, rng):
    s = ILL[m.index % len(ILL)]
    if m.index >= len(ILL):
        s = ''.join(gen.pick(rng, '0123456789dwmyqbz.-') for _ in range(int(rng.integers(1, 6))))
        import re
        if re.fullmatch(r'\d+[dwmy]|\d+y\d+m', s): s = 'x' + s
    m.case(tenor=s)
    m.refuses('illformed', tenor_to_date_offset, s)
    for x in (None, 3, 1.5, b'1m', pd.Timestamp(2020, 1, 1)):
        m.refuses('illformed:type', clean_tenor, x); m.refuses('illformed:type', tenor_to_date_offset, x)


_cals = {}


def calendar(rng):
    k = tuple(sorted(str(x) for x in rng.choice(gen.CCYS, size=int(rng.integers(0, 3)), replace=False)))
    if k not in _cals: _cals[k] = get_busdaycal(list(k) if k else None)
    return k, _cals[k]


def is_bus(d, cal): return bool(np.is_busday(np.datetime64(d), busdaycal=cal))


def ref_add(d, n, cal, roll=1):
    while not is_bus(d, cal): d += dt.timedelta(roll)
    step = 1 if n >= 0 else -1
    for _ in range(abs(n)):
        d += dt.timedelta(step)
        while not is_bus(d, cal): d += dt.timedelta(step)
    return d


def busdays(m, rng):
    k, cal = calendar(rng)
    d = gen.date(rng, dt.date(1995, 1, 1), dt.date(2090, 1, 1))
    n = int(rng.integers(0, 12)) if rng.integers(5) else int(rng.integers(12, 300))
    m.case(cal=k, date=str(d), n=n)
    if not is_bus(d, cal): m.event('start on a holiday')
    t = gen.ts(d)
    s = m.call('workday', workday, t, n, cal)
    want = ref_add(d, n, cal)
    m.ok(pd.Timestamp(s) == gen.ts(want), 'workday:forward', {'got': s, 'want': want})
    nn = int(rng.integers(-8, 0))
    s2 = m.call('workday', workday, t, nn, cal)
    m.ok(pd.Timestamp(s2) == gen.ts(ref_add(d, nn, cal)), 'workday:backward', {'got': s2, 'n': nn})
    v = m.call('workday', workday, pd.DatetimeIndex([t, t + pd.Timedelta(days=3)]), n, cal)
    m.ok([pd.Timestamp(x) for x in v] == [gen.ts(want), gen.ts(ref_add(d + dt.timedelta(3), n, cal))], 'workday:vector', {'got': v})
    ds = [d + dt.timedelta(int(x)) for x in rng.integers(-9, 9, int(rng.integers(1, 6)))]; ds.append(ds[0])       # any order, repeats
    v = m.call('workday', workday, pd.DatetimeIndex([gen.ts(x) for x in ds]), nn, cal)
    m.ok([pd.Timestamp(x) for x in v] == [gen.ts(ref_add(x, nn, cal)) for x in ds], 'workday:vector', {'got': v, 'n': nn})
    imp = m.call('implied', calc_implied_business_day_offset, t, gen.ts(want), cal)
    m.ok(imp == n, 'implied:roundtrip', {'got': imp})
    m.call('consistency', check_day_offset_consistency, date=t, offset_date=gen.ts(want), day_offset=n, busdaycal=cal)
    m.refuses('consistency', check_day_offset_consistency, date=t, offset_date=gen.ts(want), day_offset=n + int(rng.integers(1, 3)), busdaycal=cal)
    m.refuses('implied:reversed', calc_implied_business_day_offset, gen.ts(ref_add(want, 1, cal)), t, cal)


IR_LAG = dict(usd=2, cad=2, aud=2, nzd=2, jpy=2, eur=2, gbp=0)
T1 = ['usdcad', 'cadusd', 'usdphp', 'phpusd', 'usdrub', 'rubusd', 'usdtry', 'tryusd']


def resolve(m, rng):
    k, cal = calendar(rng)
    pair = gen.pick(rng, T1 + ['audusd', 'eurusd', 'gbpusd', 'usdjpy', 'usdmxn', 'eurcad', 'tryeur', 'cadjpy'])
    mkt = 1 if pair in T1 else 2
    d = gen.date(rng, dt.date(1995, 1, 1), dt.date(2090, 1, 1))
    while not is_bus(d, cal): d += dt.timedelta(1)
    lag = int(rng.integers(0, 6))
    m.case(cal=k, pair=pair, date=str(d), lag=lag)
    m.ok(m.call('lag', get_fx_spot_day_offset, pair) == mkt, 'resolve:market lag')
    c = gen.ts(d); s = gen.ts(ref_add(d, lag, cal)); smkt = gen.ts(ref_add(d, mkt, cal))
    f = lambda **kw: m.call('resolve:' + '+'.join(sorted(kw)), resolve_fx_curve_dates, pair, cal, **kw)
    same = lambda got, want, key: m.ok(pd.Timestamp(got[0]) == want[0] and int(got[1]) == want[1] and pd.Timestamp(got[2]) == want[2],
                                       'resolve:' + key, {'got': got, 'want': want})
    same(f(curve_date=c), (c, mkt, smkt), 'curve only')
    same(f(spot_date=smkt), (c, mkt, smkt), 'spot only')
    same(f(curve_date=c, spot_offset=lag), (c, lag, s), 'curve+lag')
    same(f(spot_date=s, spot_offset=lag), (c, lag, s), 'spot+lag')
    same(f(curve_date=c, spot_date=s), (c, lag, s), 'curve+spot')
    same(f(curve_date=c, spot_date=s, spot_offset=lag), (c, lag, s), 'all three')
    m.refuses('resolve:inconsistent', resolve_fx_curve_dates, pair, cal, curve_date=c, spot_date=s, spot_offset=lag + 1)
    if lag: m.refuses('resolve:inconsistent', resolve_fx_curve_dates, pair, cal, curve_date=c, spot_date=s, spot_offset=lag - 1)
    # a curve date on a weekend or holiday: its spot date is counted from the next business day, and is consistent with its own lag
    h = d + dt.timedelta(int(rng.integers(1, 9)))
    if not is_bus(h, cal):
        sh = ref_add(h, lag, cal)
        same(f(curve_date=gen.ts(h), spot_offset=lag), (gen.ts(h), lag, gen.ts(sh)), 'holiday curve+lag')
        same(f(curve_date=gen.ts(h), spot_date=gen.ts(sh)), (gen.ts(h), lag, gen.ts(sh)), 'holiday curve+spot')
        same(f(curve_date=gen.ts(h), spot_date=gen.ts(sh), spot_offset=lag), (gen.ts(h), lag, gen.ts(sh)), 'holiday all three')
        m.event('curve date on a holiday')
    ccy = gen.pick(rng, sorted(IR_LAG) + ['chf', 'sek', 'zar'])
    m.ok(m.call('ir lag', get_ir_settlement_offset, ccy) == IR_LAG.get(ccy, 2), 'resolve:settlement lag', dict(ccy=ccy))
    m.refuses('resolve:none', resolve_fx_curve_dates, pair, cal)


SECTIONS = [Section('tenor', tenor, 3000, 60000, ['canonical unit ym', 'canonical unit on']),
            Section('illformed', illformed, 400, 5000),
            Section('busdays', busdays, 3000, 30000, ['start on a holiday']), Section('resolve', resolve, 2400, 20000, ['curve date on a holiday'])]
