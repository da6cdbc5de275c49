"""C06 convention parsing against an explicit table of spellings and meanings."""
import datetime as dt
import numpy as np, pandas as pd
from frmmon import Section
import gen
import frm.enums.utils as U

PROPERTY = 'C06'
ANCHORS = ['frm/enums/utils.py', 'frm/enums/helper.py']
RULE = 'every enumeration x every documented spelling x random case/blank decoration, missing values, near-miss and random strings'
E = lambda n: getattr(U, n)
# enumeration -> member -> spellings that are accepted
TABLE = {
    'ZeroCurveInterpMethod': {'LINEAR_ON_LN_DISCOUNT': ['linear_on_ln_discount', 'linear on ln discount'],
                              'CUBIC_SPLINE_ON_LN_DISCOUNT': ['cubic_spline_on_ln_discount', 'cubic spline on ln discount'],
                              'CUBIC_SPLINE_ON_CCZR': ['cubic_spline_on_cczr', 'cubic spline on cczr']},
    'ZeroCurveExtrapMethod': {'NONE': ['none'], 'FLAT': ['flat']},
    'PayRcv': {'PAY': ['pay'], 'RCV': ['rcv']},
    'BuySell': {'BUY': ['buy'], 'SELL': ['sell']},
    'DayCountBasis': {'_30_360': ['30/360', '30360'], '_30E_360': ['30e/360', '30e360'],
                      '_30E_360_ISDA': ['30e/360_isda', '30e/360 isda', '30e360 isda'],
                      'ACT_360': ['act/360', 'act360', 'actual/360', 'actual360'],
                      'ACT_365': ['act/365', 'act365', 'actual/365', 'actual365', 'act/365fixed', 'actual/365fixed'],
                      'ACT_ACT': ['act/act', 'actact', 'actual/actual', 'actual/act', 'actualactual'],
                      'ACT_366': ['act/366', 'act366', 'actual/366']},
    'CompoundingFreq': {k: [k.lower()] for k in ['SIMPLE', 'CONTINUOUS', 'DAILY', 'WEEKLY', 'MONTHLY', 'QUARTERLY', 'SEMIANNUAL', 'ANNUAL']},
    'PeriodFreq': {'DAILY': ['daily', 'd', 'day', 'days', '1d', '1day', '1days', '1 day', 'per day'],
                   'WEEKLY': ['weekly', 'w', 'week', 'weeks', 'wk', '1w', '1wk', '1week', '1weeks', 'per week'],
                   '_28_DAYS': ['28days', '28d', '28day', '28 days'],
                   'MONTHLY': ['monthly', 'm', 'month', 'months', 'mon', '1m', '1mo', '1month', '1months', '1 month', 'per month'],
                   'QUARTERLY': ['quarterly', 'q', 'quarter', 'quarters', 'quart', '3m', '3mo', '3month', '3months', '3 months'],
                   'SEMIANNUAL': ['semiannual', 's', 'sa', 'semiannually', 'semi', '6m', '6mo', '6month', '6months', 'semi annual', 's/a'],
                   'ANNUAL': ['annual', 'a', 'year', 'years', 'yrs', 'yr', 'annually', '1y', '1yr', '1year', '1years', '1 year', 'per year'],
                   'ZERO_COUPON': ['zerocoupon', 'z', 'zc', 'zero', 'zero coupon', 'zero_coupon']},
    'DayRoll': {'UNADJUSTED': ['unadjusted'], 'EOM': ['eom'], **{'_%d' % i: [str(i), i, np.int64(i)] for i in range(1, 32)}},
    'RollConv': {'UNADJUSTED': ['unadjusted'], 'FOLLOWING': ['following'], 'PRECEDING': ['preceding'],
                 'MODIFIED_FOLLOWING': ['modifiedfollowing'], 'MODIFIED_PRECEDING': ['modifiedpreceding']},
    'TimingConvention': {'IN_ARREARS': ['in_arrears', 'in arrears'], 'IN_ADVANCE': ['in_advance', 'in advance']},
    'Stub': {k: [k.lower(), k.lower().replace('_', ' ')] for k in ['NONE', 'SHORT', 'LONG', 'DEFAULT', 'DEFINED_PER_FIRST_PERIOD_END_DATE', 'DEFINED_PER_LAST_PERIOD_START_DATE']},
    'ExchangeNotionals': {k: [k.lower()] for k in ['START', 'END', 'BOTH', 'NEITHER']},
}
DEFAULTS = {'ZeroCurveInterpMethod': 'LINEAR_ON_LN_DISCOUNT', 'ZeroCurveExtrapMethod': 'NONE', 'DayCountBasis': 'ACT_ACT',
            'DayRoll': 'UNADJUSTED', 'RollConv': 'MODIFIED_FOLLOWING', 'Stub': 'DEFAULT', 'ExchangeNotionals': 'NEITHER'}
BAD = {'DayCountBasis': ['act/364', '30f/360', '360/30', 'act/', '/360', 'act/365l', '31/360', 'act//360x', 'actt', '30e', '365'],
       'PeriodFreq': ['semi-annual', '2m', '4m', '0m', 'dd', '29d', '28', '1', '3', '7d', '2y', '5m', 'annual2', 'biweekly', 'monthlyy'],
       'DayRoll': ['0', 0, '32', 32, '-1', -1, 'eomm', '1st', 'end', '1.5', 100],
       'RollConv': ['follow', 'modified', 'nearest', 'mf', 'forward', 'back', '0', 'raise'],
       'CompoundingFreq': ['annually', 'semi', 'cont', '1', '12', 'quarter', 'simplee'],
       'PayRcv': ['payer', 'receive', 'p', 'r', '1', '-1', 'rec', 'buy', 'sell'], 'BuySell': ['b', 's', 'bought', '1', 'pay', 'rcv'],
       'ZeroCurveInterpMethod': ['linear', 'cubic', 'linear_on_cczr', 'cubic_spline'], 'ZeroCurveExtrapMethod': ['linear', 'f', 'flatt'],
       'TimingConvention': ['arrears', 'advance', 'in', 'inarrears'], 'Stub': ['first', 'shortt', 'no', 'l'],
       'ExchangeNotionals': ['none', 'initial', 'final', 's', 'startend']}
KEYS = [(e, mem, sp) for e in TABLE for mem in TABLE[e] for sp in TABLE[e][mem]]
MEANING = {'DAILY': dt.timedelta(1), 'WEEKLY': dt.timedelta(7), '_28_DAYS': dt.timedelta(28), 'MONTHLY': 1, 'QUARTERLY': 3, 'SEMIANNUAL': 6, 'ANNUAL': 12}


def decorate(rng, s):
    if not isinstance(s, str): return s
    s = ''.join(c.upper() if rng.integers(2) else c for c in s)
    return gen.pick(rng, ['', ' ', '  ', '\t', '\n']) + s + gen.pick(rng, ['', ' ', '   ', '\n'])


def spellings(m, rng):
    e, mem, sp = KEYS[m.index % len(KEYS)]
    cls = E(e)
    x = sp if m.index < len(KEYS) else decorate(rng, sp)
    m.case(enum=e, text=repr(x))
    m.event('enum ' + e)
    got = m.call('parse:' + e, cls.from_value, x)
    m.ok(got is cls[mem], 'parse:%s.%s' % (e, mem), {'got': got})
    canon = cls[mem].value
    m.ok(m.call('parse:' + e, cls.from_value, canon) is cls[mem], 'canonical:' + e)
    m.ok(m.call('valid:' + e, cls.is_valid, canon) is True, 'valid:canonical:' + e)
    v = m.call('valid:' + e, cls.is_valid, x)
    m.ok(isinstance(v, (bool, np.bool_)), 'valid:type:' + e)
    m.ok(isinstance(m.call('name:' + e, lambda: cls[mem].display_name), str), 'name:' + e)
    m.ok(len(cls) == len(TABLE[e]) and {x.name for x in cls} == set(TABLE[e]), 'members:' + e, {'got': [x.name for x in cls]})


def refused(m, rng):
    names = sorted(TABLE)
    e = names[m.index % len(names)]
    cls = E(e)
    if m.index < 20 * len(names):
        x = BAD[e][(m.index // len(names)) % len(BAD[e])]
    else:
        x = ''.join(gen.pick(rng, 'abcdefgijklnoqrtuvxz') for _ in range(int(rng.integers(7, 14)))) + gen.pick(rng, ['', '/360', '_on', '9'])
    x = decorate(rng, x)
    m.case(enum=e, text=repr(x))
    m.refuses('refuse:' + e, cls.from_value, x)
    m.ok(m.call('refuse:valid:' + e, cls.is_valid, x) in (False, np.False_), 'refuse:valid:' + e)


def missing(m, rng):
    names = sorted(TABLE)
    e = names[m.index % len(names)]
    cls = E(e)
    x = [None, np.nan, pd.NaT][(m.index // len(names)) % 3]
    m.case(enum=e, value=repr(x))
    if e in DEFAULTS:
        m.ok(m.call('missing:' + e, cls.from_value, x) is cls[DEFAULTS[e]], 'missing:' + e)
        m.ok(m.call('default:' + e, cls.default) is cls[DEFAULTS[e]], 'default:' + e)
    else:
        m.refuses('missing:' + e, cls.from_value, x)
    m.ok(not m.call('missing:valid:' + e, cls.is_valid, x), 'missing:valid:' + e)


def meaning(m, rng):
    m.case(i=m.index)
    B, C, F = U.DayCountBasis, U.CompoundingFreq, U.PeriodFreq
    m.ok(U.PayRcv.PAY.multiplier == -1 and U.PayRcv.RCV.multiplier == 1, 'sign:PayRcv')
    m.ok(U.BuySell.SELL.multiplier == -1 and U.BuySell.BUY.multiplier == 1, 'sign:BuySell')
    dpy = {'_30_360': 360, '_30E_360': 360, '_30E_360_ISDA': 360, 'ACT_360': 360, 'ACT_365': 365, 'ACT_366': 366}
    for k, v in dpy.items(): m.ok(B[k].days_per_year == v, 'days_per_year:' + k)
    ppy = {'DAILY': 365, 'WEEKLY': 52, 'MONTHLY': 12, 'QUARTERLY': 4, 'SEMIANNUAL': 2, 'ANNUAL': 1}
    for k, v in ppy.items(): m.ok(C[k].periods_per_year == v, 'periods_per_year:' + k)
    m.ok(U.TimingConvention.fixing_default() is U.TimingConvention.IN_ADVANCE, 'default:fixing')
    m.ok(U.TimingConvention.payment_default() is U.TimingConvention.IN_ARREARS, 'default:payment')
    m.ok(U.Stub.market_convention() is U.Stub.SHORT, 'default:stub')
    m.ok(F.ZERO_COUPON.multiply_date_offset(3) is None and F.ZERO_COUPON.date_offset is None, 'offset:ZERO_COUPON')
    for _ in range(10):
        d = gen.date(rng, dt.date(1995, 1, 1), dt.date(2050, 1, 1))
        for k, v in MEANING.items():
            n = int(rng.integers(1, 60))
            sh = lambda s: d + v * s if isinstance(v, dt.timedelta) else gen.add_months(d, v * s)
            off = m.call('offset', F[k].multiply_date_offset, n)
            m.ok(gen.ts(d) + off == gen.ts(sh(n)), 'offset:forward:' + k, {'date': d, 'n': n, 'got': gen.ts(d) + off})
            m.ok(gen.ts(d) - off == gen.ts(sh(-n)), 'offset:backward:' + k, {'date': d, 'n': n, 'got': gen.ts(d) - off})
            m.ok(gen.ts(d) + F[k].date_offset == gen.ts(sh(1)), 'offset:one:' + k, {'date': d})


SECTIONS = [Section('spellings', spellings, len(KEYS) * 8, len(KEYS) * 200, ['enum ' + e for e in TABLE]),
            Section('refused', refused, 20 * len(TABLE) + 800, 20 * len(TABLE) + 20000),
            Section('missing', missing, 3 * len(TABLE), 3 * len(TABLE)), Section('meaning', meaning, 80, 1000)]
