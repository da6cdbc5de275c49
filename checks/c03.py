"""C03 coupon and notional schedules: payment dates, accruals, conservation of notional."""
import datetime as dt
import numpy as np, pandas as pd
from frmmon import Section
import gen, refsched
from checks.c02 import inputs, CONT
from checks.c01 import ref_days, ref_yf
from frm.utils.schedule import BaseSchedule, NotionalSchedule, CouponSchedule
from frm.enums.utils import (PeriodFreq, RollConv, DayRoll, TimingConvention as TC, ExchangeNotionals as EX, DayCountBasis, Stub)

PROPERTY = 'C03'
ANCHORS = ['frm/utils/schedule.py', 'frm/utils/daycount.py']
RULE = ('random schedules x payment delay/timing x exchange option x constant or amortising notional (vector per period) x day count '
        'basis; non-trivial = new tuple; each case judges every row of the resulting table')


def base(m, rng):
    start, end, freq, conv, dr, cal, ncal = inputs(rng)
    fs, ls, roll = gen.pick(rng, ['default', 'default', 'none', 'short', 'long']), gen.pick(rng, ['default', 'default', 'none', 'short', 'long']), bool(rng.integers(4) == 0)
    try: want, kind = refsched.schedule(start, end, freq, conv, dr, None, None, fs, ls, roll, cal)
    except (refsched.Refused, refsched.Unspecified): fs = ls = 'default'; want, kind = refsched.schedule(start, end, freq, conv, dr, None, None, fs, ls, roll, cal)
    if len(want) == 1: roll = False; want, kind = refsched.schedule(start, end, freq, conv, dr, None, None, fs, ls, roll, cal)
    if roll: m.event('ends rolled')
    args = dict(first_stub=Stub.from_value(fs), last_stub=Stub.from_value(ls), roll_user_specified_dates=roll, start_date=gen.pick(rng, CONT)(start), end_date=gen.pick(rng, CONT)(end), freq=PeriodFreq.from_value(freq), roll_conv=RollConv.from_value(conv),
                day_roll=DayRoll.from_value(dr), cal=ncal)
    return start, end, freq, conv, cal, want, args


def pay(cal, d, delay, conv):
    return cal.add(d, delay, conv)


def unclear(cal, want, delay, conv):
    # an unadjusted non-business date moved by business days has no defined starting point
    return conv == 'unadjusted' and delay != 0 and any(not cal.bus(d) for d in want)


def dates_of(col): return [None if pd.isna(x) else x.date() for x in col]


def payments(m, rng):
    start, end, freq, conv, cal, want, args = base(m, rng)
    delay = int(gen.pick(rng, [0, 0, 1, 2, 3, 5]))
    timing = gen.pick(rng, [TC.IN_ARREARS, TC.IN_ADVANCE])
    basis = gen.pick(rng, list(DayCountBasis))
    order = gen.pick(rng, ['days', 'years', 'days+years', 'years+days', 'twice'])
    m.case(start=str(start), end=str(end), freq=freq, conv=conv, delay=delay, timing=timing.name, basis=basis.name, order=order, day_roll=args['day_roll'].name)
    s = m.call('payments:build', BaseSchedule, **args)
    ps, pe = want[:-1], want[1:]
    if not unclear(cal, want, delay, conv):
        m.call('payments:add:' + conv, s.add_payment_dates, delay, timing)
        exp = [pay(cal, d, delay, conv) for d in (pe if timing == TC.IN_ARREARS else ps)]
        got = dates_of(s.df['payment_date'])
        m.ok(got == exp, 'payments:dates:' + timing.name, lambda: {'got': got, 'want': exp})
        if conv != 'unadjusted': m.ok(all(cal.bus(d) for d in got), 'payments:business day')
        if any(a != b for a, b in zip(exp, pe)): m.event('payment moved')
    else:               # either side of the holiday may be the starting point, but the payment is so many business days from one of them
        m.call('payments:add:delayed from a holiday', s.add_payment_dates, delay, timing)
        got = dates_of(s.df['payment_date'])
        at = pe if timing == TC.IN_ARREARS else ps
        m.ok(len(got) == len(at) and all(g in (pay(cal, d, delay, 'following'), pay(cal, d, delay, 'preceding')) for g, d in zip(got, at)), 'payments:delayed from a holiday',
             lambda: {'got': got, 'from': at})
        m.event('delayed from a holiday')
    n = len(ps)
    ed = [ref_days(a, b, basis, i == n - 1) for i, (a, b) in enumerate(zip(ps, pe))]
    ey = [ref_yf(a, b, basis, i == n - 1) for i, (a, b) in enumerate(zip(ps, pe))]
    other = gen.pick(rng, list(DayCountBasis))
    if order == 'twice':
        m.call('accrual:days', s.add_period_daycount, other); m.call('accrual:years', s.add_period_yearfrac, other)
    for o in (order if order != 'twice' else 'days+years').split('+'):
        m.call('accrual:' + o, s.add_period_daycount if o == 'days' else s.add_period_yearfrac, basis)
    m.event('accrual order ' + order)
    if 'period_daycount' in s.df: m.close(s.df['period_daycount'], ed, 'accrual:days:' + basis.name, 0, 0)
    if 'period_yearfrac' in s.df: m.close(s.df['period_yearfrac'], ey, 'accrual:years:' + basis.name, 1e-12, 1e-14)
    m.ok(dates_of(s.df['period_start']) == ps and dates_of(s.df['period_end']) == pe, 'accrual:periods unchanged')


def notional(m, rng):
    start, end, freq, conv, cal, want, args = base(m, rng)
    n = len(want) - 1
    ps, pe = want[:-1], want[1:]
    ex = gen.pick(rng, list(EX))
    k = rng.integers(8)
    if k == 0: amt = float(rng.uniform(1, 1e8)); vec = [amt] * n
    elif k == 1: amt = np.array([float(rng.uniform(1, 1e8))]); vec = [float(amt[0])] * n
    elif k == 2: amt = np.linspace(1e7, 1e6, n); vec = list(amt)
    elif k == 3: amt = np.round(rng.uniform(1e5, 1e8, n), 2); vec = list(amt)
    elif k == 4: amt = int(rng.integers(1, 10**9)); vec = [float(amt)] * n                                 # whole numbers
    elif k == 5: amt = rng.integers(1, 10**8, n); vec = [float(x) for x in amt]
    elif k == 6: amt = np.repeat(np.round(rng.uniform(0, 9, n), 0) * 1e6, int(rng.integers(1, 6)))[:n]; vec = list(amt)       # plateaus, rises, falls and zeros
    else: amt = list(-np.round(rng.uniform(1e5, 1e8, n), 2)); vec = list(amt); amt = amt if rng.integers(2) else amt[0]; vec = vec if isinstance(amt, list) else [amt] * n      # the other side
    nd, cd = int(gen.pick(rng, [0, 0, 1, 2])), int(gen.pick(rng, [0, 0, 1, 2, 4]))
    nt, ct = gen.pick(rng, [TC.IN_ARREARS, TC.IN_ARREARS, TC.IN_ADVANCE]), gen.pick(rng, [TC.IN_ARREARS, TC.IN_ADVANCE])
    init = None if rng.integers(2) else gen.pick(rng, [start, ps[0], end]) if rng.integers(4) == 0 else start + dt.timedelta(int(rng.integers(-5, 6)))
    m.case(start=str(start), end=str(end), freq=freq, conv=conv, ex=ex.name, notional=vec[:6], form=int(k), delays=[nd, cd], timing=[nt.name, ct.name], init=str(init), stubs=[args['first_stub'].name, args['last_stub'].name], roll=args['roll_user_specified_dates'])
    if unclear(cal, want, nd, conv) or unclear(cal, want, cd, conv): m.event('unclear'); return
    if n > 1 and len(set(vec)) > 1: m.event('amortising')
    m.event('exchange ' + ex.name)
    before = np.array(amt, copy=True)
    m.event('form %d' % k)
    common = dict(notional_amount=amt, exchange_notionals=ex, notional_payment_delay=nd, notional_payment_timing=nt,
                  initial_notional_exchange_date=None if init is None else gen.ts(init))
    s = m.call('notional:build:' + ex.name, CouponSchedule, coupon_payment_delay=cd, coupon_payment_timing=ct, **common, **args)
    m.ok(np.array_equal(before, np.asarray(amt)), 'notional:input mutated')
    df = s.df
    lead = 1 if ex in (EX.START, EX.BOTH) else 0
    if not m.ok(len(df) == n + lead, 'notional:rows', {'rows': len(df), 'want': n + lead}): return
    body = df.iloc[lead:]
    m.ok(dates_of(body['period_start']) == ps and dates_of(body['period_end']) == pe, 'notional:periods')
    m.close(body['notional'], vec, 'notional:outstanding', 1e-14, 0)
    steps = [vec[i] - vec[i + 1] for i in range(n - 1)] + [vec[-1] if ex in (EX.END, EX.BOTH) else 0.0]
    m.close(body['notional_payment'], steps, 'notional:payments:' + ex.name, 1e-12, 1e-6)
    f = lambda delay, timing: [pay(cal, d, delay, conv) for d in (pe if timing == TC.IN_ARREARS else ps)]
    m.ok(dates_of(body['notional_payment_date']) == f(nd, nt), 'notional:payment dates', lambda: {'got': dates_of(body['notional_payment_date']), 'want': f(nd, nt)})
    m.ok(dates_of(body['coupon_payment_date']) == f(cd, ct), 'notional:coupon dates', lambda: {'got': dates_of(body['coupon_payment_date']), 'want': f(cd, ct)})
    if lead:
        r = df.iloc[0]
        m.close(r['notional_payment'], -vec[0], 'notional:initial exchange', 1e-14, 0)
        m.ok(pd.Timestamp(r['notional_payment_date']).date() == (init or ps[0]), 'notional:initial date', {'got': r['notional_payment_date']})
        m.ok(pd.isna(r['coupon_payment_date']) and pd.isna(r['period_start']) and pd.isna(r['period_end']) and r['notional'] == 0, 'notional:initial row has no period')
    tot = {'BOTH': 0.0, 'START': -vec[-1], 'END': vec[0], 'NEITHER': vec[0] - vec[-1]}[ex.name]
    m.close(float(df['notional_payment'].sum()), tot, 'notional:conserved:' + ex.name, 1e-9, 1e-5)
    # running balance: what has been lent out and not repaid is the notional outstanding in the next period
    if lead: m.close((-df['notional_payment'].cumsum()).to_numpy()[:-1], vec, 'notional:running balance', 1e-9, 1e-4)
    idx, shapes = m.call('notional:shapes', s.determine_valid_shapes_for_coupon_param)
    m.ok(list(idx) == list(range(lead, n + lead)) and [tuple(x) for x in shapes] == [(1,), (n,)], 'notional:coupon rows', {'idx': list(idx)[:5], 'shapes': shapes})
    basis = gen.pick(rng, list(DayCountBasis))
    m.call('notional:accrual', s.add_period_daycount, basis); m.call('notional:accrual', s.add_period_yearfrac, basis)
    m.close(s.df['period_yearfrac'].iloc[lead:], [ref_yf(a, b, basis, i == n - 1) for i, (a, b) in enumerate(zip(ps, pe))], 'notional:accrual years', 1e-12, 1e-14)
    m.close(s.df['period_daycount'].iloc[lead:], [ref_days(a, b, basis, i == n - 1) for i, (a, b) in enumerate(zip(ps, pe))], 'notional:accrual days', 0, 0)
    if lead: m.ok(np.isnan(s.df['period_yearfrac'].iloc[0]) and np.isnan(s.df['period_daycount'].iloc[0]), 'notional:initial row accrues')
    s2 = m.call('notional:build2', NotionalSchedule, **common, **args)
    cols = ['period_start', 'period_end', 'notional', 'notional_payment', 'notional_payment_date']
    m.ok(s2.df[cols].equals(df[cols]) if len(s2.df) == len(df) else False, 'notional:same without coupons')


def badshape(m, rng):
    start, end, freq, conv, cal, want, args = base(m, rng)
    n = len(want) - 1
    k = n + int(gen.pick(rng, [1, 2, 5]))
    m.case(n=n, given=k, start=str(start))
    m.refuses('badshape', NotionalSchedule, notional_amount=np.ones(k), **args)
    if n > 2: m.refuses('badshape', NotionalSchedule, notional_amount=np.ones(n - 1), **args)


SECTIONS = [Section('payments', payments, 5000, 40000, ['delayed from a holiday', 'payment moved', 'accrual order years', 'accrual order twice']),
            Section('notional', notional, 5000, 40000, ['amortising', 'ends rolled'] + ['form %d' % k for k in range(8)] + ['exchange ' + e.name for e in EX]), Section('badshape', badshape, 300, 2000)]
