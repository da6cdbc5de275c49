"""C02 schedule generation against an independent integer-date model, plus structural invariants."""
import datetime as dt
import numpy as np, pandas as pd
from frmmon import Section, CaseAbort
import gen, refsched
from frm.utils.schedule import make_schedule, generate_date_schedule, BaseSchedule
from frm.enums.utils import PeriodFreq, RollConv, DayRoll, Stub

PROPERTY = 'C02'
ANCHORS = ['frm/utils/schedule.py', 'frm/enums/utils.py']
RULE = ('effective/termination dates biased to month ends, all frequencies, roll conventions, roll days, stub options, stub dates '
        '(aligned with the forward or backward grid, off-grid, equal, at the ends) and random calendars; distinct = new tuple')
FREQS = ['daily', 'weekly', '28days', 'monthly', 'quarterly', 'semiannual', 'annual', 'zerocoupon']
CONVS = ['following', 'preceding', 'modifiedfollowing', 'modifiedpreceding', 'unadjusted']


def calendars(rng):
    k = rng.integers(4)
    if k == 0: return refsched.Cal(), np.busdaycalendar()
    if k == 1: return refsched.Cal(weekend=()), np.busdaycalendar(weekmask='1111111')
    we = gen.pick(rng, [(5, 6), (4, 5), (6,), (5, 6)])
    hol = {dt.date(y, *md) for y in range(1990, 2100) for md in [(1, 1), (12, 25), (12, 26), (5, 1), (3, 31), (9, 30)][:int(rng.integers(1, 7))]}
    mask = ''.join('0' if i in we else '1' for i in range(7))
    return refsched.Cal(we, hol), np.busdaycalendar(weekmask=mask, holidays=sorted(hol))


def inputs(rng):
    cal, ncal = calendars(rng)
    freq = gen.pick(rng, FREQS)
    conv = gen.pick(rng, CONVS)
    start = gen.date(rng, dt.date(1995, 1, 1), dt.date(2060, 1, 1))
    span = {'daily': 25, 'weekly': 90, '28days': 400, 'monthly': 800, 'quarterly': 2400, 'semiannual': 4000, 'annual': 6000, 'zerocoupon': 4000}[freq]
    k = rng.integers(4)
    if freq not in ('zerocoupon', 'daily') and k:
        n = int(rng.integers(1, 12))
        end = refsched.shift(start, freq, n)
        if k == 2: end += dt.timedelta(int(rng.integers(-20, 21)))
        if k == 3: end = gen.add_months(end, int(rng.integers(-2, 3)))
        if end <= start + dt.timedelta(6): end = start + dt.timedelta(int(rng.integers(7, span)))
    else:
        end = start + dt.timedelta(int(rng.integers(7, span)))
    dr = 'unadjusted'
    if freq in ('monthly', 'quarterly', 'semiannual', 'annual') and rng.integers(2):
        dr = gen.pick(rng, ['eom', 31, 30, 29, 28, 1, 15, 20, int(rng.integers(1, 32))])
    return start, end, freq, conv, dr, cal, ncal


def near(rng, start, end, grid):
    """A stub date: on one of the grids, next to it, at an end, or anywhere inside."""
    k = rng.integers(6)
    if k <= 2 and len(grid) > 2: return grid[int(rng.integers(1, len(grid) - 1))]
    if k == 3 and len(grid) > 2:
        d = grid[int(rng.integers(1, len(grid) - 1))] + dt.timedelta(int(rng.integers(-4, 5)))
        if start < d < end: return d
    return start + dt.timedelta(int(rng.integers(1, (end - start).days + 1)))


CONT = [gen.ts, lambda d: d, lambda d: dt.datetime(d.year, d.month, d.day), lambda d: np.datetime64(d)]


def run(m, rng, mode):
    start, end, freq, conv, dr, cal, ncal = inputs(rng)
    fpe = lps = None
    fs = ls = 'default'
    if mode == 'stubs':
        fs, ls = gen.pick(rng, ['default', 'none', 'short', 'long']), gen.pick(rng, ['default', 'none', 'short', 'long'])
    elif mode == 'dates':
        grid = []
        if freq != 'zerocoupon':
            fw = refsched.dates(start, end, freq, 'forward', conv, dr, cal)
            bw = refsched.dates(start, end, freq, 'backward', conv, dr, cal)
            grid = gen.pick(rng, [fw, bw])
        which = gen.pick(rng, ['first', 'last', 'both', 'both'])
        if which in ('first', 'both'):
            fpe = near(rng, start, end, grid[:4] if len(grid) > 4 else grid)
            if rng.integers(2) and len(grid) > 2: fpe = grid[1]
            if which == 'first': ls = gen.pick(rng, ['default', 'default', 'short', 'long'])
        if which in ('last', 'both'):
            lps = near(rng, start, end, grid[-4:] if len(grid) > 4 else grid)
            if rng.integers(2) and len(grid) > 2: lps = grid[-2]
            if lps == end: lps = None
            if which == 'last': fs = gen.pick(rng, ['default', 'default', 'short', 'long'])
        if which == 'both' and rng.integers(8) == 0: lps = fpe if fpe != end else lps
        k = rng.integers(24)                    # a single period asked for by its end or by its start
        if k == 0: fpe, lps = end, None
        elif k == 1: fpe, lps = None, start
        if fpe is None and lps is None: fs = ls = 'default'
        elif k < 2: m.event('single period asked for by its ' + ('end' if k == 0 else 'start'))
    roll = bool(rng.integers(3) == 0)
    m.case(start=str(start), end=str(end), freq=freq, conv=conv, day_roll=dr, fpe=str(fpe), lps=str(lps), stubs=[fs, ls], roll_user=roll,
           weekend=sorted(cal.weekend), holidays=len(cal.hol))
    try:
        want, kind = refsched.schedule(start, end, freq, conv, dr, fpe, lps, fs, ls, roll, cal)
    except refsched.Refused:
        want = None
    except refsched.Unspecified:
        m.event('unspecified combination'); return
    c = gen.pick(rng, CONT)
    S = lambda x: Stub.from_value(x)
    args = dict(start_date=c(start), end_date=c(end), freq=PeriodFreq.from_value(freq), roll_conv=RollConv.from_value(conv),
                day_roll=DayRoll.from_value(dr), first_period_end=None if fpe is None else c(fpe), last_period_start=None if lps is None else c(lps),
                first_stub=S(fs), last_stub=S(ls), roll_user_specified_dates=roll, cal=ncal)
    if want is None:
        m.event('refusable'); m.refuses(mode + ':refuse', make_schedule, **args); return
    if len(want) == 1: m.event('collapsed by rolling'); return
    m.event(kind)
    use_class = rng.integers(4) == 0
    df = m.call('%s:%s' % (mode, kind), BaseSchedule if use_class else make_schedule, **args)
    if use_class:
        sched, df = df, df.df
        m.ok(pd.Timestamp(sched.start_date) == df['period_start'].iloc[0] and pd.Timestamp(sched.end_date) == df['period_end'].iloc[-1], mode + ':object dates',
             lambda: dict(object=[str(sched.start_date), str(sched.end_date)], table=[str(df['period_start'].iloc[0]), str(df['period_end'].iloc[-1])]))
        m.event('schedule object')
    ps, pe = list(df['period_start']), list(df['period_end'])
    w = lambda: {'period_start': [str(x.date()) for x in ps], 'period_end': [str(x.date()) for x in pe], 'want boundaries': [str(x) for x in want]}
    m.ok(ps[1:] == pe[:-1], mode + ':contiguous', w)
    m.ok(all(a < b for a, b in zip(ps, pe)), mode + ':positive periods', w)
    R = (lambda d: cal.roll(d, conv)) if roll else (lambda d: d)
    m.ok(ps[0] == gen.ts(R(start)) and pe[-1] == gen.ts(R(end)), mode + ':ends', w)
    if freq == 'zerocoupon': fpe = lps = None
    if fpe is not None and R(fpe) > R(start): m.ok(pe[0] == gen.ts(R(fpe)), mode + ':first period end honoured', w)
    if lps is not None and R(lps) < R(end) and len(ps) > 1: m.ok(ps[-1] == gen.ts(R(lps)), mode + ':last period start honoured', w)
    m.ok([x.date() for x in ps] + [pe[-1].date()] == want, '%s:boundaries:%s' % (mode, kind), w)


def plain(m, rng): run(m, rng, 'plain')
def stubs(m, rng): run(m, rng, 'stubs')
def stubdates(m, rng): run(m, rng, 'dates')


def generator(m, rng):
    start, end, freq, conv, dr, cal, ncal = inputs(rng)
    if freq == 'zerocoupon': freq = 'quarterly'
    direction = gen.pick(rng, ['forward', 'backward'])
    m.case(start=str(start), end=str(end), freq=freq, conv=conv, day_roll=dr, direction=direction)
    want = refsched.dates(start, end, freq, direction, conv, dr, cal)
    d1, d2 = m.call('generate:' + direction, generate_date_schedule, gen.ts(start), gen.ts(end), PeriodFreq.from_value(freq), direction,
                    RollConv.from_value(conv), DayRoll.from_value(dr), False, ncal)
    m.ok([x.date() for x in d1] == want[:-1] and [x.date() for x in d2] == want[1:], 'generate:' + direction,
         lambda: {'d1': [str(x.date()) for x in d1], 'd2': [str(x.date()) for x in d2], 'want': [str(x) for x in want]})


def invalid(m, rng):
    start, end, freq, conv, dr, cal, ncal = inputs(rng)
    m.case(start=str(start), end=str(end), freq=freq)
    f = PeriodFreq.from_value(freq)
    m.refuses('invalid:reversed', make_schedule, gen.ts(end), gen.ts(start), f)
    m.refuses('invalid:empty', make_schedule, gen.ts(start), gen.ts(start), f)
    for d in ('forward', 'backward'):
        m.refuses('invalid:generate', generate_date_schedule, gen.ts(end), gen.ts(start), f, d)
        m.refuses('invalid:generate', generate_date_schedule, gen.ts(start), gen.ts(start), f, d)
    one = dt.timedelta(1)
    for bad in (start - one, start, end + one):
        m.refuses('invalid:first_period_end', make_schedule, gen.ts(start), gen.ts(end), f, first_period_end=gen.ts(bad))
    for bad in (start - one, end, end + one):
        m.refuses('invalid:last_period_start', make_schedule, gen.ts(start), gen.ts(end), f, last_period_start=gen.ts(bad))


SECTIONS = [Section('plain', plain, 8000, 80000, ['backward', 'one period']),
            Section('stubs', stubs, 8000, 80000, ['long first', 'long last', 'forward', 'refusable']),
            Section('stubdates', stubdates, 16000, 160000, ['first defined', 'last defined', 'both defined', 'both aligned forward', 'both aligned backward',
                                                          'first aligned forward', 'first aligned backward', 'last aligned forward', 'last aligned backward', 'two periods', 'single period asked for by its end', 'single period asked for by its start']),
            Section('generator', generator, 4000, 40000), Section('invalid', invalid, 400, 3000)]
