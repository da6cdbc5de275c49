"""C13 deposit and futures bootstrapping: every quoted instrument is repriced from the returned discount factors."""
import calendar, datetime as dt
import numpy as np, pandas as pd
from frmmon import Section
import gen
from refsched import Cal
from checks.c01 import ref_yf
from checks.c04 import DATA
from frm.enums import DayCountBasis as B, ZeroCurveInterpMethod as IM
from frm.term_structures.zero_curve import ZeroCurve
from frm.term_structures.bootstrap_helpers import cash_rates_quote_helper, bootstrap_cash_rates, bootstrap_futures, futures_helper_asx_90day

PROPERTY = 'C13'
ANCHORS = ['frm/term_structures/bootstrap_helpers.py']
RULE = ('random deposit sets (overnight, tomorrow-next and spot tenors, 0-2 day settlement, random holidays, rows in any order, by tenor or by '
        'dates) followed by random futures strips; each instrument is repriced from the returned discount factors; ASX contract dates '
        'over 1-, 2- and 4-digit year codes; non-trivial = new quote set')
ASSUMPTIONS = ['Maturities of one quote set are distinct.', 'ACT bases for accruals.']
BASES = [B.ACT_360, B.ACT_365]


def world(rng):
    d0 = gen.date(rng, dt.date(2005, 1, 1), dt.date(2060, 1, 1))
    hol = {d0 + dt.timedelta(int(k)) for k in rng.integers(1, 900, int(gen.pick(rng, [0, 10, 60])))}
    return d0, Cal(holidays=hol), np.busdaycalendar(holidays=[np.datetime64(h) for h in sorted(hol)])


TEN = ['1w', '2w', '3w', '1m', '2m', '3m', '4m', '5m', '6m', '9m', '1y']
SPELL = {'on': ['ON', 'on', 'O/N', 'Overnight'], 'tn': ['TN', 'tn', 'T/N']}


def tdate(d, ten):
    n, u = int(ten[:-1]), ten[-1]
    return d + dt.timedelta(n if u == 'd' else 7 * n) if u in 'dw' else gen.add_months(d, n * (12 if u == 'y' else 1))


def deposits(rng, d0, cal):
    delay = int(gen.pick(rng, [0, 1, 2, 2, 2]))
    settle = cal.add(d0, delay, 'following')
    rows = [('on', d0, cal.roll(d0 + dt.timedelta(1), 'following'))]
    tom = cal.add(d0, 1, 'following')
    if delay == 2 and rng.integers(2): rows.append(('tn', tom, cal.roll(tom + dt.timedelta(1), 'following')))
    seen = {r[2] for r in rows}
    for t in sorted(rng.choice(TEN, int(rng.integers(1, 8)), replace=False), key=lambda t: tdate(settle, t)):
        mat = cal.roll(tdate(settle, t), 'following')
        if mat not in seen and mat > settle: rows.append((str(t), settle, mat)); seen.add(mat)
    return delay, settle, rows


def as_date(x): return pd.Timestamp(x).date()


def loglin(X, Y, x):
    o = np.argsort(X); X, Y = np.array(X, float)[o], np.array(Y, float)[o]
    i = min(max(int(np.searchsorted(X, x, side='right')) - 1, 0), len(X) - 2)
    return Y[i] + (Y[i + 1] - Y[i]) * (x - X[i]) / (X[i + 1] - X[i])


def cash(m, rng):
    d0, cal, ncal = world(rng)
    delay, settle, rows = deposits(rng, d0, cal)
    basis, yb = gen.pick(rng, BASES), gen.pick(rng, [B.ACT_ACT, B.ACT_365, B.ACT_360])
    rates = [float(x) for x in rng.uniform(-0.01, 0.12, len(rows))]
    order = rng.permutation(len(rows)) if rng.integers(2) else np.arange(len(rows))
    form = gen.pick(rng, ['delay', 'settlement_date', 'dates'])
    m.case(curve_date=str(d0), delay=delay, basis=basis.name, years=yb.name, rows=[[r[0], str(r[1]), str(r[2])] for r in rows], rates=rates, order=[int(i) for i in order], form=form)
    spell = [gen.pick(rng, SPELL.get(rows[i][0], [rows[i][0], rows[i][0].upper()])) for i in order]
    q = {'rate': [rates[i] for i in order]}
    if form == 'dates':
        q['effective_date'] = [gen.ts(rows[i][1]) for i in order]; q['maturity_date'] = [gen.ts(rows[i][2]) for i in order]
        if rng.integers(2): q['tenor'] = spell
    else: q['tenor'] = spell
    df = pd.DataFrame(q, index=rng.permutation(len(rows)) if rng.integers(3) == 0 else None)
    before = df.copy()
    kw = dict(settlement_date=gen.ts(settle)) if form == 'settlement_date' else dict(settlement_delay=delay)
    if form == 'dates' and rng.integers(2): kw = {}
    out = m.call('quotes', cash_rates_quote_helper, df, gen.ts(d0), basis, cal=ncal, **kw)
    m.ok(before.equals(df), 'caller-data-altered', lambda: dict(before=before, after=df))
    if not m.ok(len(out) == len(rows), 'row-count'): return
    for k, i in enumerate(order):
        r = out.iloc[k]
        w = dict(instrument=[rows[i][0], str(rows[i][1]), str(rows[i][2])], row=r.to_dict())
        m.ok(as_date(r['effective_date']) == rows[i][1], 'effective-date', w)
        m.ok(as_date(r['maturity_date']) == rows[i][2], 'maturity-date', w)
        m.close(r['period_years'], ref_yf(rows[i][1], rows[i][2], basis, False), 'accrual', 1e-12, 0, w)
        m.close(r['rate'], rates[i], 'rate', 0, 0, w)
    m.event('tomorrow_next', sum(r[0] == 'tn' for r in rows)); m.event('instruments', len(rows))
    b4 = out.copy()
    boot = m.call('bootstrap', bootstrap_cash_rates, out, gen.ts(d0), yb)
    m.ok(b4.equals(out), 'quotes-altered')
    want = {}
    X, Y = [0.0], [0.0]
    for i in sorted(range(len(rows)), key=lambda i: rows[i][2]):
        t, s, e = rows[i]
        se = 0.0 if s == d0 else loglin([0.0] + [x for x, mat in zip(X[1:], mats) if mat <= s], [0.0] + [y for y, mat in zip(Y[1:], mats) if mat <= s], ref_yf(d0, s, yb, False))
        if not X[1:]: mats = []
        want[i] = (np.exp(se), np.exp(se) / (1 + rates[i] * ref_yf(s, e, basis, False)))
        X.append(ref_yf(d0, e, yb, False)); Y.append(np.log(want[i][1])); mats.append(e)
    by = {(as_date(r['effective_date']), as_date(r['maturity_date'])): r for _, r in boot.iterrows()}
    for i, (t, s, e) in enumerate(rows):
        r = by.get((s, e))
        if not m.ok(r is not None and len(boot) == len(rows), 'bootstrap-lost-instrument', dict(rows=[str(x) for x in by])): continue
        w = dict(instrument=[t, str(s), str(e)])
        m.close(r['effective_date_discount_factor'] / r['maturity_date_discount_factor'], 1 + rates[i] * ref_yf(s, e, basis, False), 'reprice', 1e-12, 0, w)
        m.close(r['effective_date_discount_factor'], want[i][0], 'effective-discount-factor', 1e-11, 0, w)
        m.close(r['maturity_date_discount_factor'], want[i][1], 'maturity-discount-factor', 1e-11, 0, w)
        m.close([r['effective_date_years'], r['maturity_date_years']], [ref_yf(d0, s, yb, False), ref_yf(d0, e, yb, False)], 'years', 1e-12, 1e-14, w)
    # a zero curve through the returned discount factors reprices every deposit whose start is covered
    mats = sorted(r[2] for r in rows)
    if all(s == d0 or s in mats for _, s, _ in rows) and len(rows) >= 2:
        zc = m.call('ZeroCurve', ZeroCurve, curve_date=gen.ts(d0), pillar_df=pd.DataFrame({'date': pd.to_datetime(boot['maturity_date'].values), 'discount_factor': boot['maturity_date_discount_factor'].values}),
                    day_count_basis=yb, interp_method=IM.LINEAR_ON_LN_DISCOUNT)
        a = np.array([m.call('df', zc.get_discount_factors, dates=gen.ts(s)) for _, s, _ in rows]); b = np.array([m.call('df', zc.get_discount_factors, dates=gen.ts(e)) for _, _, e in rows])
        m.close(a / b, [1 + r * ref_yf(s, e, basis, False) for r, (_, s, e) in zip(rates, rows)], 'curve-reprices', 1e-10)
        m.event('curves_repricing')
    # futures strip on top
    n = int(rng.integers(1, 9))
    st = d0 + dt.timedelta(int(rng.integers(2, 120)))
    fut = []
    for k in range(n):
        s = gen.add_months(st, 3 * k) + dt.timedelta(int(rng.integers(-2, 3)))
        fut.append((max(s, d0 + dt.timedelta(1)), gen.add_months(st, 3 * k + 3) + dt.timedelta(int(rng.integers(-2, 3)))))
    px = [float(np.round(x, 4)) for x in rng.uniform(90, 100.5, n)]
    cvx = [float(x) for x in rng.uniform(gen.pick(rng, [-8, 0]), 8, n)]
    o = rng.permutation(n)
    src = gen.pick(rng, ['price', 'futures_rate', 'forward_rate'])
    usec = bool(rng.integers(2)) and src != 'forward_rate'
    fd = pd.DataFrame({'effective_date': [gen.ts(fut[i][0]) for i in o], 'maturity_date': [gen.ts(fut[i][1]) for i in o]})
    fwd = [(100 - p) / 100 - (c / 1e4 if usec else 0) for p, c in zip(px, cvx)]
    if src == 'price': fd['price'] = [px[i] for i in o]
    else: fd['futures_rate'] = [(100 - px[i]) / 100 for i in o]
    if src == 'forward_rate': fd['forward_rate'] = [fwd[i] for i in o]
    if usec: fd['convexity_bps'] = [cvx[i] for i in o]
    before, bb = fd.copy(), boot.copy()
    res = m.call('futures', bootstrap_futures, fd, gen.ts(d0), boot, basis, yb)
    m.ok(before.equals(fd) and bb.equals(boot), 'futures-caller-data-altered')
    X, Y = [0.0] + [ref_yf(d0, r[2], yb, False) for r in rows], [0.0] + [np.log(want[i][1]) for i in range(len(rows))]
    rb = {(as_date(r['effective_date']), as_date(r['maturity_date'])): r for _, r in res.iterrows()}
    for i in sorted(range(n), key=lambda i: fut[i][0]):
        s, e = fut[i]
        r = rb.get((s, e))
        w = dict(contract=[str(s), str(e)], price=px[i])
        if not m.ok(r is not None and len(res) == n, 'futures-lost-instrument', w): break
        x = ref_yf(d0, s, yb, False)
        if len(set(X)) != len(X): break
        le = loglin(X, Y, x)
        tau = ref_yf(s, e, basis, False)
        m.close(r['forward_rate'], fwd[i], 'futures:forward-rate', 1e-12, 1e-15, w)
        m.close(r['futures_rate'], (100 - px[i]) / 100, 'futures:rate', 1e-12, 1e-15, w)
        m.close(r['effective_date_discount_factor'] / r['maturity_date_discount_factor'], 1 + fwd[i] * tau, 'futures:reprice', 1e-12, 0, w)
        m.close(r['effective_date_discount_factor'], np.exp(le), 'futures:effective-discount-factor', 1e-10, 0, w)
        X.append(ref_yf(d0, e, yb, False)); Y.append(le - np.log(1 + fwd[i] * tau))
    m.event('futures', n)


SYD = None


def asx(m, rng):
    global SYD
    if SYD is None:
        h = DATA['AU-SYDNEY']; SYD = Cal(weekend=h.weekend, holidays=set(h.keys()))
    n = int(rng.integers(1, 12))
    lo, hi = (2020, 2029) if rng.integers(2) else (2000, 2085)
    allc = [(y, mo) for y in range(lo, hi + 1) for mo in (3, 6, 9, 12)]
    st = int(rng.integers(0, len(allc) - n))
    con = allc[st:st + n] if rng.integers(2) else [allc[int(i)] for i in rng.choice(len(allc), n, replace=False)]
    if rng.integers(2): con = [con[int(i)] for i in rng.permutation(n)]
    if rng.integers(5) == 0: con.append(con[0]); n += 1
    form = gen.pick(rng, ['ticker', 'columns'])
    px = [float(np.round(x, 3)) for x in rng.uniform(92, 100, n)]
    if form == 'ticker':
        tick = []
        for y, mo in con:
            yc = gen.pick(rng, ([str(y)[3:]] if 2020 <= y <= 2029 else []) + [str(y)[2:], str(y)])
            tick.append(gen.pick(rng, ['IR%s%s', ' ir%s%s ', 'Ir%s%s']) % ({3: 'H', 6: 'M', 9: 'U', 12: 'Z'}[mo], yc))
        df = pd.DataFrame({'ticker': tick})
    else: df = pd.DataFrame({'years': [c[0] for c in con], 'months': [c[1] for c in con]})
    if rng.integers(3): df['price'] = px
    m.case(form=form, contracts=[list(c) for c in con], tickers=df.get('ticker', pd.Series(dtype=str)).tolist())
    before = df.copy()
    out = m.call('asx', futures_helper_asx_90day, df)
    m.ok(before.equals(df), 'asx:caller-data-altered')
    for k, (y, mo) in enumerate(con):
        fr = [d for d in range(1, 15) if dt.date(y, mo, d).weekday() == 4][1]
        s = dt.date(y, mo, fr)
        r = out.iloc[k]
        w = dict(contract=[y, mo], row=r.to_dict())
        m.ok(as_date(r['settlement_date']) == s, 'asx:settlement', w)
        m.ok(as_date(r['expiry_date']) == s - dt.timedelta(1), 'asx:expiry', w)
        m.ok(as_date(r['effective_date']) == s, 'asx:effective', w)
        m.ok(as_date(r['maturity_date']) == SYD.roll(gen.add_months(s, 3), 'following'), 'asx:maturity', w)
        if 'price' in df: m.close(r['futures_rate'], (100 - px[k]) / 100, 'asx:rate', 1e-12, 1e-15, w)
    m.event('contracts', n)


def asx_refused(m, rng):
    t = gen.pick(rng, ['IRF24', 'IRH024', 'BAH24', 'IRJ4', 'XXM4', 'IRH', 'IRH20245'])
    m.case(ticker=t)
    m.refuses('asx:refused', futures_helper_asx_90day, pd.DataFrame({'ticker': [t] if rng.integers(2) else ['IRM24', t]}))


SECTIONS = [Section('cash', cash, 1000, 5000, ['tomorrow_next', 'instruments', 'futures', 'curves_repricing']),
            Section('asx', asx, 800, 4000, ['contracts']), Section('asx_refused', asx_refused, 60, 60)]
