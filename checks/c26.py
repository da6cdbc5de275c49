"""C26 FX forward curves and quote conventions."""
import datetime as dt, re, warnings
import numpy as np, pandas as pd
from frmmon import Section
import gen
from checks.c05 import calendar, is_bus, ref_add, shift
from frm.term_structures.fx_helpers import (fx_forward_curve_helper, fx_term_structure_helper, interp_fx_forward_curve_df, validate_ccy_pair, check_delta_convention,
                                            clean_vol_quotes_column_names, solve_call_put_quotes_from_strategy_quotes, get_delta_smile_quote_details)

PROPERTY = 'C26'
ANCHORS = ['frm/term_structures/fx_helpers.py']
TECHNIQUE = 'runtime monitoring: dates, forwards and quote decompositions checked against independent day-by-day and arithmetic references'
RULE = ('random curve dates, calendars of 0 to 2 currencies, spot lags 0 to 4 and quote tables given by tenor, fixing date, delivery date or a mixture row by row, rows in any order; '
        'queries at, between and outside the dates in any order with repeats; all header spellings; all quote strategies; non-trivial = new table')
ASSUMPTIONS = ['Fixing and delivery dates given by the caller are business days; distinct rows have distinct fixing dates.']
TEN = ['SP', '1D', '1W', '2W', '3 weeks', '1M', '2M', '3 Months', '6M', '9M', '1Y', '15M', '18m', '2Y', '3 Year', '4Y', '5Y', '7Y', '10Y']
CAN = ['sp', '1d', '1w', '2w', '3w', '1m', '2m', '3m', '6m', '9m', '1y', '15m', '18m', '2y', '3y', '4y', '5y', '7y', '10y']


def offset(d, c):
    return d if c == 'sp' else shift(d, c)


def table(rng, spot=True):
    """(curve date, lag, calendar, rows) with each row (canonical tenor, given tenor, fixing, delivery)."""
    k, cal = calendar(rng)
    d = gen.date(rng, dt.date(1996, 1, 1), dt.date(2075, 1, 1))
    while not is_bus(d, cal) and rng.integers(8): d += dt.timedelta(1)      # now and then the curve date is a holiday
    lag = int(rng.integers(0, 5))
    idx = sorted(rng.choice(np.arange(1, len(TEN)), int(rng.integers(2, 10)), replace=False))
    rows = []
    for i in ([0] if spot else []) + list(idx):
        fix = offset(d, CAN[i])
        while not is_bus(fix, cal): fix += dt.timedelta(1)
        if rows and fix <= rows[-1][2]: continue
        rows.append((CAN[i], TEN[i], fix, ref_add(fix, lag, cal)))
    return k, cal, d, lag, rows


def structure(m, rng):
    k, cal, d, lag, rows = table(rng)
    name = gen.pick(rng, ['fixing_date', 'expiry_date'])
    mode = gen.pick(rng, ['tenor', 'fixing', 'delivery', 'both', 'mixed', 'tenor+fixing'])
    nat = pd.NaT; data = []
    for c, t, fx, dl in rows:
        r = {}; pickm = mode if mode != 'mixed' else gen.pick(rng, ['tenor', 'fixing', 'delivery', 'both'])
        if mode in ('tenor', 'mixed', 'tenor+fixing'): r['tenor'] = t if pickm in ('tenor', 'tenor+fixing') or rng.integers(2) else None
        if mode in ('fixing', 'both', 'mixed', 'tenor+fixing'): r[name] = gen.ts(fx) if pickm in ('fixing', 'both', 'tenor+fixing') else nat
        if mode in ('delivery', 'both', 'mixed'): r['delivery_date'] = gen.ts(dl) if pickm in ('delivery', 'both') else nat
        data.append(r)
    # a row given by delivery date alone fixes one lag earlier, by tenor alone is computed from the curve date
    q = np.exp(rng.normal(0, .2, len(rows)))
    df = pd.DataFrame(data); df['quote'] = q; df['delta_convention'] = 'regular_spot'
    perm = rng.permutation(len(df)); df = df.iloc[perm].reset_index(drop=True)
    m.case(cal=k, date=str(d), lag=lag, mode=mode, table=df)
    keep = df.copy(deep=True)
    out = m.call('structure', fx_term_structure_helper, df=df, curve_date=gen.ts(d), spot_offset=lag, cal=cal, rate_set_date_str=name)
    m.ok(df.equals(keep) and list(df.columns) == list(keep.columns), 'inputs-altered', lambda: dict(now=list(df.columns)))
    if not m.ok(len(out) == len(rows), 'rows', dict(got=len(out))): return
    m.ok(list(pd.DatetimeIndex(out['delivery_date'])) == [gen.ts(r[3]) for r in rows], 'delivery-date', lambda: dict(got=out['delivery_date'], want=[str(r[3]) for r in rows]))
    m.ok(list(pd.DatetimeIndex(out[name])) == [gen.ts(r[2]) for r in rows], 'fixing-date', lambda: dict(got=out[name], want=[str(r[2]) for r in rows]))
    m.close(out['quote'].values, q, 'row-order', 0, 0)
    if 'tenor' in out.columns:
        g = [None if pd.isna(x) else x for x in out['tenor']]
        m.ok(all(a is None or a == r[0] for a, r in zip(g, rows)), 'tenor-label', lambda: dict(got=g))
    for i in range(len(out)):
        a, b = out[name].iloc[i].date(), out['delivery_date'].iloc[i].date()
        m.ok(is_bus(a, cal) and is_bus(b, cal) and ref_add(a, lag, cal) == b, 'one-lag-apart', lambda: dict(fixing=str(a), delivery=str(b), lag=lag))
    m.event('mode_' + mode)
    if rng.integers(10) == 0:
        bad = pd.DataFrame({'tenor': [None], name: [nat], 'delivery_date': [nat]})
        m.refuses('no dates', fx_term_structure_helper, df=bad, curve_date=gen.ts(d), spot_offset=lag, cal=cal, rate_set_date_str=name)
        m.refuses('no columns', fx_term_structure_helper, df=df[['quote']], curve_date=gen.ts(d), spot_offset=lag, cal=cal, rate_set_date_str=name); m.event('undated_refused')


def forwards(m, rng):
    k, cal, d, lag, rows = table(rng)
    if len(rows) < 2: return
    f = np.exp(rng.normal(0, 1)) * np.exp(np.cumsum(rng.normal(0, .02, len(rows))))
    obj = rng.integers(4) == 0
    u = int(rng.integers(10))
    if u == 0: f[:] = f[0]; m.event('level_forwards')
    elif u == 1: f = np.sort(rng.integers(90, 160, len(rows)))[::int(rng.choice([-1, 1]))]; m.event('whole_forwards')
    df = pd.DataFrame({'tenor': [r[1] for r in rows], 'fx_forward_rate': f})
    if obj: df['fx_forward_rate'] = df['fx_forward_rate'].astype(object)
    if rng.integers(2): df = df.iloc[rng.permutation(len(df))].reset_index(drop=True)
    keep = df.copy(deep=True)
    m.case(cal=k, date=str(d), lag=lag, table=df)
    cv = m.call('curve', fx_forward_curve_helper, fx_forward_curve_df=df, curve_date=gen.ts(d), spot_offset=lag, cal=cal)
    m.ok(df.equals(keep) and (df.dtypes == keep.dtypes).all(), 'inputs-altered')
    m.close(cv['fx_forward_rate'].values, f, 'row-order', 0, 0)
    spot = cv.loc[cv['tenor'] == 'sp']
    m.ok(len(spot) == 1 and spot['fx_forward_rate'].iloc[0] == f[0], 'spot')
    if len(spot) == 1: m.ok(spot['delivery_date'].iloc[0] == gen.ts(rows[0][3]) and spot['fixing_date'].iloc[0] == gen.ts(rows[0][2]), 'spot-date')
    which = gen.pick(rng, ['fixing_date', 'delivery_date']); j = 2 if which == 'fixing_date' else 3
    xs = np.array([r[j].toordinal() for r in rows])
    if np.any(np.diff(xs) <= 0): return
    q = []
    for _ in range(int(rng.integers(1, 12))):
        u = rng.integers(6)
        q.append(int(gen.pick(rng, list(xs))) if u <= 1 else int(rng.integers(xs[0], xs[-1] + 1)) if u <= 3 else int(xs[0] - rng.integers(1, 400)) if u == 4 else int(xs[-1] + rng.integers(1, 4000)))
    if rng.integers(2): q.append(q[0])
    q = np.array(q); flat = bool(rng.integers(2))
    dates = pd.DatetimeIndex([gen.ts(dt.date.fromordinal(int(x))) for x in q])
    arg = pd.Series(dates, index=rng.permutation(len(q)) + 5) if rng.integers(2) else dates
    kw = {} if flat and rng.integers(2) else dict(flat_extrapolation=flat)
    cv0 = cv.copy(deep=True)
    got = m.call('interpolate', interp_fx_forward_curve_df, fx_forward_curve_df=cv, dates=arg, date_type=which, **kw)
    m.ok(cv.equals(cv0), 'curve-altered')
    want = np.interp(q, xs, f)
    if not flat: want = np.where((q < xs[0]) | (q > xs[-1]), np.nan, want)
    m.close(np.asarray(got, float), want, 'interpolated', 1e-11, 0, lambda: dict(which=which, dates=[str(x.date()) for x in dates], flat=flat))
    m.event('interp_' + which); m.event('flat' if flat else 'no_extrapolation')
    if np.any((q < xs[0]) | (q > xs[-1])): m.event('outside')
    if rng.integers(20) == 0:
        m.refuses('date type', interp_fx_forward_curve_df, fx_forward_curve_df=cv, dates=dates, date_type='expiry_date')
        m.refuses('no rates', fx_forward_curve_helper, fx_forward_curve_df=df[['tenor']], curve_date=gen.ts(d), spot_offset=lag, cal=cal)
        m.event('forward_refused')


def spell(rng, delta, kind):
    s = lambda: gen.pick(rng, ['_', ' ', '']); D = gen.pick(rng, ['delta', 'Δ'])
    num = gen.pick(rng, [str(delta), '%02d' % delta]) if delta < 10 else str(delta)
    word = {'call': ['call', 'c'], 'put': ['put', 'p'], 'riskreversal': ['risk_reversal', 'risk reversal', 'riskreversal', 'rr'], 'butterfly': ['butterfly', 'bf']}[kind]
    return num + s() + D + s() + gen.pick(rng, word), num


def headers(m, rng):
    n = int(rng.integers(1, 8)); cols, want = [], []
    for _ in range(n):
        u = rng.integers(8)
        if u <= 4:
            kind = gen.pick(rng, ['call', 'put', 'riskreversal', 'butterfly']); x, num = spell(rng, int(rng.integers(1, 50)), kind)
            cols.append(x); want.append('%s_delta_%s' % (num, kind))
        elif u <= 5:
            s = lambda: gen.pick(rng, ['_', ' ', '']); a = gen.pick(rng, ['a', 'at']) + s() + gen.pick(rng, ['t', 'the']) + s() + gen.pick(rng, ['m', 'money'])
            if rng.integers(2): cols.append(a + s() + gen.pick(rng, ['delta', 'Δ']) + s() + 'neutral'); want.append('atm_delta_neutral')
            else: cols.append(a + s() + gen.pick(rng, ['f', 'fwd', 'forward'])); want.append('atm_forward')
        else:
            x = gen.pick(rng, ['tenor', 'expiry_date', 'delta_convention', '50_delta_put', '0_delta_call', '25_delta_straddle', 'delta_25_call', '25_delta_callx', 'x25_delta_call', 'atm', '100_delta_call', '25_gamma_call', 'notes', 'atm_delta_neutralx'])
            cols.append(x); want.append(x)
    seen = set(); keep = [i for i in range(n) if not (want[i] in seen or cols[i] in seen or seen.update([want[i], cols[i]]))]
    cols, want = [cols[i] for i in keep], [want[i] for i in keep]
    df = pd.DataFrame([[float(i) for i in range(len(cols))]] * 2, columns=cols); orig = list(df.columns)
    m.case(columns=cols)
    out = m.call('headers', clean_vol_quotes_column_names, df)
    m.ok(list(out.columns) == want, 'header', lambda: dict(got=list(out.columns), want=want))
    m.ok(np.array_equal(out.values, [[float(i) for i in range(len(cols))]] * 2), 'values-moved')
    m.ok(list(df.columns) == orig, 'inputs-altered')
    twice = m.call('headers', clean_vol_quotes_column_names, out)
    m.ok(list(twice.columns) == want, 'twice'); m.event('headers')


def strategies(m, rng):
    nd = int(rng.integers(1, 6)); deltas = sorted(int(x) for x in rng.choice(np.arange(1, 50), nd, replace=False)); T = int(rng.integers(1, 6))
    strat = [x for x in deltas if rng.integers(3)]; plain = [x for x in deltas if x not in strat]
    atm = rng.uniform(.05, .3, T); call = {x: atm + rng.normal(0, .02, T) for x in deltas}; put = {x: atm + rng.normal(0, .02, T) for x in deltas}
    u = int(rng.integers(8))
    if u == 0: call = put; m.event('symmetric')                                                       # no risk reversal
    elif u == 1: call = put = {x: atm.copy() for x in deltas}; m.event('flat_smile')
    elif u == 2: atm = atm * 0 + .1; m.event('level_term')
    cols = [('tenor', ['%dm' % (i + 1) for i in range(T)]), ('delta_convention', ['regular_spot'] * T), ('atm_delta_neutral', atm)]
    for x in strat:
        bf = .5 * (call[x] + put[x]) - atm; rr = call[x] - put[x]
        cols += [('%d_delta_riskreversal' % x, rr), ('%d_delta_butterfly' % x, bf)]
        u = rng.integers(8)
        if u == 0: cols.append(('%d_delta_put' % x, put[x])); m.event('put_given')
        elif u == 1: cols.append(('%d_delta_call' % x, call[x])); m.event('call_given')
    for x in plain: cols += [('%d_delta_put' % x, put[x]), ('%d_delta_call' % x, call[x])]
    if rng.integers(2): cols = [cols[i] for i in rng.permutation(len(cols))]
    df = pd.DataFrame(dict(cols)); keep = df.copy(deep=True)
    m.case(strategies=strat, plain=plain, table=df)
    out = m.call('decompose', solve_call_put_quotes_from_strategy_quotes, df)
    m.ok(df.equals(keep) and list(df.columns) == list(keep.columns), 'inputs-altered')
    m.ok(not any('riskreversal' in c or 'butterfly' in c for c in out.columns), 'strategies-left')
    for x in deltas:
        for nm, v in (('call', call), ('put', put)):
            c = '%d_delta_%s' % (x, nm)
            if m.ok(c in out.columns, 'missing', dict(column=c)): m.close(out[c].values, v[x], 'decomposed-' + nm, 1e-11, 1e-13)
        if x in strat:
            P, C = out['%d_delta_put' % x].values, out['%d_delta_call' % x].values
            m.close(C - P, keep['%d_delta_riskreversal' % x].values, 'recombine-riskreversal', 1e-9, 1e-13)
            m.close(.5 * (C + P) - out['atm_delta_neutral'].values, keep['%d_delta_butterfly' % x].values, 'recombine-butterfly', 1e-9, 1e-13)
    m.close(out['atm_delta_neutral'].values, atm, 'atm', 0, 0)
    det = m.call('details', get_delta_smile_quote_details, out)
    names = ['%d_delta_put' % x for x in deltas] + ['atm_delta_neutral'] + ['%d_delta_call' % x for x in deltas[::-1]]
    sd = [-x / 100 for x in deltas] + [.5] + [x / 100 for x in deltas[::-1]]; cp = [-1] * nd + [1] + [1] * nd
    m.ok(list(det['quotes_column_names']) == names, 'smile-order', lambda: dict(got=list(det['quotes_column_names']), want=names))
    m.close(det['quotes_signed_delta'].values.astype(float), sd, 'signed-delta', 1e-12, 0); m.close(det['quotes_call_put_flag'].values.astype(float), cp, 'call-put', 0, 0)
    if strat:
        m.refuses('no butterfly', solve_call_put_quotes_from_strategy_quotes, df.drop(columns='%d_delta_butterfly' % strat[0]))
        m.refuses('no risk reversal', solve_call_put_quotes_from_strategy_quotes, df.drop(columns='%d_delta_riskreversal' % strat[-1]))
        m.event('strategies')
    m.refuses('no at-the-money', solve_call_put_quotes_from_strategy_quotes, df.drop(columns='atm_delta_neutral'))
    if plain: m.event('plain')


MAJOR = ['aud', 'eur', 'gbp', 'nzd']
CCY = MAJOR + ['usd', 'jpy', 'cad', 'chf', 'mxn', 'sgd', 'try', 'brl', 'zar']


def conventions(m, rng):
    f, d = [str(x) for x in rng.choice(CCY, 2, replace=False)]
    if rng.integers(2): f, d = [(f, 'usd'), ('usd', d)][int(rng.integers(2))]
    if f == d: d = 'jpy'
    sp = f + gen.pick(rng, ['', '/']) + d
    sp = gen.pick(rng, [sp, sp.upper(), ' ' + sp + ' ', sp.title()])
    m.case(pair=sp, salt=int(rng.integers(10 ** 6)))
    with warnings.catch_warnings(record=True):
        got = m.call('pair', validate_ccy_pair, sp)
    m.ok(tuple(got) == (f + d, d, f), 'pair', dict(got=got))
    T = int(rng.integers(1, 6)); conv = [str(gen.pick(rng, ['regular_spot', 'regular_forward', 'premium_adjusted_spot', 'premium_adjusted_forward'])) for _ in range(T)]
    df = pd.DataFrame({'tenor': ['%dm' % (i + 1) for i in range(T)], 'expiry_date': pd.date_range('2030-01-01', periods=T), 'delta_convention': conv, 'warnings': [''] * T})
    if rng.integers(3) == 0: df = df.drop(columns='tenor')
    keep = df.copy(deep=True)
    pair = f + d
    out = m.call('delta convention', check_delta_convention, df, pair)
    regular = f in MAJOR and d == 'usd'; reverse = f == 'usd' and d in MAJOR
    for i in range(T):
        w = out['warnings'].iloc[i]
        want = (regular and conv[i].startswith('premium')) or ('usd' in pair and not regular and not reverse and conv[i].startswith('regular'))
        m.ok(bool(w) == want, 'convention-warning', lambda: dict(pair=pair, convention=conv[i], warning=w))
        if want: m.ok(('premium adjusted delta is the market' in w) == (not regular), 'which-convention', dict(warning=w)); m.event('warned_regular' if regular else 'warned_premium')
    m.ok(list(out['delta_convention']) == conv, 'convention-changed')
    m.ok(df.equals(keep), 'inputs-altered')
    m.event('pair_regular' if regular else 'pair_reverse' if reverse else 'pair_usd' if 'usd' in pair else 'pair_cross')
    if rng.integers(10) == 0: m.refuses('bad pair', validate_ccy_pair, gen.pick(rng, ['eur', 'eurus', 'eurusdx', '']))


SECTIONS = [Section('structure', structure, 1600, 15000, ['mode_' + x for x in ('tenor', 'fixing', 'delivery', 'both', 'mixed', 'tenor+fixing')] + ['undated_refused']),
            Section('forwards', forwards, 1600, 15000, ['interp_fixing_date', 'interp_delivery_date', 'flat', 'no_extrapolation', 'outside', 'level_forwards', 'whole_forwards', 'forward_refused']),
            Section('headers', headers, 3000, 30000, ['headers']),
            Section('strategies', strategies, 1600, 15000, ['strategies', 'symmetric', 'flat_smile', 'plain', 'put_given', 'call_given']),
            Section('conventions', conventions, 1600, 15000, ['pair_regular', 'pair_reverse', 'pair_usd', 'pair_cross', 'warned_regular', 'warned_premium'])]
