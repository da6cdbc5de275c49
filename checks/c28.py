"""C28 rate-option quote headers and cap/floor quote tables."""
import datetime as dt
from decimal import Decimal
import numpy as np, pandas as pd
from frmmon import Section
import gen, refcurve, refsched
from checks.c01 import ref_yf
from checks.c05 import calendar, is_bus, ref_add, shift
from frm.enums import DayCountBasis as B
from frm.term_structures.zero_curve import ZeroCurve
from frm.term_structures.interest_rate_option_helpers import (standardise_relative_quote_col_names, standardise_absolute_quote_col_names, standardise_atmf_quote_col_names,
                                                              process_capfloor_quotes, settlement_date_helper)

PROPERTY = 'C28'
ANCHORS = ['frm/term_structures/interest_rate_option_helpers.py']
TECHNIQUE = 'runtime monitoring: header readings compared with decimal arithmetic on the spelling generated; cap/floor tables recomputed date by date and rate by rate from an independent curve and schedule'
RULE = ('headers in every spelling (sign, spaces, bp/bps/%, case, whole and fractional sizes) for sizes 0.01 to 2000 basis points, mixed with at-the-money and unrelated columns in any order; '
        'cap/floor tables over random curves, calendars, tenors, offsets and row orders; non-trivial = new header list or table')
ASSUMPTIONS = ['A header spells a size as an optional sign, digits with an optional fraction, and the unit, nothing else around it.',
               'Cap/floor periods are quarterly from the effective date to the last termination date, rolled modified-following (the schedule function is judged by C02).']


def size(rng):
    """Size in basis points as a Decimal."""
    u = rng.integers(6)
    if u == 5: return Decimal(int(rng.integers(1, 300))) / 100      # close to the money
    if u <= 1: x = Decimal(int(rng.integers(1, 2001)))
    elif u == 2: x = Decimal(int(gen.pick(rng, [25, 50, 75, 100, 150, 200, 300, 29, 57, 58, 113, 3, 6, 7, 12])))
    elif u == 3: x = Decimal(int(rng.integers(1, 4000))) / 4
    else: x = Decimal(int(rng.integers(1, 100000))) / 100
    return x


def plain(x):
    s = format(x.normalize(), 'f')
    return s


def spell(rng, x, sign):
    """Header text for x basis points."""
    sg = '-' if sign < 0 else gen.pick(rng, ['', '+'])
    sp = lambda: gen.pick(rng, ['', '', ' '])
    if rng.integers(2):
        n = plain(x); u = gen.pick(rng, ['bps', 'bp', 'BPS', 'Bps', 'BP', 'bps'])
    else:
        n = plain(x / 100); u = '%'
        if '.' in n and rng.integers(3) == 0: n += '0'
        elif '.' not in n and rng.integers(3) == 0: n += '.00'
    return sg + (sp() if sg else '') + n + sp() + u


def label(x, sign):
    return ('-' if sign < 0 else '') + plain(x) + 'bps'


OTHER = ['tenor', 'settlement_date', 'effective_date', 'F', 'ln_shift', 'term_years', 'notes', 'expiry', 'termination_date', 'vol', 'bps', 'fifty basis points', '100', '+50', 'strike', 'percent', 'source']


def atm(rng):
    s = lambda: gen.pick(rng, ['', ' ', '-'])
    t = gen.pick(rng, [lambda: 'a' + s() + 't' + s() + 'm', lambda: 'at' + s() + 'the' + s() + 'money', lambda: 'at' + s() + 't' + s() + 'm'])()
    t += gen.pick(rng, ['', s() + 'f', s() + 'forward'])
    return gen.pick(rng, [t, t.upper(), t.title()])


def ladder(rng, n):
    out, seen, texts = [], set(), set()
    while len(out) < n:
        x, sg = size(rng), int(gen.pick(rng, [1, -1]))
        t = spell(rng, x, sg)
        if sg * x in seen or t in texts: continue
        seen.add(sg * x); texts.add(t); out.append((t, x, sg))
    return out


def relative(m, rng):
    L = ladder(rng, int(rng.integers(0, 9)))
    oth = [str(x) for x in rng.choice(OTHER, int(rng.integers(0, 5)), replace=False)]
    a = atm(rng)
    cols = [t for t, _, _ in L] + oth + [a]
    cols = [cols[i] for i in rng.permutation(len(cols))]
    m.case(columns=cols)
    c0 = list(cols)
    names, strikes = m.call('relative', standardise_relative_quote_col_names, col_names=cols)
    m.ok(cols == c0, 'inputs-altered')
    want = {t: label(x, sg) for t, x, sg in L}; want[a] = 'atmf'
    m.ok(dict(names) == want, 'header', lambda: dict(got=names, want=want))
    ws = {label(x, sg): float(sg * x / 10000) for _, x, sg in L}; ws['atmf'] = 0.0
    if m.ok(set(strikes) == set(ws), 'strike-labels', lambda: dict(got=strikes, want=ws)):
        for k in ws: m.close(strikes[k], ws[k], 'strike', 1e-9, 1e-12, dict(label=k))
    a1 = m.call('atm', standardise_atmf_quote_col_names, col_names=cols)
    m.ok(dict(a1) == {a: 'atmf'}, 'atm-header', lambda: dict(got=a1))
    # reading the standard names again changes nothing
    std = [want.get(c, c) for c in cols]
    n2, s2 = m.call('again', standardise_relative_quote_col_names, col_names=std)
    m.ok(all(k == v for k, v in n2.items()) and set(s2) == set(ws), 'twice', lambda: dict(got=n2))
    if s2 and set(s2) == set(ws):
        for k in ws: m.close(s2[k], ws[k], 'strike-twice', 1e-9, 1e-12, dict(label=k))
    if rng.integers(5) == 0:
        m.refuses('no atm', standardise_relative_quote_col_names, col_names=[c for c in cols if c != a])
        m.refuses('no atm', standardise_atmf_quote_col_names, col_names=[c for c in cols if c != a])
        b = 'atm forward' if a.lower() != 'atm forward' else 'ATMF'
        m.refuses('two atm', standardise_relative_quote_col_names, col_names=cols + [b])
        m.refuses('two atm', standardise_atmf_quote_col_names, col_names=cols + [b])
        bad = gen.pick(rng, ['strike 50bps', '50bps vol', 'K=25 bp', 'call 0.5%', '0.5% put', '10bps-20bps', '25bps/50bps'])
        m.refuses('malformed', standardise_relative_quote_col_names, col_names=cols + [bad]); m.event('refused')
    for t, x, _ in L:
        if '%' in t: m.event('percent')
        elif 'bp' in t.lower(): m.event('upper_case' if t != t.lower() else 'basis_points')
        if x != int(x): m.event('fractional')
    if oth: m.event('unrelated')


def absolute(m, rng):
    L = ladder(rng, int(rng.integers(1, 9)))
    oth = [str(x) for x in rng.choice(OTHER, int(rng.integers(0, 5)), replace=False)]
    cols = [t for t, _, _ in L] + oth
    cols = [cols[i] for i in rng.permutation(len(cols))]
    m.case(columns=cols)
    names, strikes = m.call('absolute', standardise_absolute_quote_col_names, col_names=cols)
    want = {t: label(x, sg) for t, x, sg in L}
    m.ok(dict(names) == want, 'header', lambda: dict(got=names, want=want))
    ws = {label(x, sg): float(sg * x / 10000) for _, x, sg in L}
    if m.ok(set(strikes) == set(ws), 'strike-labels', lambda: dict(got=strikes, want=ws)):
        for k in ws: m.close(strikes[k], ws[k], 'strike', 1e-9, 1e-12, dict(label=k))
    # same table in the other unit
    other = [('%s%s%%' % ('-' if sg < 0 else '', plain(x / 100))) if 'b' in t.lower() else ('%s%sbps' % ('-' if sg < 0 else '', plain(x))) for t, x, sg in L]
    n2, s2 = m.call('absolute', standardise_absolute_quote_col_names, col_names=other)
    m.ok(set(s2) == set(strikes) and sorted(n2.values()) == sorted(names.values()), 'unit-independent', lambda: dict(one=names, other=n2))
    m.event('absolute')


TEN = ['9m', '1y', '18m', '2y', '3y', '4y', '5y', '7y', '10y']


def capfloor(m, rng):
    k, npc = calendar(rng)
    d0 = gen.date(rng, dt.date(2003, 1, 1), dt.date(2055, 1, 1))
    if d0.day > 28: d0 = d0.replace(day=28)
    while True:
        kw, ref, desc, _ = refcurve.make(rng, xkind=gen.pick(rng, ['tenor', 'date']), basis=gen.pick(rng, [B.ACT_360, B.ACT_365, B.ACT_ACT]), date_lo=d0, date_hi=d0)
        if (ref.max_date - d0).days > 700: break
    far = (ref.max_date - d0).days - 40
    tens = [t for t in TEN if (shift(d0, t) - d0).days < far]
    tens = [tens[i] for i in rng.permutation(len(tens))[:int(rng.integers(1, 6))]]
    basis = gen.pick(rng, [B.ACT_360, B.ACT_365, B.ACT_ACT])
    mo = int(gen.pick(rng, [3, 3, 6, 1]))
    L = ladder(rng, int(rng.integers(0, 5)))
    q = pd.DataFrame({'tenor': [t.upper() if rng.integers(2) else t for t in tens]})
    a = atm(rng)
    level = rng.integers(6) == 0
    for t in [x[0] for x in L] + [a]: q[t] = .2 if level else rng.uniform(.1, .5, len(tens))
    delay = gen.pick(rng, [None, 0, 1, 2, 5]); given = delay is None
    settle = ref_add(d0, delay or 0, npc) if not given else ref_add(d0, 2, npc)
    m.case(cal=k, curve=desc, quotes=q, basis=basis.name, offset_months=mo, delay=delay)
    keep = q.copy(deep=True)
    lns = gen.pick(rng, [0, 0.0, .01, .015, .03, .0001])
    args = dict(curve_date=gen.ts(d0), vol_ln_df=q, ln_shift=lns, day_count_basis=basis, zero_curve=ZeroCurve(**kw), optionlet_date_offset=pd.DateOffset(months=mo), busdaycal=npc)
    if given: args['settlement_date'] = gen.ts(settle)
    else: args['settlement_delay'] = delay
    r = m.call('capfloor', process_capfloor_quotes, **args)
    m.ok(q.equals(keep) and list(q.columns) == list(keep.columns), 'inputs-altered')
    V, K, C, O = r['vol_ln_df'], r['strikes'], r['call_put_df'], r['optionlet_df']
    fol = lambda d: ref_add(d, 0, npc)
    eff = fol(gen.add_months(settle, mo))
    terms = [shift(settle, t) for t in tens]
    last = [gen.add_months(t, -mo) for t in terms]
    T = [fol(t) for t in terms]; Lx = [fol(t) for t in last]
    D = lambda col: [x.date() for x in pd.DatetimeIndex(V[col])]
    m.ok(list(V['tenor']) == tens, 'tenors', lambda: dict(got=list(V['tenor'])))
    m.ok(D('settlement_date') == [settle] * len(tens), 'settlement-date', lambda: dict(got=V['settlement_date'], want=str(settle)))
    m.ok(D('effective_date') == [eff] * len(tens), 'effective-date', lambda: dict(got=V['effective_date'], want=str(eff)))
    m.ok(D('termination_date') == T, 'termination-date', lambda: dict(got=V['termination_date'], want=[str(x) for x in T]))
    m.ok(D('last_optionlet_expiry_date') == Lx, 'last-expiry', lambda: dict(got=V['last_optionlet_expiry_date'], want=[str(x) for x in Lx]))
    m.close(V['term_years'].values.astype(float), [ref_yf(eff, t, basis, False) for t in T], 'term-years', 1e-12)
    m.close(V['last_optionlet_expiry_years'].values.astype(float), [ref_yf(d0, t, basis, False) for t in Lx], 'last-expiry-years', 1e-12)
    # optionlets
    hol = {x.astype(object) for x in npc.holidays}
    cal = refsched.Cal([i for i, b in enumerate(npc.weekmask) if not b], hol)
    want, _ = refsched.schedule(eff, max(T), 'quarterly', cal=cal)
    ps, pe = [x.date() for x in pd.DatetimeIndex(O['period_start'])], [x.date() for x in pd.DatetimeIndex(O['period_end'])]
    want = list(zip(want[:-1], want[1:])) if not isinstance(want[0], tuple) else want
    if not m.ok(list(zip(ps, pe)) == want, 'optionlet-periods', lambda: dict(got=[str(x) for x in ps], want=[str(x[0]) for x in want])): return
    al = np.array([ref_yf(x, y, basis, False) for x, y in zip(ps, pe)])
    df = np.array([ref.df_d(y) for y in pe])
    fw = np.array([(ref.df_d(x) / ref.df_d(y) - 1) / ref_yf(x, y, ref.basis, False) for x, y in zip(ps, pe)])
    m.close(O['coupon_term'].values.astype(float), al, 'coupon-term', 1e-12)
    m.close(O['discount_factors'].values.astype(float), df, 'discount-factor', 1e-9)
    m.close(O['annuity_factor'].values.astype(float), al * df, 'annuity', 1e-9)
    m.close(O['F'].values.astype(float), fw, 'optionlet-forward', 1e-7, 1e-9)
    m.close(O['expiry_years'].values.astype(float), [ref_yf(d0, x, basis, False) for x in ps], 'optionlet-expiry', 1e-12)
    F = []
    for t in T:
        k_ = np.array([y <= t for y in pe])
        F.append(float((fw * al * df)[k_].sum() / (al * df)[k_].sum()) if k_.any() else float('nan'))
    m.close(V['F'].values.astype(float), F, 'forward', 1e-7, 1e-9)
    cols = {label(x, sg): (t, float(sg * x / 10000)) for t, x, sg in L}; cols['atmf'] = (a, 0.0)
    m.ok(set(r['quote_columns']) == set(cols), 'quote-columns', lambda: dict(got=r['quote_columns']))
    for c, (t, s) in cols.items():
        if not m.ok(c in V.columns and c in K.columns and c in C.columns, 'column', dict(column=c)): continue
        m.close(V[c].values.astype(float), keep[t].values, 'volatility-moved', 1e-12, 0, dict(column=c))
        m.close(K[c].values.astype(float), V['F'].values.astype(float) + s, 'quote-strike', 1e-10, 1e-13, dict(column=c))
        cp = np.where(np.isnan(V['F'].values.astype(float)), -1, 1 if s > 0 else -1)
        m.close(C[c].values.astype(float), cp, 'call-put', 0, 0, dict(column=c))
    m.close(V['ln_shift'].values.astype(float), [lns] * len(tens), 'shift', 1e-14)
    m.close(O['ln_shift'].values.astype(float), [lns] * len(O), 'optionlet-shift', 1e-14)
    if any(x < 1 and sg > 0 for _, x, sg in L): m.event('just_above_the_money')
    m.event('capfloor'); m.event('settlement_given' if given else 'settlement_delay')
    if tens != sorted(tens, key=TEN.index): m.event('rows_unsorted')


def settlement(m, rng):
    k, npc = calendar(rng)
    d = gen.date(rng); n = int(rng.integers(0, 6))
    m.case(cal=k, date=str(d), delay=n)
    s = m.call('settle', settlement_date_helper, gen.ts(d), None, n, npc)
    m.ok(pd.Timestamp(s).date() == ref_add(d, n, npc), 'settlement', lambda: dict(got=str(s), want=str(ref_add(d, n, npc))))
    g = d + dt.timedelta(int(rng.integers(0, 9)))
    m.ok(pd.Timestamp(m.call('settle', settlement_date_helper, gen.ts(d), gen.ts(g), None, npc)).date() == g, 'settlement-kept')
    m.refuses('neither', settlement_date_helper, gen.ts(d), None, None, npc)
    m.refuses('before', settlement_date_helper, gen.ts(d), gen.ts(d - dt.timedelta(int(rng.integers(1, 9)))), None, npc)
    m.event('settlement')


SECTIONS = [Section('relative', relative, 12000, 100000, ['percent', 'basis_points', 'upper_case', 'fractional', 'unrelated', 'refused']),
            Section('absolute', absolute, 6000, 50000, ['absolute']),
            Section('capfloor', capfloor, 320, 2400, ['capfloor', 'just_above_the_money', 'settlement_given', 'settlement_delay', 'rows_unsorted']),
            Section('settlement', settlement, 3000, 20000, ['settlement'])]
