"""C30 vectors answer element by element what scalars answer."""
import datetime as dt, math
import numpy as np, pandas as pd
from frmmon import Section, CaseAbort
import gen, refcurve
from checks import c16, c18
from checks.c25 import curve as hw_curve
from frm.enums.utils import DayCountBasis as B, CompoundingFreq as CF
from frm.enums import TermRate
from frm.pricing_engine import black76_bachelier as bb
from frm.pricing_engine.garman_kohlhagen import garman_kohlhagen_price as gk, garman_kohlhagen_solve_strike_from_delta as solveK
from frm.pricing_engine.heston import (heston_cosine_price_vanilla_european as cosine, heston_price_vanilla_european as heston, chf_heston_fang2008, chf_heston_albrecher2007)
from frm.pricing_engine.sabr import calc_sln_vol_for_strike_from_sabr_params as sabr
from frm.pricing_engine.volatility_generic import forward_volatility, flat_forward_interp
from frm.pricing_engine.hw1f import HullWhite1Factor
from frm.term_structures.zero_curve import ZeroCurve
from frm.utils.daycount import day_count, year_frac
from frm.utils.tenor import workday

PROPERTY = 'C30'
ANCHORS = ['frm/pricing_engine/black76_bachelier.py', 'frm/pricing_engine/garman_kohlhagen.py', 'frm/pricing_engine/heston.py', 'frm/pricing_engine/sabr.py',
           'frm/pricing_engine/volatility_generic.py', 'frm/pricing_engine/hw1f.py', 'frm/term_structures/zero_curve.py', 'frm/utils/daycount.py', 'frm/utils/tenor.py', 'frm/enums/utils.py']
TECHNIQUE = 'runtime monitoring: differential monitor running every vectorised call again one element at a time'
RULE = ('random vectors of 1 to 9 elements, each argument drawn as a vector, a length-one vector or a plain number wherever the function takes it so, with repeated elements, '
        'unsorted order, mixed option sides and limit values (at the money, expired, zero volatility) at random positions; non-trivial = new function, shapes and values')
ASSUMPTIONS = ['Shapes a function documents as refused (unequal lengths, vectors where a number is required) are left out.',
               'Agreement to 1e-11 relative plus 1e-13 of the size of the inputs (vectorised library functions may differ in the last bits); strikes solved numerically to 1e-9.']


def mix(rng, x, always=None):
    """x (n values) as the vector, or its first value as a number or length-one array, and how to read element i."""
    k = int(rng.integers(3)) if always is None else always
    if len(x) == 1: k = gen.pick(rng, [0, 1, 2])
    if k == 0: return np.array(x), (lambda i: x[i])
    v = x[0]
    return (v if k == 1 else np.array([v])), (lambda i: v)


def form(a): return 'vector' if np.ndim(a) and len(a) > 1 else 'one' if np.ndim(a) else 'number'


def repeat(rng, n, draw):
    """n draws in random order, some of them equal."""
    x = [draw() for _ in range(n)]
    for _ in range(int(rng.integers(0, 3))):
        x[int(rng.integers(n))] = x[int(rng.integers(n))]
    return x


def size(rng): return int(gen.pick(rng, [1, 2, 3, 5, 9]))


def same(m, name, vec, els, n, rtol=1e-11, atol=0.0):
    """vec: dict of vector answers; els: the dicts of scalar answers."""
    for key, v in vec.items():
        if isinstance(v, pd.DataFrame):
            for c in v.columns:
                same(m, '%s:%s' % (name, key), {c: v[c].values}, [{c: e[key][c].values} for e in els], n, rtol, atol)
            m.ok(list(v.columns) == list(els[0][key].columns), name + ':columns')
            continue
        v = np.asarray(v)
        if n == 1: v = v.reshape(-1)
        if not m.ok(v.shape == (n,), '%s:%s:shape' % (name, key), lambda: dict(got=v.shape, n=n)): continue
        want = np.array([np.asarray(e[key]).reshape(-1)[0] for e in els])
        a = np.asarray(atol, float) * np.ones(n)
        with np.errstate(all='ignore'):
            good = (np.abs(v - want) <= a + rtol * np.abs(want)) | (v == want) | (np.isnan(v) & np.isnan(want))
        m.ok(good, '%s:%s' % (name, key), lambda: dict(position=int(np.argmin(good)), vector=v, scalars=want))


def black(m, rng):
    n = size(rng); ln = bool(rng.integers(2))
    tau = repeat(rng, n, lambda: gen.loguniform(rng, 1 / 365, 30))
    F = repeat(rng, n, lambda: rng.uniform(.002, .12))
    K = [f * math.exp(rng.normal() * .3) if rng.integers(4) else f for f in F]
    if not ln: F = [f - gen.pick(rng, [0, .03]) for f in F]
    cp = [int(gen.pick(rng, [1, -1])) for _ in range(n)]
    vol = repeat(rng, n, lambda: gen.loguniform(rng, .05, 1.2) if ln else gen.loguniform(rng, .001, .03))
    sh = repeat(rng, n, lambda: float(gen.pick(rng, [0.0, .01, .03])))
    af = repeat(rng, n, lambda: float(gen.pick(rng, [1.0, rng.uniform(.05, 1)])))
    k = int(gen.pick(rng, [0, 0, 1, 2]))      # forward and expiry come in the same form
    vF, eF = mix(rng, F, k); vt, et = mix(rng, tau, k)
    vF, vt = (np.array([vF]) if np.ndim(vF) == 0 and np.ndim(vt) else vF), vt
    a = {}; e = {}
    for name, x in dict(cp=cp, K=K, vol_sln=vol, ln_shift=sh, annuity_factor=af).items():
        if name == 'vol_sln' and not ln: name = 'vol_n'
        if name == 'ln_shift' and not ln: continue
        a[name], e[name] = mix(rng, x)
    a.update(F=vF, tau=vt); e.update(F=eF, tau=et)
    if rng.integers(3) == 0: a.pop('annuity_factor'); e.pop('annuity_factor')
    flags = dict(intrinsic_time_split=bool(rng.integers(2)), analytical_greeks=bool(rng.integers(2)))
    if ln: flags['numerical_greeks'] = bool(rng.integers(2))
    fn, name = (bb.black76_price, 'black76') if ln else (bb.bachelier_price, 'bachelier')
    N = max([np.size(x) for x in a.values()])
    m.case(fn=name, args=a, flags=flags)
    vec = m.call(name, fn, **a, **flags)
    els = [m.call(name + ':one', fn, **{q: e[q](i) for q in a}, **flags) for i in range(N)]
    scale = np.array([(abs(e['F'](i)) + abs(e['K'](i)) + .05) for i in range(N)])
    same(m, name, vec, els, N, 1e-11, 1e-13 * scale)
    m.event('%s_%s' % (name, '/'.join(sorted({form(x) for x in a.values()}))))
    if N > 1 and form(a['cp']) == 'vector' and all(form(x) != 'vector' for q, x in a.items() if q != 'cp'): m.event('only the side is a vector')


def conversions(m, rng):
    n = size(rng)
    F = repeat(rng, n, lambda: rng.uniform(.002, .12)); K = [f if rng.integers(4) == 0 else f * math.exp(rng.normal() * .3) for f in F]
    tau = repeat(rng, n, lambda: gen.loguniform(rng, 1 / 12, 20)); vs = repeat(rng, n, lambda: gen.loguniform(rng, .05, .8))
    vn = [f * v for f, v in zip(F, vs)]; sh = repeat(rng, n, lambda: float(gen.pick(rng, [0.0, .01, .03])))
    if rng.integers(2):
        xs, fn, name = dict(F=F, tau=tau, vol_n_atm=vn, ln_shift=sh), bb.normal_vol_atm_to_black76_sln_atm, 'normal to black at the money'
    else:
        xs, fn, name = dict(F=F, tau=tau, K=K, vol_sln=vs, ln_shift=sh), bb.black76_sln_to_normal_vol_analytical, 'black to normal expansion'
    a, e = {}, {}
    for q, x in xs.items(): a[q], e[q] = mix(rng, x)
    N = max(np.size(x) for x in a.values())
    m.case(fn=name, args=a)
    got = m.call(name, fn, **a)
    if np.ndim(got) == 0: got = np.array([got])
    same(m, name, {'vol': got}, [{'vol': m.call(name + ':one', fn, **{q: e[q](i) for q in a})} for i in range(N)], N, 1e-11, 0)
    m.event(name)


def fx(m, rng):
    n = size(rng)
    M = [c16.market(rng)[0] for _ in range(n)]
    base = M[0]
    one_market = bool(rng.integers(2))
    if one_market: M = [{**base, 'vol': min(base['vol'] * gen.loguniform(rng, .5, 2), 5 / math.sqrt(base['tau']))} for _ in range(n)]
    S, tau, rd, rf = [[q[k] for q in M] for k in ('S', 'tau', 'rd', 'rf')]
    hasF = all(q['F'] is not None for q in M) or (one_market and bool(base['F']))
    fw = [q['F'] or q['S'] * math.exp((q['rd'] - q['rf']) * q['tau']) for q in M]
    K = [f * math.exp(float(np.clip(rng.normal() * q['vol'] * math.sqrt(q['tau']), -3, 3))) if rng.integers(4) else f for f, q in zip(fw, M)]
    cp = [int(gen.pick(rng, [1, -1])) for _ in range(n)]; vol = [q['vol'] for q in M]
    flags = dict(intrinsic_time_split=bool(rng.integers(2)), analytical_greeks=bool(rng.integers(2)), numerical_greeks=bool(rng.integers(2)) and min(tau) > .01)
    expired = not flags['numerical_greeks'] and not flags['analytical_greeks'] and not hasF and rng.integers(4) == 0
    if expired:
        for i in range(n):
            if rng.integers(2): tau[i] = 0.0
        if one_market: tau = [tau[0]] * n
    a, e = {}, {}
    kk = int(gen.pick(rng, [0, 0, 0, 1]))      # strike, side and volatility come in the same form
    for q, x in dict(cp=cp, K=K, vol=vol).items():
        a[q], e[q] = mix(rng, x, kk)
    for q, x in dict(S0=S, tau=tau, r_d=rd, r_f=rf).items():
        a[q], e[q] = mix(rng, x, None if one_market else 0)
    if hasF: a['F'], e['F'] = mix(rng, [q['F'] for q in M], None if one_market else 0)
    N = max(np.size(x) for q, x in a.items() if not (hasF and q == 'r_d'))
    if np.size(a['r_d']) > N: a['r_d'] = rd[0]
    m.case(fn='gk', args=a, flags=flags)
    vec = m.call('gk', gk, **a, **flags)
    els = [m.call('gk:one', gk, **{q: e[q](i) for q in a}, **flags) for i in range(N)]
    scale = np.array([e['S0'](i) + e['K'](i) for i in range(N)])
    for key, v in vec.items():
        t = 1e-12 * scale
        if key.endswith('greeks'): t = 1e-11 * scale + 1e-11
        same(m, 'gk', {key: v}, [{key: x[key]} for x in els], N, 1e-10, t)
    m.event('gk_%s%s' % ('/'.join(sorted({form(x) for x in a.values()})), '_expired' if expired else ''))
    # strikes from deltas: volatility and delta are vectors
    conv = gen.pick(rng, ['regular_spot', 'regular_forward', 'premium_adjusted_spot', 'premium_adjusted_forward'])
    t0 = min(max(base['tau'], .02), 5.0); v = [min(max(base['vol'], .03), .4 / math.sqrt(max(t0, 1))) * math.exp(rng.uniform(-.2, .2)) for _ in range(n)]
    d = [float(gen.pick(rng, [.5, -.5, .1, -.1, .25, -.25, rng.uniform(.03, .35), -rng.uniform(.03, .35)])) for _ in range(n)]
    if rng.integers(3) == 0:        # quiet and wild volatilities side by side (a wild one goes with a delta its premium-adjusted call can reach)
        v = [gen.loguniform(rng, .03, 1.4 / math.sqrt(max(t0, .1))) for _ in range(n)]
        d = [y if y <= .12 or y == .5 or x * math.sqrt(t0) < .4 else float(rng.uniform(.03, .12)) for x, y in zip(v, d)]
        m.event('strike_mixed_vols')
    r1, r2 = float(np.clip(base['rd'], -.02, .05)), float(np.clip(base['rf'], -.02, .05))
    kw = dict(S0=base['S'], tau=t0, r_d=r1, r_f=r2, delta_convention=conv, atm_delta_convention=gen.pick(rng, ['forward', 'per_delta_convention']))
    if rng.integers(2): kw['F'] = base['S'] * math.exp((r1 - r2 + .003) * t0)
    m.case(fn='strike', vols=v, deltas=d, **kw)
    got = m.call('strike', solveK, vol=np.array(v), signed_delta=np.array(d), **kw)
    same(m, 'strike:' + conv, {'K': got}, [{'K': m.call('strike:one', solveK, vol=x, signed_delta=y, **kw)} for x, y in zip(v, d)], n, 1e-9, 0)
    m.event('strike_' + conv)


def hestons(m, rng):
    n = size(rng)
    p, tau, S, r, q = c18.params(rng)
    sd = math.sqrt(max(p['var0'], p['theta']) * tau)
    f = S * math.exp((r - q) * tau)
    K = repeat(rng, n, lambda: f * math.exp(float(np.clip(rng.normal() * sd, -2, 2))))
    cp = [int(gen.pick(rng, [1, -1])) for _ in range(n)]
    kw = dict(S0=S, tau=tau, r=r, q=q, **p)
    opt = dict(N=int(gen.pick(rng, [64, 160, 256])), L=float(gen.pick(rng, [8, 10, 12])), calculate_via_put_call_parity=bool(rng.integers(2)))
    m.case(fn='heston cosine', K=K, cp=cp, opt=opt, **kw)
    if rng.integers(2):
        vec = m.call('heston', heston, K=np.array(K), cp=np.array(cp), lambda_=0.0, pricing_method='heston_cosine', **kw)
        els = [m.call('heston:one', heston, K=k, cp=c, lambda_=0.0, pricing_method='heston_cosine', **kw) for k, c in zip(K, cp)]
    else:
        vec = m.call('cosine', cosine, K=np.array(K), cp=np.array(cp), **opt, **kw)
        els = [m.call('cosine:one', cosine, K=k, cp=c, **opt, **kw) for k, c in zip(K, cp)]
    # the payoff coefficients of a call grow with the exponential of the truncation range
    noise = 1.0 if opt['calculate_via_put_call_parity'] else 1e3 + 1e-3 * math.exp(min(1.2 * opt['L'] * sd, 600))
    same(m, 'heston cosine', {'price': vec}, [{'price': x} for x in els], n, 1e-10, np.where(np.array(cp) == 1, noise, 1.0) * 1e-11 * (S + max(K)))
    m.event('heston cosine' + (' mixed sides' if len(set(cp)) > 1 else ''))
    u = np.array(repeat(rng, n, lambda: gen.loguniform(rng, .01, 60)))
    for name, fn, extra in (('cf fang', chf_heston_fang2008, {}), ('cf albrecher', chf_heston_albrecher2007, dict(log_S0=math.log(S)))):
        k = dict(tau=tau, r=r, q=q, **p, **extra)
        vec = m.call(name, fn, u=u, **k)
        els = [complex(m.call(name + ':one', fn, u=float(x), **k)) for x in u]
        same(m, name, {'re': np.real(vec), 'im': np.imag(vec)}, [{'re': z.real, 'im': z.imag} for z in els], n, 1e-9, 1e-11)


def sabrs(m, rng):
    n = size(rng)
    sh = float(gen.pick(rng, [0.0, .02, .03]))
    F = repeat(rng, n, lambda: rng.uniform(.005, .1)); beta = repeat(rng, n, lambda: float(gen.pick(rng, [0.0, 1.0, .5, rng.uniform(0, 1)])))
    P = dict(tau=repeat(rng, n, lambda: gen.loguniform(rng, .1, 20)), F=F, beta=beta, alpha=[gen.loguniform(rng, .05, .6) * (f + sh) ** (1 - b) for f, b in zip(F, beta)],
             rho=repeat(rng, n, lambda: rng.uniform(-.9, .9)), volvol=repeat(rng, n, lambda: gen.loguniform(rng, .01, 1.5)))
    k = int(gen.pick(rng, [0, 0, 1, 2]))
    a, e = {}, {}
    for q, x in P.items(): a[q], e[q] = mix(rng, x, k)
    if k: F = [F[0]] * n
    K = [gen.pick(rng, [f, f * (1 + 3e-7), f * math.exp(rng.normal() * .4), max(f + rng.normal() * .01, .0005)]) for f in F]
    a['K'], e['K'] = mix(rng, [float(x) for x in K])
    N = max(np.size(x) for x in a.values())
    m.case(fn='sabr', args=a, ln_shift=sh)
    shift = gen.pick(rng, [sh, np.array([sh])])
    got = m.call('sabr', sabr, ln_shift=shift, **a)
    if N == 1: m.ok(np.ndim(got) == 0, 'sabr:number'); got = np.array([got])
    same(m, 'sabr', {'vol': got}, [{'vol': m.call('sabr:one', sabr, ln_shift=sh, **{q: e[q](i) for q in a})} for i in range(N)], N, 1e-10, 0)
    m.event('sabr_' + form(a['tau']) + '_' + form(a['K']))


def vols(m, rng):
    n = size(rng)
    t1 = repeat(rng, n, lambda: gen.loguniform(rng, 1 / 365, 10)); gap = [gen.loguniform(rng, 1 / 365, 5) for _ in t1]
    v1 = repeat(rng, n, lambda: gen.loguniform(rng, .02, 1)); one = bool(rng.integers(2))
    if one: t1, gap = [t1[0]] * n, [gap[0]] * n
    t2 = [a + g for a, g in zip(t1, gap)]
    v2 = [math.sqrt((v * v * a + rng.uniform(.01, 1) * v * v * g) / b) for v, a, b, g in zip(v1, t1, t2, gap)]
    if rng.integers(4) == 0:
        i = int(rng.integers(n)); 
        if not one: t2[i], v2[i] = t1[i], v1[i]
    a, e = {}, {}
    for q, x in dict(t1=t1, t2=t2).items(): a[q], e[q] = mix(rng, x, None if one else 0)
    for q, x in dict(vol_t1=v1, vol_t2=v2).items(): a[q], e[q] = mix(rng, x, 0)
    N = n
    m.case(fn='volatility', args=a)
    eq = [x == y for x, y in zip(t1, t2)]
    got = m.call('forward', forward_volatility, **a)
    same(m, 'forward volatility', {'vol': got}, [{'vol': m.call('forward:one', forward_volatility, **{q: e[q](i) for q in a})} for i in range(N)], N, 1e-10, 0)
    t = [x + gen.pick(rng, [0, 1, rng.uniform(0, 1), -.5, 1.5]) * (y - x) for x, y in zip(t1, t2)]
    t = [max(x, 1e-4) for x in t]
    a['t'], e['t'] = mix(rng, t, None if one else 0)
    m.case(fn='interp', args=a)
    got = m.call('interp', flat_forward_interp, **a)
    same(m, 'flat forward', {'vol': got}, [{'vol': m.call('interp:one', flat_forward_interp, **{q: e[q](i) for q in a})} for i in range(N)], N, 1e-10, 0)
    m.event('volatility' + ('_coincident' if any(eq) else '') + ('_shared' if one else ''))


def dates(m, rng):
    n = size(rng); basis = gen.pick(rng, list(B))
    s = repeat(rng, n, lambda: gen.date(rng)); lag = repeat(rng, n, lambda: int(gen.pick(rng, [0, 1, 30, rng.integers(0, 8000)])))
    f = lambda x: pd.Timestamp(x)
    case = int(rng.integers(3))
    if case == 1: s = [s[0]] * n
    e = [x + dt.timedelta(k) for x, k in zip(s, lag)]
    if case == 2: s = [min(s)] * n if rng.integers(2) else s; e = [max(e)] * n
    box = gen.pick(rng, [lambda x: pd.DatetimeIndex([f(v) for v in x]), lambda x: pd.Series([f(v) for v in x], index=range(5, 5 + len(x))), lambda x: [f(v) for v in x]])
    A = f(s[0]) if case == 1 else box(s); C = f(e[0]) if case == 2 else box(e)
    if case == 2 and len(set(s)) == 1 and rng.integers(2): A = box(s)
    on = gen.pick(rng, [True, False]) if basis.name in ('_30E_ISDA_360', '_30E_360_ISDA') or rng.integers(2) else None
    kw = {} if on is None else dict(is_end_date_on_termination=on)
    m.case(fn='daycount', basis=basis.name, start=[str(x) for x in s], end=[str(x) for x in e], case=case, on=on)
    for name, fn in (('day_count', day_count), ('year_frac', year_frac)):
        try: want = [fn(f(x), f(y), basis, **kw) for x, y in zip(s, e)]
        except Exception: m.event('basis refused'); continue
        got = np.atleast_1d(m.call(name, fn, A, C, basis, **kw))
        same(m, name, {'value': got}, [{'value': x} for x in want], n, 1e-14, 0)
        m.event(name + ['', '_one start', '_one end'][case])
    hol = [np.datetime64(s[0] + dt.timedelta(int(k))) for k in rng.integers(-10, 60, 12)]
    cal = np.busdaycalendar(weekmask=gen.pick(rng, ['1111100', '1111110', '0111110']), holidays=hol)
    off = int(rng.integers(-5, 6))
    got = m.call('workday', workday, dates=pd.DatetimeIndex([f(x) for x in s]), offset=off, cal=cal)
    want = [m.call('workday:one', workday, dates=f(x), offset=off, cal=cal) for x in s]
    m.ok(len(got) == n and [f(x) for x in got] == [f(x) for x in want], 'workday', lambda: dict(vector=[str(x) for x in got], scalars=[str(x) for x in want]))


def curves(m, rng):
    kw, R, desc, pill = refcurve.make(rng)
    n = size(rng)
    m.case(**desc)
    zc = m.call('build', ZeroCurve, **kw)
    horizon = max((R.max_date - R.date).days, 2)
    d = repeat(rng, n, lambda: R.date + dt.timedelta(int(rng.integers(1, horizon))))
    T = [gen.ts(x) for x in d]
    box = gen.pick(rng, [pd.DatetimeIndex, lambda x: pd.Series(x, index=range(7, 7 + len(x)))])
    comp = gen.pick(rng, refcurve.COMP)
    one = lambda x: np.asarray(x, float).reshape(-1)
    got = m.call('df', zc.get_discount_factors, dates=box(T))
    same(m, 'discount factor by date', {'v': one(got)}, [{'v': one(m.call('df:one', zc.get_discount_factors, dates=t))} for t in T], n, 1e-12)
    got = m.call('zr', zc.get_zero_rates, dates=box(T), compounding_freq=comp)
    same(m, 'zero rate by date', {'v': one(got)}, [{'v': one(m.call('zr:one', zc.get_zero_rates, dates=t, compounding_freq=comp))} for t in T], n, 1e-11, 1e-14)
    y = repeat(rng, n, lambda: float(rng.uniform(.01, R.max_t)))
    Y = gen.pick(rng, [pd.Series, np.array])(y)
    got = m.call('df years', zc.get_discount_factors, years=Y)
    same(m, 'discount factor by years', {'v': one(got)}, [{'v': one(m.call('df:one', zc.get_discount_factors, years=t))} for t in y], n, 1e-12)
    got = m.call('zr years', zc.get_zero_rates, years=Y, compounding_freq=comp)
    same(m, 'zero rate by years', {'v': one(got)}, [{'v': one(m.call('zr:one', zc.get_zero_rates, years=t, compounding_freq=comp))} for t in y], n, 1e-11, 1e-14)
    if R.interp != refcurve.IM.LINEAR_ON_LN_DISCOUNT:
        got = m.call('inst', zc.get_instantaneous_forward_rate, np.array(y))
        same(m, 'instantaneous forward', {'v': one(got)}, [{'v': one(m.call('inst:one', zc.get_instantaneous_forward_rate, t))} for t in y], n, 1e-9, 1e-12)
        m.event('instantaneous forward')
    s = [R.date + dt.timedelta(int(rng.integers(0, horizon - 1))) for _ in range(n)]
    e = [x + dt.timedelta(int(rng.integers(1, max(2, min(400, (R.max_date - x).days))))) for x in s]
    if all(x <= R.max_date for x in e):
        tp = gen.pick(rng, list(TermRate))
        a, b = [gen.ts(x) for x in s], [gen.ts(x) for x in e]
        try: want = [one(zc.get_forward_rates(x, z, tp)) for x, z in zip(a, b)]
        except Exception: want = None; m.event('forward refused')
        if want:
            got = m.call('forward', zc.get_forward_rates, box(a), box(b), tp)
            same(m, 'forward rate', {'v': one(got)}, [{'v': x} for x in want], n, 1e-10, 1e-13)
            m.event('forward rates')
    # conversions between rates and discount factors
    ys, rs = np.array(y), np.array([float(rng.uniform(-.01, .15)) for _ in y])
    df = m.call('from rate', comp.calc_discount_factor_from_zero_rate, ys, rs)
    same(m, 'rate to factor', {'v': df}, [{'v': m.call('from rate:one', comp.calc_discount_factor_from_zero_rate, a, b)} for a, b in zip(y, rs.tolist())], n, 1e-12)
    z = m.call('to rate', comp.calc_zero_rate_from_discount_factor, ys, np.asarray(df))
    same(m, 'factor to rate', {'v': z}, [{'v': m.call('to rate:one', comp.calc_zero_rate_from_discount_factor, a, float(b))} for a, b in zip(y, np.asarray(df))], n, 1e-11, 1e-14)
    m.event('curve_' + R.interp.name)


def hull_white(m, rng):
    kw, desc = hw_curve(rng)
    n = size(rng)
    zc = m.call('curve', ZeroCurve, **kw)
    a, s = gen.loguniform(rng, .005, .6), float(gen.pick(rng, [gen.loguniform(rng, .0005, .04), .01, 0.0]))
    hw = m.call('model', HullWhite1Factor, zero_curve=zc, mean_rev_lvl=a, vol=s)
    tmax = float(zc.pillar_df['years'].max())
    T = repeat(rng, n, lambda: float(rng.uniform(.02, .9) * tmax)); one = bool(rng.integers(2))
    if one: T = [T[0]] * n
    S = [t + float(rng.uniform(.02, 1)) * (tmax - t) for t in T]
    if one and rng.integers(2): S = [S[0]] * n
    df = lambda t: float(np.asarray(zc.get_discount_factors(years=t)).reshape(-1)[0])
    K = [df(y) / df(x) * math.exp(rng.normal() * .02) for x, y in zip(T, S)]
    cp = [int(gen.pick(rng, [1, -1])) for _ in range(n)]
    m.case(a=a, s=s, T=T, S=S, K=K, cp=cp, **desc)
    g, e = {}, {}
    for q, x, lone in (('expiry_years', T, one), ('maturity_years', S, one and len(set(S)) == 1), ('K', K, True), ('cp', cp, True)):
        g[q], e[q] = mix(rng, x, None if lone else 0)
    N = max(np.size(x) for x in g.values())
    got = m.call('bond option', hw.price_zero_coupon_bond_option, **g)
    same(m, 'bond option', {'price': got}, [{'price': m.call('bond option:one', hw.price_zero_coupon_bond_option, **{q: e[q](i) for q in g})} for i in range(N)], N, 1e-11, 1e-14)
    m.event('bond option_' + '/'.join(sorted({form(x) for x in g.values()})))
    R = [(1 / k - 1) / (y - x) for x, y, k in zip(T, S, K)]
    g, e = {}, {}
    for q, x, lone in (('effective_years', T, one), ('termination_years', S, one and len(set(S)) == 1), ('K', R, True), ('cp', cp, True)):
        g[q], e[q] = mix(rng, x, None if lone else 0)
    N = max(np.size(x) for x in g.values())
    got = m.call('optionlet', hw.price_optionlet, **g)
    same(m, 'optionlet', {'price': got}, [{'price': m.call('optionlet:one', hw.price_optionlet, **{q: e[q](i) for q in g})} for i in range(N)], N, 1e-11, 1e-14)
    m.event('optionlet_' + '/'.join(sorted({form(x) for x in g.values()})))


SECTIONS = [Section('black', black, 2000, 35000, ['only the side is a vector', 'black76_number/one/vector', 'bachelier_number/one/vector']),
            Section('conversions', conversions, 1500, 25000, ['normal to black at the money', 'black to normal expansion']),
            Section('fx', fx, 900, 14000, ['gk_number/one/vector', 'gk_number/one/vector_expired', 'strike_mixed_vols', 'strike_premium_adjusted_spot', 'strike_regular_forward']),
            Section('heston', hestons, 500, 8000, ['heston cosine mixed sides']),
            Section('sabr', sabrs, 2000, 40000, ['sabr_vector_vector', 'sabr_vector_number', 'sabr_number_vector']),
            Section('vols', vols, 1500, 25000, ['volatility_coincident', 'volatility_shared']),
            Section('dates', dates, 1500, 25000, ['day_count', 'year_frac', 'year_frac_one start', 'year_frac_one end']),
            Section('curves', curves, 250, 3500, ['forward rates', 'instantaneous forward']),
            Section('hull_white', hull_white, 200, 3000, ['bond option_number/one/vector', 'optionlet_number/one/vector'])]
