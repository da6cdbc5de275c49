"""C15 Black-76 and Bachelier greeks against derivatives of the reference price."""
import math
import numpy as np
from frmmon import Section
import gen, refopt
from checks import c14
from frm.pricing_engine import black76_bachelier as bb

PROPERTY = 'C15'
ANCHORS = ['frm/pricing_engine/black76_bachelier.py']
RULE = ('markets as C14; analytical greeks against complex-step-free central differences of an independent closed form; numerical greeks must '
        'lie between the extremes of the true derivative over the bumped interval; non-trivial = new market')
ASSUMPTIONS = ['Units: delta per unit of forward, Black vega per 1% of volatility, Bachelier vega per basis point, Bachelier theta per calendar day '
               '(365.25 a year) with the annuity held fixed.',
               'Numerical greeks are judged for volatilities above 2% (the bump is one volatility point).']


def deriv(f, x, h):
    return (8 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))) / (12 * h)


def black(m, rng):
    n = int(gen.pick(rng, [1, 1, 5]))
    q = c14.market(rng, n=n)
    F, tau, vol, sh, A = q['F'], q['tau'], max(q['vol'], .022), q['shift'], q['A']
    sd = vol * math.sqrt(tau)
    Ks, cps = np.array(q['Ks']), np.array(q['cps'])
    vols = vol * np.exp(rng.uniform(0, .3, n)) if n > 1 else np.array([vol])
    many = n > 1 and rng.integers(2)
    if many:        # every element its own market
        qs = [c14.market(rng) for _ in range(n)]
        Ks, cps, vols = np.array([x['Ks'][0] for x in qs]), np.array([x['cps'][0] for x in qs]), np.array([max(x['vol'], .022) for x in qs])
        args = dict(F=np.array([x['F'] for x in qs]), tau=np.array([x['tau'] for x in qs]), cp=cps, K=Ks, vol_sln=vols, ln_shift=np.array([x['shift'] for x in qs]), annuity_factor=np.array([x['A'] for x in qs], float))
        q = {k: v.tolist() for k, v in args.items()}
        m.event('own_markets')
        if rng.integers(2):     # the same market more than once
            p = rng.integers(0, n, n); args = {k: v[p] for k, v in args.items()}; cps, Ks, vols = args['cp'], args['K'], args['vol_sln']; m.event('repeats')
            q = {k: v.tolist() for k, v in args.items()}
    whole = not many and rng.integers(4) == 0
    if whole:                   # whole numbers
        F, tau, sh, A = int(rng.integers(1, 200)), int(rng.integers(1, 12)), int(rng.integers(0, 3)), int(rng.integers(1, 4))
        Ks, vols = rng.integers(1, 200, n), (vols if rng.integers(2) else np.ones(n, int))
        q = dict(F=F, tau=tau, shift=sh, A=A, Ks=Ks.tolist(), cps=cps.tolist()); vol = vols[0].item(); m.event('whole')
    m.case(**{**q, 'vol': vols.tolist()})
    if many: pass
    elif n == 1:
        args = dict(F=F, tau=tau, cp=int(cps[0]), K=Ks[0].item(), vol_sln=vol, ln_shift=sh, annuity_factor=A)
    else:
        args = dict(F=np.full(n, F), tau=np.full(n, tau), cp=cps, K=Ks, vol_sln=vols, ln_shift=sh, annuity_factor=A)
    r = m.call('black', bb.black76_price, analytical_greeks=True, numerical_greeks=True, **args)
    ga, gn = r['analytical_greeks'], r['numerical_greeks']
    m.ok(len(ga) == n and len(gn) == n, 'rows')
    for i in range(n):
        if many: F, tau, sh, A = (float(args[x][i]) for x in ('F', 'tau', 'ln_shift', 'annuity_factor'))
        f = F + sh
        sq = math.sqrt(tau)
        k, c, v = Ks[i] + sh, int(cps[i]), vols[i]
        w = dict(row=i, K=Ks[i], cp=c, vol=v)
        px = lambda f_, v_: A * refopt.black(f_, k, v_ * sq, c)
        hf, hv = 1e-3 * f * min(v * sq, 1.0), 1e-3 * v
        dl = lambda f_: A * c * refopt.N(c * (math.log(f_ / k) / (v * sq) + .5 * v * sq))
        vg = lambda v_: .01 * A * f * sq * refopt.n(math.log(f / k) / (v_ * sq) + .5 * v_ * sq)
        # the closed-form greeks of the oracle are themselves checked against differences of the oracle's price
        if 1e-3 < k / f < 1e3:
            m.close(deriv(lambda x: px(x, v), f, hf), dl(f), 'oracle:delta', 1e-6, 1e-6 * A, w)
            m.close(.01 * deriv(lambda x: px(f, x), v, hv), vg(v), 'oracle:vega', 1e-6, 1e-8 * A * f * sq, w)
        m.close(float(ga['delta'].iloc[i]), dl(f), 'black:delta', 1e-9, 1e-11 * A, w)
        m.close(float(ga['vega'].iloc[i]), vg(v), 'black:vega', 1e-9, 1e-13 * A * f * sq, w)
        d = float(gn['delta'].iloc[i])
        xs = np.linspace(.98, 1.02, 9)
        ds = [dl(f * x) for x in xs]
        e = 2e-9 * A * (1 + k / f)
        m.ok(min(ds) - e <= d <= max(ds) + e, 'black:numerical-delta', dict(got=d, low=min(ds), high=max(ds), **w))
        if v > .03:
            vs = [vg(x) for x in np.linspace(v - .02, v + .02, 41)]
            g = float(gn['vega'].iloc[i])
            e = 1e-3 * (max(vs) - min(vs)) + 1e-11 * A * (f + k)
            m.ok(min(vs) - e <= g <= max(vs) + e, 'black:numerical-vega', dict(got=g, low=min(vs), high=max(vs), **w))
            m.event('numerical_vega')
    m.event('vector' if n > 1 else 'scalar')
    if sh: m.event('shifted')


def bachelier(m, rng):
    n = int(gen.pick(rng, [1, 1, 5]))
    q = c14.market(rng, n=n)
    F, tau, A = q['F'], max(q['tau'], 1e-3), q['A']
    vol = gen.pick(rng, [q['vol'] * max(abs(F + q['shift']), 1e-4), gen.loguniform(rng, 1e-4, 10)])
    sq = math.sqrt(tau)
    vols = vol * np.exp(rng.uniform(0, .3, n)) if n > 1 else np.array([vol])
    Ks, cps = F + rng.normal(0, 1.3, n) * vol * sq * (rng.integers(4) > 0), np.array(q['cps'])
    many = n > 1 and rng.integers(2)
    if many:
        Fs, ts, As = np.array([c14.market(rng)['F'] for _ in range(n)]), np.array([max(c14.market(rng)['tau'], 1e-3) for _ in range(n)]), np.exp(rng.normal(0, 2, n))
        vols = np.array([gen.loguniform(rng, 1e-4, 10) for _ in range(n)]); Ks = Fs + rng.normal(0, 1.3, n) * vols * np.sqrt(ts)
        F, tau, A = Fs.tolist(), ts.tolist(), As.tolist()
        if rng.integers(2):     # the same market more than once
            p = rng.integers(0, n, n); Fs, ts, cps, Ks, vols, As = (x[p] for x in (Fs, ts, cps, Ks, vols, As)); F, tau, A = Fs.tolist(), ts.tolist(), As.tolist()
        args = dict(F=Fs, tau=ts, cp=cps, K=Ks, vol_n=vols, annuity_factor=As)
    elif rng.integers(4) == 0:  # whole numbers
        F, tau, A = int(rng.integers(-5, 200)), int(rng.integers(1, 12)), int(rng.integers(1, 4))
        Ks, vols = F + rng.integers(-20, 20, n), rng.integers(1, 20, n)
        sq = math.sqrt(tau); m.event('whole')
    m.case(F=F, tau=tau, A=A, K=Ks.tolist(), cp=cps.tolist(), vol=vols.tolist())
    if many: pass
    elif n == 1:
        args = dict(F=F, tau=tau, cp=int(cps[0]), K=Ks[0].item(), vol_n=vols[0].item(), annuity_factor=A)
    else:
        args = dict(F=np.full(n, F), tau=np.full(n, tau), cp=cps, K=Ks, vol_n=vols, annuity_factor=A)
    r = m.call('bachelier', bb.bachelier_price, analytical_greeks=True, **args)
    ga = r['analytical_greeks']
    m.ok(len(ga) == n, 'rows')
    for i in range(n):
        if many: F, tau, A = float(Fs[i]), float(ts[i]), float(As[i]); sq = math.sqrt(tau)
        k, c, v = Ks[i], int(cps[i]), vols[i]
        w = dict(row=i, K=k, cp=c, vol=v)
        px = lambda f_, v_, t_: A * refopt.normal(f_, k, v_ * math.sqrt(t_), c)
        d = (F - k) / (v * sq)
        want = dict(delta=A * c * refopt.N(c * d), vega=1e-4 * A * sq * refopt.n(d), theta=-A * v * refopt.n(d) / (2 * sq) / 365.25)
        m.close(deriv(lambda x: px(x, v, tau), F, 1e-3 * v * sq), want['delta'], 'oracle:delta', 1e-5, 1e-6 * A * (1 + abs(F) / (v * sq) * 1e-6), w)
        m.close(1e-4 * deriv(lambda x: px(F, x, tau), v, 1e-3 * v), want['vega'], 'oracle:vega', 1e-5, 1e-9 * A * sq * (1 + 1e-6 * abs(F) / (v * sq)), w)
        m.close(-deriv(lambda x: px(F, v, x), tau, 1e-3 * tau) / 365.25, want['theta'], 'oracle:theta', 1e-5, 1e-7 * A * v / sq * (1 + 1e-6 * abs(F) / (v * sq)), w)
        for g, wt in want.items():
            m.close(float(ga[g].iloc[i]), wt, 'bachelier:' + g, 1e-9, 1e-12 * (A if g == 'delta' else A * sq * 1e-4 if g == 'vega' else A * v / sq), w)
    m.event('bachelier')


SECTIONS = [Section('black', black, 8000, 50000, ['vector', 'scalar', 'shifted', 'numerical_vega', 'own_markets', 'repeats', 'whole']),
            Section('bachelier', bachelier, 6000, 40000, ['bachelier', 'whole'])]
