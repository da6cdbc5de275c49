"""C24 forward volatility and flat-forward interpolation."""
import math, warnings
import numpy as np
from frmmon import Section
import gen
from frm.pricing_engine.volatility_generic import forward_volatility as fv, flat_forward_interp as ffi

PROPERTY = 'C24'
ANCHORS = ['frm/pricing_engine/volatility_generic.py']
TECHNIQUE = 'runtime monitoring: total-variance conservation monitors and a scalar reference over random term structures'
RULE = ('random pairs and whole term structures of times and volatilities (rising, falling, flat, near the zero-forward-variance limit), scalar, one- and two-dimensional '
        'inputs with integers, coincident pillars, times at, between and outside the pillars; non-trivial = new times, volatilities and shape')
ASSUMPTIONS = ['Negative forward variance is required to be refused when it is below -1e-9 of the total variance (closer to zero is rounding).']


def pair(rng, ok=True):
    t1 = math.exp(rng.uniform(math.log(1 / 365), math.log(20))); t2 = t1 + math.exp(rng.uniform(math.log(1 / 365), math.log(20)))
    v1 = math.exp(rng.uniform(math.log(.005), math.log(1.5)))
    w1 = v1 * v1 * t1
    if ok: w2 = w1 + math.exp(rng.uniform(math.log(1e-4), math.log(3))) * w1 * gen.pick(rng, [1, 1, .001])
    else: w2 = w1 * (1 - rng.uniform(1e-6, .9))
    return t1, v1, t2, math.sqrt(w2 / t2)


def form(rng, *xs):
    """The same scalars as python floats, numpy scalars, 0-d, 1-d or 2-d arrays."""
    k = int(rng.integers(5))
    f = [float, np.float64, np.array, lambda x: np.array([x]), lambda x: np.array([[x]])][k]
    return [f(x) for x in xs], k


def forward(m, rng):
    n = int(gen.pick(rng, [0, 0, 1, 2, 5, 12]))
    if n == 0:
        good = rng.integers(5) > 0
        t1, v1, t2, v2 = pair(rng, good)
        if rng.integers(6) == 0 and good: t1, t2 = 0.0, t2 - t1
        (a, b, c, d), k = form(rng, t1, v1, t2, v2)
        m.case(t1=a, v1=b, t2=c, v2=d, form=k)
        if not good:
            m.refuses('negative variance', fv, a, b, c, d); m.event('negative_refused'); return
        got = m.call('forward', fv, a, b, c, d)
        m.ok(np.shape(got) == np.shape(a), 'shape', dict(got=np.shape(got)))
        g = float(np.asarray(got).reshape(-1)[0])
        m.close(v1 ** 2 * t1 + g * g * (t2 - t1), v2 ** 2 * t2, 'total-variance', 1e-11, 0, lambda: dict(forward=g))
        m.ok(g >= 0, 'sign'); m.event('forward_scalar')
        m.refuses('reversed', fv, c, d, a, b); m.event('reversed_refused')
        if t1 > 0 and rng.integers(3) == 0:      # no variance between the dates, exactly representable
            e = m.call('forward', fv, *[f(x) for f, x in zip([type(a)] * 4 if k < 2 else [np.array] * 4, (t1, v1, 4 * t1, v1 / 2))])
            m.ok(np.all(np.asarray(e) == 0), 'zero-forward-variance', lambda: dict(got=e)); m.event('zero_variance')
        if k < 2:
            same = m.call('forward', fv, a, b, a, b)
            m.ok(np.isnan(same), 'equal-times-number', lambda: dict(got=same)); m.event('equal_scalar')
        return
    kcols = int(rng.integers(0, 4))
    P = [[pair(rng) for _ in range(max(kcols, 1))] for _ in range(n)]
    t1 = np.array([r[0][0] for r in P]); t2 = np.array([r[0][2] for r in P])
    v1 = np.array([[c[1] for c in r] for r in P]); 
    ratio = np.array([[c[3] ** 2 * c[2] / (c[1] ** 2 * c[0]) for c in r] for r in P])
    w1 = v1 ** 2 * t1[:, None]; v2 = np.sqrt(w1 * ratio / t2[:, None])
    eq = rng.integers(3) == 0
    if eq:
        j = int(rng.integers(n)); t2[j] = t1[j]
    if kcols == 0: a, b, c, d = t1, v1[:, 0], t2, v2[:, 0]
    else: a, b, c, d = t1[:, None], v1, t2[:, None], v2
    if not eq and rng.integers(6) == 0:         # whole-number times; level or repeated volatilities
        a = np.sort(rng.integers(1, 20, n)); t1 = a.astype(float); t2 = t1 + rng.integers(1, 9, n); c = t2.astype(int)
        b = np.full(n, v1[0, 0]) if rng.integers(2) else rng.integers(1, 3, n)
        v1, d = b[:, None] * 1.0, b * rng.integers(1, 3, n); v2 = d[:, None] * 1.0
        m.event('whole')
    keep = [x.copy() for x in (a, b, c, d)]
    m.case(t1=a, v1=b, t2=c, v2=d)
    def recorded(*x):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            return fv(*x), w
    got, caught = m.call('forward', recorded, a, b, c, d)
    got = np.asarray(got)
    m.ok(bool(caught) == bool(np.any(t1 == t2)), 'warns-of-equal-times', lambda: dict(warnings=[str(x.message) for x in caught], equal=bool(np.any(t1 == t2))))
    if not m.ok(got.shape == np.broadcast_shapes(a.shape, b.shape), 'shape', dict(got=got.shape)): return
    m.ok(all(np.array_equal(x, y) for x, y in zip(keep, (a, b, c, d))), 'inputs-altered')
    g = got.reshape(n, -1)
    for i in range(n):
        if t1[i] == t2[i]:
            m.ok(np.all(~np.isfinite(g[i])), 'equal-times-number', lambda: dict(got=g[i])); m.event('equal_element'); continue
        m.close(v1[i] ** 2 * t1[i] + g[i] ** 2 * (t2[i] - t1[i]), v2[i] ** 2 * t2[i], 'total-variance', 1e-11, 0)
    m.event('forward_vector')
    # one bad element anywhere is refused, whatever else is in the batch
    bad = [x.copy() for x in (a, b, c, d)]; i = int(rng.integers(n))
    if n == 1 or not eq or i != j:
        bad = [x.astype(float) for x in bad]
        if rng.integers(2): bad[3][i] = bad[1][i] * np.sqrt(a[i] / c[i]) * .99; key = 'negative variance'
        else: bad[0][i], bad[2][i] = c[i].copy(), a[i].copy(); key = 'reversed'
        if t1[i] != t2[i]: m.refuses(key + ' in batch', fv, *bad); m.event('batch_refused'); m.event('batch_refused_%s' % ('with_equal' if eq else 'plain'))


def term(m, rng):
    """Forward volatilities along a whole term structure add up to the final total variance."""
    n = int(rng.integers(2, 15))
    t = np.cumsum(np.exp(rng.uniform(-6, 1, n)))
    w = np.cumsum(np.exp(rng.uniform(-9, -1, n))); v = np.sqrt(w / t)
    m.case(t=t, v=v)
    f = m.call('forward', fv, t[:-1], v[:-1], t[1:], v[1:])
    m.close(v[0] ** 2 * t[0] + np.cumsum(f ** 2 * np.diff(t)), v[1:] ** 2 * t[1:], 'chain-total-variance', 1e-10, 0)
    # each interpolated date splits its interval into two consistent forward variances
    s = t[:-1] + rng.uniform(0.01, .99, n - 1) * np.diff(t)
    x = m.call('interp', ffi, t[:-1], v[:-1], t[1:], v[1:], s)
    fl = m.call('forward', fv, t[:-1], v[:-1], s, x); fr = m.call('forward', fv, s, x, t[1:], v[1:])
    dw = w[1:] * 1e-12 / np.minimum(s - t[:-1], t[1:] - s)
    m.ok(np.all(np.abs(fl ** 2 - f ** 2) <= 1e-9 * f ** 2 + dw) and np.all(np.abs(fr ** 2 - f ** 2) <= 1e-9 * f ** 2 + dw), 'flat-forward', lambda: dict(left=fl, right=fr, whole=f))
    m.event('term')


def interp(m, rng):
    rows, cols = int(rng.integers(1, 7)), int(rng.integers(1, 6))
    P = [[pair(rng) for _ in range(cols)] for _ in range(rows)]
    t1 = np.array([r[0][0] for r in P]); t2 = np.array([r[0][2] for r in P]); v1 = np.array([[c[1] for c in r] for r in P])
    ratio = np.array([[c[3] ** 2 * c[2] / (c[1] ** 2 * c[0]) for c in r] for r in P])
    v2 = np.sqrt(v1 ** 2 * t1[:, None] * ratio / t2[:, None])
    for i in range(rows):
        if rng.integers(4) == 0: t2[i], v2[i] = t1[i], v1[i]; m.event('coincident')
        elif rng.integers(8) == 0: v2[i] = np.sqrt(ratio[i] * v1[i] ** 2 * t1[i] / (t2[i] - t1[i])); t2[i] -= t1[i]; t1[i] = 0.0; m.event('from_today')
    u = np.array([gen.pick(rng, [0.0, 1.0, rng.uniform(), rng.uniform(), -rng.uniform(0, .5), 1 + rng.uniform()]) for _ in range(rows)])
    t = np.where(u < 0, t1 * (1 + u), np.where(u > 1, t2 * u, np.where(u == 1, t2, t1 + u * (t2 - t1))))
    shape = int(rng.integers(4))
    if shape == 0:
        i, j = int(rng.integers(rows)), int(rng.integers(cols))
        args, k = form(rng, t1[i], v1[i, j], t2[i], v2[i, j], t[i]); idx = [(i, j)]
    elif shape == 1:
        j = int(rng.integers(cols)); args = [t1, v1[:, j], t2, v2[:, j], t]; idx = [(i, j) for i in range(rows)]
    elif shape == 2:
        args = [t1[:, None], v1, t2[:, None], v2, t[:, None]]; idx = [(i, j) for i in range(rows) for j in range(cols)]
    else:   # one smile, one scalar date
        i = int(rng.integers(rows)); args = [t1[i], v1[i], t2[i], v2[i], t[i]]; idx = [(i, j) for j in range(cols)]
    m.case(args=args, shape=shape)
    keep = [np.copy(x) for x in args]
    got = np.asarray(m.call('interp', ffi, *args))
    m.ok(all(np.array_equal(x, y) for x, y in zip(keep, args)), 'inputs-altered')
    want = []
    for i, j in idx:
        s = min(max(t[i], t1[i]), t2[i])
        w1, w2 = v1[i, j] ** 2 * t1[i], v2[i, j] ** 2 * t2[i]
        want.append(v1[i, j] if t1[i] == t2[i] else math.sqrt((w1 + (w2 - w1) * (s - t1[i]) / (t2[i] - t1[i])) / s))
    m.ok(got.shape == np.broadcast_shapes(*[np.shape(x) for x in args]), 'interp-shape', dict(got=got.shape))
    m.close(got.ravel(), np.array(want), 'interpolated', 1e-10, 0, lambda: dict(t=t, t1=t1, t2=t2))
    m.event(['interp_scalar', 'interp_vector', 'interp_table', 'interp_mixed'][shape])
    if np.any(u < 0) or np.any(u > 1): m.event('outside')
    if rng.integers(5) == 0:    # integer times and volatilities mean the same as floats
        a = [1, 2, 4, 3, int(rng.integers(1, 5))]; arr = [np.array([x]) for x in a] if rng.integers(2) else a
        w = math.sqrt((4 + (36 - 4) * (a[4] - 1) / 3) / a[4])
        m.close(np.asarray(m.call('interp', ffi, *arr)).ravel(), np.array([w]), 'integers', 1e-12, 0); m.event('integers')
    if rng.integers(5) == 0:
        m.refuses('negative variance', ffi, 1.0, .3, 2.0, .3 * math.sqrt(.5) * rng.uniform(.3, .99), 1.5); m.event('interp_refused')


SECTIONS = [Section('forward', forward, 16000, 150000, ['zero_variance', 'negative_refused', 'forward_scalar', 'reversed_refused', 'equal_scalar', 'equal_element', 'forward_vector', 'batch_refused_with_equal', 'batch_refused_plain', 'whole']),
            Section('term', term, 8000, 80000, ['term']),
            Section('interp', interp, 16000, 150000, ['coincident', 'interp_scalar', 'interp_vector', 'interp_table', 'interp_mixed', 'outside', 'integers', 'interp_refused'])]
