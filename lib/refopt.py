"""Closed forms and quadratures for European options, written independently of the code under test (math.erfc, scalar)."""
import math
import numpy as np

SQ2 = math.sqrt(2.0)


def N(x):
    return 0.5 * math.erfc(-x / SQ2)


def n(x):
    return math.exp(-0.5 * x * x) / math.sqrt(2 * math.pi)


def black(F, K, v, cp):
    """Undiscounted lognormal price, v = total standard deviation vol*sqrt(tau)."""
    if v <= 0:
        return max(cp * (F - K), 0.0)
    d1 = math.log(F / K) / v + 0.5 * v
    return cp * (F * N(cp * d1) - K * N(cp * (d1 - v)))


def normal(F, K, v, cp):
    if v <= 0:
        return max(cp * (F - K), 0.0)
    d = (F - K) / v
    return cp * (F - K) * N(cp * d) + v * n(d)


_X, _W = np.polynomial.legendre.leggauss(400)


def expectation(payoff_kink, f, lo=-12.0, hi=12.0):
    """E[f(Z)], Z standard normal, integrand smooth either side of payoff_kink."""
    tot = 0.0
    k = min(max(payoff_kink, lo), hi)
    for a, b in ((lo, k), (k, hi)):
        if b > a:
            z = 0.5 * (b - a) * _X + 0.5 * (a + b)
            tot += 0.5 * (b - a) * float(np.sum(_W * f(z) * np.exp(-0.5 * z * z))) / math.sqrt(2 * math.pi)
    return tot


def black_quad(F, K, v, cp):
    return expectation(math.log(K / F) / v + 0.5 * v, lambda z: np.maximum(cp * (F * np.exp(v * z - 0.5 * v * v) - K), 0.0))


def normal_quad(F, K, v, cp):
    return expectation((K - F) / v, lambda z: np.maximum(cp * (F + v * z - K), 0.0))


def gk(S, K, tau, rd, rf, vol, cp):
    F = S * math.exp((rd - rf) * tau)
    return math.exp(-rd * tau) * black(F, K, vol * math.sqrt(tau), cp)
