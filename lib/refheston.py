"""Heston reference: Lewis integral with composite Gauss-Legendre, own characteristic function; Riccati solution by Runge-Kutta as its check."""
import math
import numpy as np

_X, _W = np.polynomial.legendre.leggauss(48)


def lncf(u, tau, v0, vv, kappa, theta, rho):
    """ln E exp(iu ln(S_T/F)); u complex array."""
    u = np.asarray(u, complex)
    iu = 1j * u
    b = kappa - rho * vv * iu
    d = np.sqrt(b * b + vv * vv * (iu + u * u))
    d = np.where(d.real < 0, -d, d)
    # (b-d)/vv^2 without cancellation: b^2-d^2 = -vv^2 (iu+u^2)
    h = -(iu + u * u) / (b + d)
    e = np.exp(-d * tau)
    g = (b - d) / (b + d)
    return kappa * theta * (h * tau - 2 / vv ** 2 * np.log((1 - g * e) / (1 - g))) + v0 * h * (1 - e) / (1 - g * e)


def lncf_ode(u, tau, v0, vv, kappa, theta, rho, n=4000):
    f = lambda D: -.5 * (u * u + 1j * u) - (kappa - rho * vv * 1j * u) * D + .5 * vv * vv * D * D
    D, C, h = 0j, 0j, tau / n
    for _ in range(n):
        k1 = f(D); k2 = f(D + h / 2 * k1); k3 = f(D + h / 2 * k2); k4 = f(D + h * k3)
        C += kappa * theta * h * (D + h / 6 * (k1 + k2 + k3))          # integral of D, Simpson on the RK4 stages
        D += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return C + v0 * D


def call_fwd(F, Ks, tau, v0, vv, kappa, theta, rho):
    """Undiscounted call prices."""
    Ks = np.atleast_1d(np.asarray(Ks, float))
    k = np.log(F / Ks)
    um = 4.0
    args = (tau, v0, vv, kappa, theta, rho)
    while True:
        a = lncf(np.array([um - .5j]), *args).real[0] - math.log(um * um + .25)
        if a < -40 or um > 4e5: break
        um *= 1.4
    n = int(min(max(16, um * (np.max(np.abs(k)) + .3) / 8), 4000))
    # panels refine toward zero
    edges = um * (np.arange(n + 1) / n) ** 1.7
    mid, half = .5 * (edges[1:] + edges[:-1]), .5 * (edges[1:] - edges[:-1])
    u = (mid[:, None] + half[:, None] * _X).ravel()
    w = (half[:, None] * _W).ravel()
    phi = np.exp(lncf(u - .5j, *args)) / (u * u + .25) * w
    I = np.array([float(np.sum((np.exp(1j * u * x) * phi).real)) for x in k])
    return F - np.sqrt(F * Ks) / math.pi * I


def price(S, Ks, cps, tau, r, q, v0, vv, kappa, theta, rho):
    F = S * math.exp((r - q) * tau)
    Ks = np.atleast_1d(np.asarray(Ks, float))
    c = call_fwd(F, Ks, tau, v0, vv, kappa, theta, rho)
    return math.exp(-r * tau) * np.where(np.asarray(cps) == 1, c, c - F + Ks)


def mean_var(tau, v0, kappa, theta):
    """Expected average variance over the life."""
    return theta + (v0 - theta) * (1 - math.exp(-kappa * tau)) / (kappa * tau)


def var_mean(t, v0, kappa, theta):
    return theta + (v0 - theta) * math.exp(-kappa * t)


def var_var(t, v0, vv, kappa, theta):
    e = math.exp(-kappa * t)
    return v0 * vv ** 2 / kappa * (e - e * e) + theta * vv ** 2 / (2 * kappa) * (1 - e) ** 2
