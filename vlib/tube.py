"""Reference solutions of Riemann problems: exact for gas dynamics, a high-resolution MUSCL-HLL scheme otherwise."""
import numpy as np
from . import riemann as rm


def con2prim(gas, U, Bx, W0):
    W = np.zeros_like(U)
    if not gas.sr:
        W[0] = U[0]
        for a in (1, 2, 3):
            W[a] = U[a] / U[0]
        W[5:7] = U[5:7]
        if gas.adi:
            W[4] = (gas.g - 1) * (U[4] - 0.5 * U[0] * (W[1] ** 2 + W[2] ** 2 + W[3] ** 2) - gas.pb(W, Bx))
        for q in range(gas.ns):
            W[7 + q] = U[7 + q] / U[0]
        return W
    g = gas.g
    B = np.array([Bx + 0 * U[0], U[5], U[6]]) if gas.mhd else np.zeros((3, U.shape[1]))
    D, m, E = U[0], U[1:4], U[4]
    m2, b2, mb = (m ** 2).sum(0), (B ** 2).sum(0), (m * B).sum(0)
    G = (g - 1) / g

    def v2f(x):
        return (m2 * x ** 2 + mb ** 2 * (2 * x + b2)) / (x ** 2 * (x + b2) ** 2)

    def f(x):
        v2 = np.minimum(v2f(x), 1 - 1e-15)
        ga = 1 / np.sqrt(1 - v2)
        return x - G * (x / ga ** 2 - D / ga) + 0.5 * (1 + v2) * b2 - 0.5 * (mb / x) ** 2 - E
    lo = np.maximum(D * 0.5, 1e-12)
    hi = 10 * (E + D) + 1
    for _ in range(62):
        mid = 0.5 * (lo + hi)
        up = (f(mid) > 0) & (v2f(mid) < 1)
        hi, lo = np.where(up, mid, hi), np.where(up, lo, mid)
    x = 0.5 * (lo + hi)
    v = (m + mb / x * B) / (x + b2)
    ga = 1 / np.sqrt(1 - (v ** 2).sum(0))
    W[0], W[1:4], W[4] = D / ga, v, G * (x / ga ** 2 - D / ga)
    W[5:7] = U[5:7]
    return W


def muscl(gas, L, R, Bx, t, n=800):
    """cell averages of conserved variables on [-0.5, 0.5] at time t, n cells"""
    x = (np.arange(n) + 0.5) / n - 0.5
    W = np.where(x < 0, L[:, None], R[:, None])
    U = gas.cons(W, Bx)
    dx, time = 1.0 / n, 0.0

    def speeds(a, b):
        if gas.sr:
            # bounds by composing the fluid speed with an upper bound of the signal speed
            def lim(w):
                v2 = (w[1:4] ** 2).sum(0)
                h = w[0] + gas.g / (gas.g - 1) * w[4]
                c2 = gas.g * w[4] / h
                if gas.mhd:
                    B2 = Bx ** 2 + w[5] ** 2 + w[6] ** 2
                    vB = w[1] * Bx + w[2] * w[5] + w[3] * w[6]
                    s2 = B2 * (1 - v2) + vB ** 2
                    va2 = s2 / (h + s2)
                    c2 = c2 + va2 - c2 * va2
                den = 1 - v2 * c2
                q = np.sqrt(c2 * (1 - v2) * (1 - w[1] ** 2 - (v2 - w[1] ** 2) * c2))
                return (w[1] * (1 - c2) - q) / den, (w[1] * (1 - c2) + q) / den
            a1, a2 = lim(a)
            b1, b2 = lim(b)
            return np.minimum(a1, b1), np.maximum(a2, b2)
        ca, cb = gas.cf(a, Bx), gas.cf(b, Bx)
        return np.minimum(a[1] - ca, b[1] - cb), np.maximum(a[1] + ca, b[1] + cb)

    def rhs(W):
        P = np.concatenate([W[:, :1], W[:, :1], W, W[:, -1:], W[:, -1:]], axis=1)
        dl, dr = P[:, 1:-1] - P[:, :-2], P[:, 2:] - P[:, 1:-1]
        prod = dl * dr
        s = np.where(prod > 0, 2 * prod / np.where(prod > 0, dl + dr, 1), 0)
        a, b = P[:, 1:-1] + 0.5 * s, P[:, 1:-1] - 0.5 * s
        a, b = a[:, :-1], b[:, 1:]
        sl, sr = speeds(a, b)
        F = rm.scal(gas, rm.hll(gas, a, b, Bx, sl, sr), a, b)
        return -(F[:, 1:] - F[:, :-1]) / dx, max(abs(sl).max(), abs(sr).max())
    while time < t - 1e-14:
        r, s = rhs(W)
        dt = min(0.4 * dx / s, t - time)
        U1 = U + dt * r
        W1 = con2prim(gas, U1, Bx, W)
        r2, s = rhs(W1)
        U = 0.5 * (U + U1 + dt * r2)
        W = con2prim(gas, U, Bx, W)
        time += dt
    return U


def exact(gas, L, R, t, n, sub=40):
    """cell averages of the exact solution"""
    x = (np.arange(n * sub) + 0.5) / (n * sub) - 0.5
    A, B = np.repeat(L[:, None], n * sub, 1), np.repeat(R[:, None], n * sub, 1)
    U = gas.cons(rm.exact(gas, A, B, x / t)[0], 0.0)
    return U.reshape(10, n, sub).mean(2)
