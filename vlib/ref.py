"""Independent reference: pseudo-spectral solution of the equations of (relativistic) hydrodynamics and MHD with diffusion, gravity and
cooling in a periodic box; returns exact cell and face averages at any resolution."""
import numpy as np


class Ref:
    """q[nv, M3, M2, M1] point values of the conserved variables on a grid of M points per meshed axis"""
    def __init__(s, ph, M, box, par=None, gamma=5. / 3., cs=1.0):
        s.ph, s.M, s.box, s.par, s.gamma, s.cs = ph, tuple(M), box, par or {}, gamma, cs
        s.len = [b[1] - b[0] for b in box]
        s.x = []
        s.k = []
        for d in range(3):
            sh = [1, 1, 1]
            sh[2 - d] = M[d]
            s.x.append((box[d][0] + s.len[d] * np.arange(M[d]) / M[d]).reshape(sh))
            k = 2 * np.pi / s.len[d] * np.fft.fftfreq(M[d], 1.0 / M[d])
            if M[d] % 2 == 0 and M[d] > 1:
                k[M[d] // 2] = 0.0
            s.k.append(k.reshape(sh))
        s.ax = [d for d in range(3) if M[d] > 1]

    def dd(s, f, d):
        """derivative along axis d"""
        if s.M[d] == 1:
            return np.zeros_like(f)
        return np.fft.ifft(1j * s.k[d] * np.fft.fft(f, axis=2 - d), axis=2 - d).real

    def back(s, i, j):
        """gradient d v_i / d x_j of a background flow outside the variables"""
        return 0.0

    def prims(s, q):
        ph, g = s.ph, s.gamma
        if not ph.sr:
            d = q[0]
            v = [q[1 + a] / d for a in range(3)]
            b = [q[ph.iB + a] for a in range(3)] if ph.mhd else None
            if ph.adi:
                p = (g - 1) * (q[4] - 0.5 * d * sum(x * x for x in v) - (0.5 * sum(x * x for x in b) if ph.mhd else 0.0))
            else:
                p = s.cs ** 2 * d
            return d, v, p, b
        # relativistic: solve for W = rho h gamma^2 by Newton iteration
        D, m, E = q[0], [q[1 + a] for a in range(3)], q[4]
        b = [q[5 + a] for a in range(3)] if ph.mhd else [0 * D] * 3
        m2 = sum(x * x for x in m)
        b2 = sum(x * x for x in b)
        mb = sum(m[a] * b[a] for a in range(3))
        G = (g - 1) / g

        def f(W):
            v2 = (m2 * W ** 2 + mb ** 2 * (2 * W + b2)) / (W ** 2 * (W + b2) ** 2)
            ga2 = 1 / (1 - v2)
            p = G * (W / ga2 - D / np.sqrt(ga2))
            return W - p + 0.5 * (1 + v2) * b2 - 0.5 * (mb / W) ** 2 - E
        W = E.copy() + 0.5
        for _ in range(100):
            h = 1e-6 * W
            F = f(W)
            dW = F / ((f(W + h) - f(W - h)) / (2 * h))
            W = W - dW
            if np.abs(dW / W).max() < 1e-15:
                break
        v = [(m[a] + mb / W * b[a]) / (W + b2) for a in range(3)]
        v2 = sum(x * x for x in v)
        ga = 1 / np.sqrt(1 - v2)
        p = G * (W / ga ** 2 - D / ga)
        return D / ga, v, p, (b if ph.mhd else None)

    def flux(s, q, a):
        ph, g = s.ph, s.gamma
        d, v, p, b = s.prims(q)
        F = np.zeros_like(q)
        if ph.sr:
            ga2 = 1 / (1 - sum(x * x for x in v))
            w = d + g / (g - 1) * p
            if ph.mhd:
                vb = sum(v[k] * b[k] for k in range(3))
                bb = sum(x * x for x in b)
                sb2 = bb / ga2 + vb ** 2
                sb = [b[k] / np.sqrt(ga2) + np.sqrt(ga2) * vb * v[k] for k in range(3)]
                wt, pt = w + sb2, p + 0.5 * sb2
                F[0] = q[0] * v[a]
                for k in range(3):
                    F[1 + k] = wt * ga2 * v[k] * v[a] - sb[k] * sb[a]
                F[1 + a] += pt
                F[4] = q[1 + a]
                for k in range(3):
                    F[5 + k] = b[k] * v[a] - b[a] * v[k]
            else:
                F[0] = q[0] * v[a]
                for k in range(3):
                    F[1 + k] = w * ga2 * v[k] * v[a]
                F[1 + a] += p
                F[4] = q[1 + a]
            return F
        F[0] = q[1 + a]
        for k in range(3):
            F[1 + k] = q[1 + k] * v[a]
        pt = p
        if ph.mhd:
            b2 = sum(x * x for x in b)
            pt = p + 0.5 * b2
            for k in range(3):
                F[1 + k] = F[1 + k] - b[a] * b[k]
                F[ph.iB + k] = b[k] * v[a] - b[a] * v[k]
        F[1 + a] = F[1 + a] + pt
        if ph.adi:
            F[4] = (q[4] + pt) * v[a]
            if ph.mhd:
                F[4] = F[4] - b[a] * sum(v[k] * b[k] for k in range(3))
        for n in range(ph.ns):
            F[ph.iS + n] = q[ph.iS + n] * v[a]
        return F

    def ksq(s):
        return sum(s.k[d] ** 2 for d in range(3))

    def phi(s, q):
        """gravitational potential (or None)"""
        P = s.par
        out = None
        if P.get("gpot") == 6:
            out = sum(P.get("g%d" % (d + 1), 0.0) * np.cos(2 * np.pi * s.x[d]) for d in range(3)) + 0 * q[0]
        if s.ph.selfg:
            k2 = s.ksq()
            r = np.fft.fftn(q[0] - q[0].mean())
            out2 = np.fft.ifftn(np.where(k2 > 0, -P.get("four_pi_G", 1.0) * r / np.where(k2 > 0, k2, 1), 0)).real
            out = out2 if out is None else out + out2
        return out

    def rhs(s, q):
        ph, P = s.ph, s.par
        out = np.zeros_like(q)
        for a in s.ax:
            F = s.flux(q, a)
            out -= np.array([s.dd(f, a) for f in F])
        if ph.sr:
            return out
        f = s.phi(q)
        d, v, p, b = s.prims(q)
        if f is not None:
            for a in s.ax:
                g = s.dd(f, a)
                out[1 + a] -= d * g
                if ph.adi:
                    out[4] -= q[1 + a] * g
        if P.get("cool"):
            out[4] -= P["cool"] * d * p
        if P.get("nu_iso") or P.get("nu_aniso"):
            G = [[s.dd(v[i], j) + s.back(i, j) for j in range(3)] for i in range(3)]
            div = sum(G[i][i] for i in range(3))
            T = [[P.get("nu_iso", 0) * d * (G[i][j] + G[j][i] - (2. / 3 * div if i == j else 0)) for j in range(3)] for i in range(3)]
            if P.get("nu_aniso"):
                b2 = sum(x * x for x in b)
                bbv = sum(b[i] * b[j] * G[i][j] for i in range(3) for j in range(3)) / b2
                qa = P["nu_aniso"] * d * (bbv - div / 3)
                for i in range(3):
                    for j in range(3):
                        T[i][j] = T[i][j] + qa * (3 * b[i] * b[j] / b2 - (1.0 if i == j else 0.0))
            for j in s.ax:
                for i in range(3):
                    out[1 + i] += s.dd(T[i][j], j)
                if ph.adi:
                    out[4] += s.dd(sum(v[i] * T[i][j] for i in range(3)), j)
            if ph.adi:
                out[4] += sum(s.back(i, j) * T[i][j] for i in range(3) for j in range(3))
        if P.get("kappa_iso") or P.get("kappa_aniso"):
            T = p / d
            gT = [s.dd(T, j) for j in range(3)]
            for j in s.ax:
                Q = P.get("kappa_iso", 0) * d * gT[j]
                if P.get("kappa_aniso"):
                    b2 = sum(x * x for x in b)
                    Q = Q + P["kappa_aniso"] * d * b[j] * sum(b[i] * gT[i] for i in range(3)) / b2
                out[4] += s.dd(Q, j)
        if P.get("eta_O") or P.get("Q_H") or P.get("Q_A"):
            J = [s.dd(b[2], 1) - s.dd(b[1], 2), s.dd(b[0], 2) - s.dd(b[2], 0), s.dd(b[1], 0) - s.dd(b[0], 1)]
            b2 = sum(x * x for x in b)
            E = [P.get("eta_O", 0) * J[i] for i in range(3)]
            cr = lambda A, B: [A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2], A[0] * B[1] - A[1] * B[0]]
            if P.get("Q_H"):
                JB = cr(J, b)
                E = [E[i] + P["Q_H"] * JB[i] for i in range(3)]
            if P.get("Q_A"):
                jb = sum(J[i] * b[i] for i in range(3))
                E = [E[i] + P["Q_A"] / d * (J[i] * b2 - jb * b[i]) for i in range(3)]
            out[ph.iB] -= s.dd(E[2], 1) - s.dd(E[1], 2)
            out[ph.iB + 1] -= s.dd(E[0], 2) - s.dd(E[2], 0)
            out[ph.iB + 2] -= s.dd(E[1], 0) - s.dd(E[0], 1)
            if ph.adi:
                S = cr(E, b)
                for j in s.ax:
                    out[4] -= s.dd(S[j], j)
        return out

    def evolve(s, q, T, n):
        h = T / n
        for _ in range(n):
            k1 = s.rhs(q)
            k2 = s.rhs(q + 0.5 * h * k1)
            k3 = s.rhs(q + 0.5 * h * k2)
            k4 = s.rhs(q + h * k3)
            q = q + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        return q

    def average(s, f, n, face=None):
        """cell averages of the trigonometric interpolant of f on a mesh of n cells (face=d: averages over the faces normal to d, n[d]+1 of them)"""
        out = f
        for d in range(3):
            ax = 2 - d
            if s.M[d] == 1:
                continue
            m = np.fft.fftfreq(s.M[d], 1.0 / s.M[d])
            if s.M[d] % 2 == 0:
                m[s.M[d] // 2] = 0.0
            if face == d:
                X = np.arange(n[d] + 1) / n[d]
                w = np.ones_like(m)
            else:
                X = (np.arange(n[d]) + 0.5) / n[d]
                w = np.sinc(m / n[d])
            A = np.exp(2j * np.pi * np.outer(X, m)) * w / s.M[d]
            c = np.moveaxis(np.fft.fft(out, axis=ax), ax, -1)
            r = (c @ A.T).real if np.isrealobj(out) else c @ A.T
            out = np.moveaxis(r, -1, ax)
        return out

    def cells(s, q, n):
        U = np.array([s.average(f, n) for f in q])
        B = None
        if s.ph.mhd:
            B = []
            for a in range(3):
                f = q[s.ph.iB + a]
                if s.M[a] > 1:
                    B.append(s.average(f, n, face=a))
                else:
                    c = s.average(f, n)
                    B.append(np.concatenate([c, c], axis=2 - a) if a == 0 else c)
        return U, B


def waves(x, L, lo, spec, dims):
    """sum of sines: spec = [(amp, (k1,k2,k3), phase)] with the k of meshed axes only"""
    out = 0
    for amp, k, ph in spec:
        arg = ph
        for d in range(3):
            if d in dims:
                arg = arg + 2 * np.pi * k[d] * (x[d] - lo[d]) / L[d]
        out = out + amp * np.sin(arg)
    return out


def smooth(R, v0=(0.4, -0.3, 0.2), b0=(0.5, -0.4, 0.3), amp=1.0, p0=1.0, d0=1.0):
    """a smooth start in which every variable varies along every meshed axis"""
    from . import ics
    ph, x, L = R.ph, R.x, R.len
    lo = [b[0] for b in R.box]
    dm = R.ax
    o = np.zeros((R.M[2], R.M[1], R.M[0]))
    w = lambda *sp: amp * waves(x, L, lo, sp, dm) + o
    d = d0 * (1 + w((0.12, (1, 1, 0), 0.3), (0.08, (0, 1, -1), 1.1), (0.06, (1, 0, 1), 2.0)))
    p = p0 * (1 + w((0.10, (1, 0, 1), 0.9), (0.08, (1, -1, 0), 0.2), (0.05, (0, 1, 1), 4.0)))
    vs = 0.5 if ph.sr else 1.0
    v = [vs * (v0[0] + w((0.10, (1, 0, 0), 0.5), (0.07, (0, 1, 0), 1.5), (0.06, (1, 1, 1), 2.5))),
         vs * (v0[1] + w((0.09, (1, 0, 1), 0.1), (0.08, (0, 1, 0), 2.2), (0.06, (1, -1, 0), 0.7))),
         vs * (v0[2] + w((0.08, (0, 1, 1), 1.3), (0.09, (1, 0, 0), 0.4), (0.05, (0, 0, 1), 3.1)))]
    r = [0.5 + w((0.2, (1, 0, 0), 0.2 + n), (0.1, (0, 1, 1), 1.2 + n)) for n in range(ph.ns)]
    b = None
    if ph.mhd:
        A = [w((0.02, (0, 1, 1), 0.6), (0.015, (1, 1, 0), 1.6)), w((0.02, (1, 0, 1), 0.2), (0.015, (0, 1, 1), 2.6)), w((0.02, (1, 1, 0), 0.9), (0.015, (1, 0, 1), 3.6))]
        b = [b0[0] + R.dd(A[2], 1) - R.dd(A[1], 2), b0[1] + R.dd(A[0], 2) - R.dd(A[2], 0), b0[2] + R.dd(A[1], 0) - R.dd(A[0], 1)]
    return ics.cons(ph, d, v, p, b, r)
