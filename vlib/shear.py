"""Independent reference for the shearing box: the departures from the background shear v = -q Omega x (along axis `az`), solved spectrally in
coordinates that move with it (y' = y + q Omega t x), and averaged over the cells of the fixed mesh."""
import numpy as np
from .ref import Ref, smooth


class Shear(Ref):
    """par: omega, qshear, az (1 or 2: the azimuthal direction)"""
    t = 0.0

    def setup(s):
        P = s.par
        s.Om, s.q, s.az = P["omega"], P["qshear"], P.get("az", 1)
        s.sh = s.q * s.Om if (s.az == 1 and s.M[1] > 1) else 0.0
        return s

    def dd(s, f, d):
        out = Ref.dd(s, f, d)
        if d == 0 and s.sh:
            out = out + s.sh * s.t * Ref.dd(s, f, 1)
        return out

    def back(s, i, j):
        return -s.q * s.Om if (i == s.az and j == 0) else 0.0

    def ksq(s):
        return (s.k[0] + s.sh * s.t * s.k[1]) ** 2 + s.k[1] ** 2 + s.k[2] ** 2

    def rhs(s, q):
        ph = s.ph
        out = Ref.rhs(s, q)
        y, qo = s.az, s.q * s.Om
        out[1] += 2 * s.Om * q[1 + y]
        out[1 + y] -= (2 - s.q) * s.Om * q[1]
        if ph.mhd:
            out[ph.iB + y] -= qo * q[ph.iB]
        if ph.adi:
            out[4] += qo * q[1] * q[1 + y] / q[0]
            if ph.mhd:
                out[4] -= qo * q[ph.iB] * q[ph.iB + y]
        return out

    def evolve(s, q, T, n):
        h = T / n
        t0 = s.t
        for m in range(n):
            t = t0 + m * h
            s.t = t
            k1 = s.rhs(q)
            s.t = t + 0.5 * h
            k2 = s.rhs(q + 0.5 * h * k1)
            k3 = s.rhs(q + 0.5 * h * k2)
            s.t = t + h
            k4 = s.rhs(q + h * k3)
            q = q + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        s.t = t0 + T
        return q

    def average(s, f, n, face=None):
        if not s.sh:
            return Ref.average(s, f, n, face)
        # z as usual, then the (x, y') modes with their wave number of time t
        out = f
        if s.M[2] > 1:
            m = np.fft.fftfreq(s.M[2], 1.0 / s.M[2])
            m[s.M[2] // 2] = 0.0
            X = np.arange(n[2] + 1) / n[2] if face == 2 else (np.arange(n[2]) + 0.5) / n[2]
            w = 1.0 if face == 2 else np.sinc(m / n[2])
            A = np.exp(2j * np.pi * np.outer(X, m)) * w / s.M[2]
            c = np.fft.fft(out, axis=0)
            out = np.tensordot(A, c, axes=(1, 0)).real
        c = np.fft.fft2(out, axes=(1, 2)) / (s.M[0] * s.M[1])     # [z, my, mx]
        mx = np.fft.fftfreq(s.M[0], 1.0 / s.M[0])
        my = np.fft.fftfreq(s.M[1], 1.0 / s.M[1])
        if s.M[0] % 2 == 0:
            mx[s.M[0] // 2] = 0
        if s.M[1] % 2 == 0:
            my[s.M[1] // 2] = 0
        Lx, Ly = s.len[0], s.len[1]
        X = np.arange(n[0] + 1) / n[0] if face == 0 else (np.arange(n[0]) + 0.5) / n[0]
        Y = np.arange(n[1] + 1) / n[1] if face == 1 else (np.arange(n[1]) + 0.5) / n[1]
        wy = np.ones_like(my) if face == 1 else np.sinc(my / n[1])
        AY = np.exp(2j * np.pi * np.outer(Y, my)) * wy             # [y, my]
        res = np.zeros((out.shape[0], len(Y), len(X)), complex)
        xlo = s.box[0][0]
        for j, m2 in enumerate(my):
            kx = mx + m2 * s.sh * s.t * Lx / Ly                      # in units of 2 pi / Lx
            w = np.ones_like(kx) if face == 0 else np.sinc(kx / n[0])
            # y' = y + sh t x with x measured from 0: phase of the mode at the left edge of the box
            AX = np.exp(2j * np.pi * np.outer(X, kx)) * w * np.exp(2j * np.pi * m2 * s.sh * s.t * xlo / Ly)
            row = c[:, j, :] @ AX.T                                 # [z, x]
            res += AY[:, j][None, :, None] * row[:, None, :]
        return res.real


def to_box(ph, U, n, box, Om, q, az, fargo, sign=1):
    """departures -> the variables Athena stores (sign=-1: back)"""
    if fargo:
        return U.copy()
    dx = (box[0][1] - box[0][0]) / n[0]
    x = (box[0][0] + dx * (np.arange(n[0]) + 0.5)).reshape(1, 1, -1)
    V = -sign * q * Om * x
    W = U.copy()
    if ph.adi:
        W[4] = U[4] + V * U[1 + az] + 0.5 * V * V * U[0]
    W[1 + az] = U[1 + az] + V * U[0]
    return W
