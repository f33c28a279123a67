"""Cylindrical geometry judged by Cartesian physics: a flow is solved spectrally in Cartesian coordinates (vlib.ref) and averaged over the
zones (R, phi, z) of a cylindrical mesh, in a fixed or rotating frame, with or without the orbital velocity taken out."""
import numpy as np
from .ref import Ref
GX, GW = np.polynomial.legendre.leggauss(4)


class Plane:
    """trigonometric interpolation of fields of a Ref at arbitrary (x, y), averaged (or taken) in z"""
    def __init__(s, R, x, y):
        s.R = R
        sh = x.shape
        s.sh = sh
        mx = np.fft.fftfreq(R.M[0], 1.0 / R.M[0])
        my = np.fft.fftfreq(R.M[1], 1.0 / R.M[1])
        s.ex = np.exp(2j * np.pi * np.outer((x.ravel() - R.box[0][0]) / R.len[0], mx))
        s.ey = np.exp(2j * np.pi * np.outer((y.ravel() - R.box[1][0]) / R.len[1], my))
        s.keepx = np.abs(mx) < R.M[0] / 2
        s.keepy = np.abs(my) < R.M[1] / 2

    def __call__(s, f):
        """f[M3, M2, M1] -> values [M3, points...]"""
        R = s.R
        c = np.fft.fft2(f, axes=(1, 2)) / (R.M[0] * R.M[1])
        c = c * s.keepy[None, :, None] * s.keepx[None, None, :]
        out = np.empty((f.shape[0], s.ex.shape[0]))
        for k in range(f.shape[0]):
            out[k] = np.einsum("pm,pm->p", s.ey, s.ex @ c[k].T, optimize=True).real
        return out.reshape((f.shape[0],) + s.sh)


def zmean(R, f, n3, face=False):
    """values [M3, ...] periodic in z -> averages over n3 zones (or values on the n3+1 faces)"""
    if R.M[2] == 1:
        return f
    m = np.fft.fftfreq(R.M[2], 1.0 / R.M[2])
    m[np.abs(m) >= R.M[2] / 2] = 0
    Z = np.arange(n3 + 1) / n3 if face else (np.arange(n3) + 0.5) / n3
    A = np.exp(2j * np.pi * np.outer(Z, m)) * (1.0 if face else np.sinc(m / n3)) / R.M[2]
    return np.tensordot(A, np.fft.fft(f, axis=0), axes=(1, 0)).real


def mesh(n, box):
    dR, dp = (box[0][1] - box[0][0]) / n[0], (box[1][1] - box[1][0]) / n[1]
    ri = box[0][0] + dR * np.arange(n[0] + 1)
    pi = box[1][0] + dp * np.arange(n[1] + 1)
    return dR, dp, ri, pi


def averages(R, q, n, box, rot=0.0, vorb=None, frame=0.0, gamma=5. / 3.):
    """conserved variables and face fields on the mesh; rot: angle by which the mesh has turned, frame: its angular velocity,
    vorb(R): orbital velocity that is taken out of the stored momentum"""
    ph = R.ph
    dR, dp, ri, pi = mesh(n, box)
    rc, pc = 0.5 * (ri[1:] + ri[:-1]), 0.5 * (pi[1:] + pi[:-1])
    # Gauss points of the zones: [n2, 4, n1, 4]
    rg = (rc[:, None] + 0.5 * dR * GX[None, :])
    pg = (pc[:, None] + 0.5 * dp * GX[None, :])
    r4 = np.broadcast_to(rg[None, None], (n[1], 4, n[0], 4))
    p4 = np.broadcast_to(pg[:, :, None, None], (n[1], 4, n[0], 4))
    P = Plane(R, r4 * np.cos(p4 + rot), r4 * np.sin(p4 + rot))
    w = (0.25 * GW[None, :, None, None] * GW[None, None, None, :] * r4) / rc[None, None, :, None]

    def vol(f):
        return zmean(R, (f * w).sum(axis=(2, 4)), n[2])
    c, s = np.cos(p4 + rot), np.sin(p4 + rot)
    off = frame * r4 + (vorb(r4) if vorb is not None else 0.0)
    d, mx, my, mz = [P(q[v]) for v in range(4)]
    mr = mx * c + my * s
    mp = -mx * s + my * c - d * off
    U = np.zeros((ph.nv, n[2], n[1], n[0]))
    U[0], U[1], U[2], U[3] = vol(d), vol(mr), vol(mp), vol(mz)
    if ph.adi:
        E = P(q[4])
        # kinetic energy with the velocity in the frame of the variables
        mp0 = mp + d * off
        U[4] = vol(E + (mp ** 2 - mp0 ** 2) / (2 * d))
    for m in range(ph.ns):
        U[ph.iS + m] = vol(P(q[ph.iS + m]))
    B = None
    if ph.mhd:
        bx, by, bz = q[ph.iB], q[ph.iB + 1], q[ph.iB + 2]
        # R faces: points [n2, 4, n1+1]
        pf = np.broadcast_to(pg[:, :, None], (n[1], 4, n[0] + 1))
        rf = np.broadcast_to(ri[None, None], (n[1], 4, n[0] + 1))
        F = Plane(R, rf * np.cos(pf + rot), rf * np.sin(pf + rot))
        B1 = zmean(R, ((F(bx) * np.cos(pf + rot) + F(by) * np.sin(pf + rot)) * 0.5 * GW[None, :, None]).sum(axis=2), n[2])
        # phi faces: points [n2+1, n1, 4]
        if n[1] > 1:
            rf = np.broadcast_to(rg[None], (n[1] + 1, n[0], 4))
            pf = np.broadcast_to(pi[:, None, None], (n[1] + 1, n[0], 4))
            F = Plane(R, rf * np.cos(pf + rot), rf * np.sin(pf + rot))
            B2 = zmean(R, ((-F(bx) * np.sin(pf + rot) + F(by) * np.cos(pf + rot)) * 0.5 * GW[None, None, :]).sum(axis=3), n[2])
        else:
            bp = -P(bx) * s + P(by) * c
            B2 = zmean(R, (bp * w / r4 * rc[None, None, :, None]).sum(axis=(2, 4)), n[2])
        B3 = zmean(R, (P(bz) * w).sum(axis=(2, 4)), n[2], face=n[2] > 1)
        B = [B1, B2, B3]
        for a, b in enumerate(centre(n, box, B)):
            U[ph.iB + a] = b
    return U, B


def centre(n, box, B):
    dR, dp, ri, pi = mesh(n, box)
    rc = 0.5 * (ri[1:] + ri[:-1])
    b1 = 0.5 * (ri[1:] * B[0][:, :, 1:] + ri[:-1] * B[0][:, :, :-1]) / rc
    b2 = 0.5 * (B[1][:, 1:] + B[1][:, :-1]) if n[1] > 1 else B[1]
    b3 = 0.5 * (B[2][1:] + B[2][:-1]) if n[2] > 1 else B[2]
    return b1, b2, b3


def radial(R, gamma=5. / 3.):
    """an axisymmetric start (for meshes in R alone): rings in every variable"""
    from . import ics
    ph = R.ph
    x, y = R.x[0], R.x[1]
    r = np.sqrt(x * x + y * y) + 0.0 * R.x[2]
    r = np.broadcast_to(r, (R.M[2], R.M[1], R.M[0])) + 1e-12
    c, s = x / r, y / r
    g = lambda a, r0, w: a * np.exp(-((r - r0) / w) ** 2)
    win = 1 / (1 + np.exp(-(r - 0.6) / 0.04)) / (1 + np.exp((r - 2.5) / 0.04))
    d = 1 + g(0.2, 1.45, 0.3) - g(0.1, 1.7, 0.3)
    p = 1 + g(0.2, 1.6, 0.3) - g(0.15, 1.35, 0.3)
    vr, vp, vz = g(0.15, 1.5, 0.35), g(0.5, 1.55, 0.4) - g(0.2, 1.3, 0.35), g(0.2, 1.4, 0.3)
    v = [vr * c - vp * s, vr * s + vp * c, vz]
    b = None
    if ph.mhd:
        br = 0.5 / r * win
        bp, bz = g(0.5, 1.5, 0.35), 0.2 + g(0.3, 1.6, 0.35)
        b = [br * c - bp * s, br * s + bp * c, bz + 0 * r]
    rs = [0.5 + g(0.3, 1.4 + 0.2 * m, 0.3) for m in range(ph.ns)]
    return ics.cons(ph, d, v, p, b, rs)
