"""Initial-condition alphabets (primitive fields -> conserved variables and divergence-free face fields)."""
import re
import numpy as np


class Phys:
    def __init__(s, args):
        s.args = args
        s.mhd = "--with-gas=hydro" not in args
        s.adi = "--with-eos=isothermal" not in args
        m = re.search(r"--with-nscalars=(\d+)", args)
        s.ns = int(m[1]) if m else 0
        s.sr = "--enable-special-relativity" in args
        s.cyl = "--with-coord=cylindrical" in args
        s.smr = "--enable-smr" in args
        s.selfg = "--with-gravity" in args and "--with-gravity=none" not in args
        s.part = "--with-particles" in args
        s.shear = "--enable-shearing-box" in args
        s.fargo = "--enable-fargo" in args
        s.single = "--enable-single" in args
        s.nv = 4 + s.adi + 3 * s.mhd + s.ns
        s.iE = 4 if s.adi else None
        s.iB = (4 + s.adi) if s.mhd else None
        s.iS = 4 + s.adi + 3 * s.mhd


def curl(n, dx, A1, A2, A3):
    """edge potentials -> face fields. A1[n3',n2',n1], A2[n3',n2,n1'], A3[n3,n2',n1'] (n' = n+1)"""
    B1 = (A3[:, 1:, :] - A3[:, :-1, :]) / dx[1] - (A2[1:, :, :] - A2[:-1, :, :]) / dx[2]
    B2 = (A1[1:, :, :] - A1[:-1, :, :]) / dx[2] - (A3[:, :, 1:] - A3[:, :, :-1]) / dx[0]
    B3 = (A2[:, :, 1:] - A2[:, :, :-1]) / dx[0] - (A1[:, 1:, :] - A1[:, :-1, :]) / dx[1]
    return B1, B2, B3


def wallA(n, A, bc):
    """make the potential fit the boundary set: periodic pairs equal, no normal field at reflecting walls"""
    for q in range(3):
        for d, ax in ((0, 2), (1, 1), (2, 0)):
            if q == d:
                continue
            lo = [slice(None)] * 3
            hi = [slice(None)] * 3
            lo[ax], hi[ax] = 0, -1
            if n[d] == 1 or bc[2 * d] == 4:
                A[q][tuple(hi)] = A[q][tuple(lo)]
            else:
                if bc[2 * d] == 1:
                    A[q][tuple(lo)] = 0
                if bc[2 * d + 1] == 1:
                    A[q][tuple(hi)] = 0
    return A


def wallmean(n, mean, bc):
    return tuple(0.0 if (n[d] > 1 and 1 in (bc[2 * d], bc[2 * d + 1])) else mean[d] for d in range(3))


def faces(n, box, rng, amp=0.3, mean=(0.4, 0.3, -0.2), periodic=True, A=None, bc=None):
    """divergence-free face fields with uniform part `mean` plus the curl of a lattice potential."""
    dx = [(box[d][1] - box[d][0]) / n[d] for d in range(3)]
    n1, n2, n3 = n
    if A is None:
        sh = [(n3 + 1, n2 + 1, n1), (n3 + 1, n2, n1 + 1), (n3, n2 + 1, n1 + 1)]
        A = [rng.uniform(-1, 1, s) * amp * min(dx[d] for d in range(3) if n[d] > 1) for s in sh]
        if bc is not None:
            wallA(n, A, bc)
            mean = wallmean(n, mean, bc)
        for q in range(3 if bc is None else 0):
            a = A[q]
            for d, ax in ((0, 2), (1, 1), (2, 0)):
                if q == d:
                    continue
                lo = [slice(None)] * 3
                hi = [slice(None)] * 3
                lo[ax], hi[ax] = 0, -1
                if n[d] == 1 or periodic:
                    a[tuple(hi)] = a[tuple(lo)]
    B = list(curl(n, dx, *A))
    for q in range(3):
        B[q] = B[q] + mean[q]
    # shapes: only existing dimensions carry n+1 faces (x1 always does)
    if n2 == 1:
        B[1] = B[1][:, :1, :]
    if n3 == 1:
        B[2] = B[2][:1, :, :]
    return B


def bcc(n, B):
    b1 = 0.5 * (B[0][:, :, 1:] + B[0][:, :, :-1])
    b2 = 0.5 * (B[1][:, 1:, :] + B[1][:, :-1, :]) if n[1] > 1 else B[1].copy()
    b3 = 0.5 * (B[2][1:, :, :] + B[2][:-1, :, :]) if n[2] > 1 else B[2].copy()
    return b1, b2, b3


def cons(ph, d, v, p, bc=None, r=None, gamma=5. / 3.):
    sh = np.shape(d)
    U = np.zeros((ph.nv,) + sh)
    if ph.sr:
        v2 = v[0] ** 2 + v[1] ** 2 + v[2] ** 2
        g = 1 / np.sqrt(1 - v2)
        w = d + gamma / (gamma - 1) * p
        U[0] = g * d
        for q in range(3):
            U[1 + q] = g * g * w * v[q]
        U[4] = g * g * w - p
        if ph.mhd:
            b2 = sum(x * x for x in bc)
            vb = sum(v[q] * bc[q] for q in range(3))
            for q in range(3):
                U[1 + q] += b2 * v[q] - vb * bc[q]
            U[4] += 0.5 * (1 + v2) * b2 - 0.5 * vb * vb
            for q in range(3):
                U[5 + q] = bc[q]
        return U
    U[0] = d
    for q in range(3):
        U[1 + q] = d * v[q]
    if ph.adi:
        U[4] = p / (gamma - 1) + 0.5 * d * sum(v[q] ** 2 for q in range(3))
        if ph.mhd:
            U[4] += 0.5 * sum(x * x for x in bc)
    if ph.mhd:
        for q in range(3):
            U[ph.iB + q] = bc[q]
    for q in range(ph.ns):
        U[ph.iS + q] = d * r[q]
    return U


def prim(ph, U, gamma=5. / 3.):
    d = U[0]
    v = [U[1 + q] / d for q in range(3)]
    p = None
    if ph.adi:
        p = U[4] - 0.5 * d * sum(x * x for x in v)
        if ph.mhd:
            p = p - 0.5 * sum(U[ph.iB + q] ** 2 for q in range(3))
        p = p * (gamma - 1)
    return d, v, p


def lattice(ph, n, box, pat=1, periodic=True, gamma=5. / 3., amp=1.0, v0=(0.3, -0.2, 0.25), vamp=0.3, cyl=False, bmean=(0.4, 0.3, -0.2),
            bamp=0.3, damp=0.4, bc=None):
    """Pattern number `pat`: a fixed lattice of unrelated cell values (no symmetry, every cell differs)."""
    rng = np.random.RandomState(1000 + pat)
    sh = (n[2], n[1], n[0])
    d = 1.0 + amp * damp * rng.uniform(-1, 1, sh)
    v = [v0[q] + amp * vamp * rng.uniform(-1, 1, sh) for q in range(3)]
    p = 1.0 + amp * 0.5 * rng.uniform(-1, 1, sh)
    if ph.sr:
        v = [0.5 * x for x in v]
    r = [0.5 + amp * 0.4 * rng.uniform(-1, 1, sh) for _ in range(ph.ns)]
    B = None
    b = None
    if ph.mhd:
        if cyl:
            B, b = cylB(n, box, rng, amp * bamp, bmean, periodic, bc)
        else:
            B = faces(n, box, rng, amp=bamp * amp, mean=bmean, periodic=periodic, bc=bc)
            b = bcc(n, B)
    return cons(ph, d, v, p, b, r, gamma), B


def cylB(n, box, rng, amp, mean, periodic, bc=None):
    """Cylindrical: area-weighted fluxes from a potential, so div B = 0 exactly; phi and z periodic."""
    n1, n2, n3 = n
    dx = [(box[d][1] - box[d][0]) / n[d] for d in range(3)]
    ri = box[0][0] + dx[0] * np.arange(n1 + 1)
    rc = 0.5 * (ri[1:] + ri[:-1])
    sh = [(n3 + 1, n2 + 1, n1), (n3 + 1, n2, n1 + 1), (n3, n2 + 1, n1 + 1)]
    h = min(dx[d] for d in range(3) if n[d] > 1)
    A = [rng.uniform(-1, 1, s) * amp * h for s in sh]
    if bc is not None:
        wallA(n, A, bc)
        mean = wallmean(n, mean, bc)
    for q in range(3 if bc is None else 0):
        for d, ax in ((1, 1), (2, 0)):
            if q == d:
                continue
            lo = [slice(None)] * 3
            hi = [slice(None)] * 3
            lo[ax], hi[ax] = 0, -1
            A[q][tuple(hi)] = A[q][tuple(lo)]
    # circulation per edge: A_R*dR, A_phi*R*dphi, A_z*dz
    C1 = A[0] * dx[0]
    C2 = A[1] * ri[None, None, :] * dx[1]
    C3 = A[2] * dx[2]
    F1 = (C3[:, 1:, :] - C3[:, :-1, :]) - (C2[1:, :, :] - C2[:-1, :, :])
    F2 = (C1[1:, :, :] - C1[:-1, :, :]) - (C3[:, :, 1:] - C3[:, :, :-1])
    F3 = (C2[:, :, 1:] - C2[:, :, :-1]) - (C1[:, 1:, :] - C1[:, :-1, :])
    B1 = F1 / (ri[None, None, :] * dx[1] * dx[2]) + mean[0] / ri[None, None, :]
    B2 = F2 / (dx[0] * dx[2]) + mean[1]
    B3 = F3 / (rc[None, None, :] * dx[1] * dx[0]) + mean[2]
    if n2 == 1:
        B2 = B2[:, :1, :]
    if n3 == 1:
        B3 = B3[:1]
    B = [B1, B2, B3]
    b1 = 0.5 * (ri[1:] * B1[:, :, 1:] + ri[:-1] * B1[:, :, :-1]) / rc
    b2 = 0.5 * (B2[:, 1:, :] + B2[:, :-1, :]) if n2 > 1 else B2.copy()
    b3 = 0.5 * (B3[1:] + B3[:-1]) if n3 > 1 else B3.copy()
    return B, (b1, b2, b3)


def divb(n, box, B, cyl=False):
    dx = [(box[d][1] - box[d][0]) / n[d] for d in range(3)]
    if cyl:
        ri = box[0][0] + dx[0] * np.arange(n[0] + 1)
        rc = 0.5 * (ri[1:] + ri[:-1])
        out = (ri[1:] * B[0][:, :, 1:] - ri[:-1] * B[0][:, :, :-1]) / dx[0] / rc
        if n[1] > 1:
            out = out + (B[1][:, 1:, :] - B[1][:, :-1, :]) / dx[1] / rc
    else:
        out = (B[0][:, :, 1:] - B[0][:, :, :-1]) / dx[0]
        if n[1] > 1:
            out = out + (B[1][:, 1:, :] - B[1][:, :-1, :]) / dx[1]
    if n[2] > 1:
        out = out + (B[2][1:] - B[2][:-1]) / dx[2]
    return out
