"""Reference Riemann fluxes (vectorised): physical flux, HLLE, HLLC, HLLD, Roe, FORCE, two-shock, exact; relativistic flux, speeds, HLL, HLLC.
State rows: d Vx Vy Vz P By Bz r0 r1 r2 (primitive), d Mx My Mz E By Bz s0 s1 s2 (conserved)."""
import numpy as np

TINY = 1e-20


class Gas:
    def __init__(s, mhd, adi, g, ns=0, sr=False):
        s.mhd, s.adi, s.g, s.ns, s.sr = mhd, adi, g, ns, sr
        s.idx = [0, 1, 2, 3] + ([4] if adi else []) + ([5, 6] if mhd else [])

    def P(s, W):
        return W[4] if s.adi else W[0] * s.g ** 2

    def cons(s, W, Bx):
        if s.sr:
            return s.srstate(W, Bx)[0]
        U = np.zeros_like(W)
        U[0] = W[0]
        for a in (1, 2, 3):
            U[a] = W[0] * W[a]
        if s.adi:
            U[4] = W[4] / (s.g - 1) + 0.5 * W[0] * (W[1] ** 2 + W[2] ** 2 + W[3] ** 2)
        if s.mhd:
            U[5:7] = W[5:7]
            if s.adi:
                U[4] += 0.5 * (Bx ** 2 + W[5] ** 2 + W[6] ** 2)
        for q in range(s.ns):
            U[7 + q] = W[0] * W[7 + q]
        return U

    def pb(s, W, Bx):
        return 0.5 * (Bx ** 2 + W[5] ** 2 + W[6] ** 2) if s.mhd else 0 * W[0]

    def flux(s, W, Bx):
        if s.sr:
            return s.srstate(W, Bx)[1]
        U = s.cons(W, Bx)
        F = U * W[1]
        pt = s.P(W) + s.pb(W, Bx)
        F[1] += pt
        if s.adi:
            F[4] += pt * W[1]
        else:
            F[4] = 0
        if s.mhd:
            F[1] -= Bx ** 2
            F[2] -= Bx * W[5]
            F[3] -= Bx * W[6]
            if s.adi:
                F[4] -= Bx * (Bx * W[1] + W[5] * W[2] + W[6] * W[3])
            F[5] -= Bx * W[2]
            F[6] -= Bx * W[3]
        return F

    def srstate(s, W, Bx):
        d, v, p = W[0], W[1:4], W[4]
        v2 = (v ** 2).sum(0)
        w2 = 1 / (1 - v2)
        w = np.sqrt(w2)
        h = d + s.g / (s.g - 1) * p
        B = np.array([Bx + 0 * d, W[5], W[6]]) if s.mhd else np.zeros_like(v)
        vB = (v * B).sum(0)
        B2 = (B ** 2).sum(0)
        b0 = w * vB
        b = B / w + w * vB * v
        b2 = B2 / w2 + vB ** 2
        wt = (h + b2) * w2
        pt = p + 0.5 * b2
        U = np.zeros_like(W)
        F = np.zeros_like(W)
        U[0] = d * w
        for a in range(3):
            U[1 + a] = wt * v[a] - b0 * b[a]
            F[1 + a] = wt * v[a] * v[0] - b[a] * b[0]
        F[1] += pt
        U[4] = wt - pt - b0 * b0
        F[0] = U[0] * v[0]
        F[4] = U[1]
        if s.mhd:
            U[5:7] = W[5:7]
            F[5] = v[0] * B[1] - v[1] * B[0]
            F[6] = v[0] * B[2] - v[2] * B[0]
        return U, F

    def cf(s, W, Bx):
        a2 = s.g * W[4] / W[0] if s.adi else s.g ** 2 + 0 * W[0]
        if not s.mhd:
            return np.sqrt(a2)
        ct, va = (W[5] ** 2 + W[6] ** 2) / W[0], Bx ** 2 / W[0]
        return np.sqrt(0.5 * (a2 + ct + va + np.sqrt((va + ct - a2) ** 2 + 4 * a2 * ct)))

    # Roe averages: dict and eigenvalues
    def roe(s, L, R, Bx):
        sl, sr = np.sqrt(L[0]), np.sqrt(R[0])
        i = 1 / (sl + sr)
        q = dict(d=sl * sr)
        for a in (1, 2, 3):
            q["v%d" % a] = (sl * L[a] + sr * R[a]) * i
        v2 = q["v1"] ** 2 + q["v2"] ** 2 + q["v3"] ** 2
        v1 = q["v1"]
        if s.adi:
            EL, ER = s.cons(L, Bx)[4], s.cons(R, Bx)[4]
            q["h"] = ((EL + L[4] + s.pb(L, Bx)) / sl + (ER + R[4] + s.pb(R, Bx)) / sr) * i
        if not s.mhd:
            a2 = np.maximum((s.g - 1) * (q["h"] - 0.5 * v2), TINY) if s.adi else s.g ** 2 + 0 * v1
            a = np.sqrt(a2)
            q["ev"] = np.array([v1 - a, v1, v1, v1, v1 + a] if s.adi else [v1 - a, v1, v1, v1 + a])
            return q
        q["b2"] = (sr * L[5] + sl * R[5]) * i
        q["b3"] = (sr * L[6] + sl * R[6]) * i
        q["x"] = 0.5 * ((L[5] - R[5]) ** 2 + (L[6] - R[6]) ** 2) * i * i
        q["y"] = 0.5 * (L[0] + R[0]) / q["d"]
        bt2 = q["b2"] ** 2 + q["b3"] ** 2
        va2 = Bx ** 2 / q["d"]
        if s.adi:
            hp = q["h"] - va2 - bt2 / q["d"]
            a2 = np.maximum((s.g - 1) * (hp - 0.5 * v2) - (s.g - 2) * q["x"], TINY)
            ct = (s.g - 1 - (s.g - 2) * q["y"]) * bt2 / q["d"]
        else:
            a2 = s.g ** 2 + q["x"]
            ct = q["y"] * bt2 / q["d"]
        cf2 = 0.5 * (va2 + ct + a2 + np.sqrt((va2 + ct - a2) ** 2 + 4 * a2 * ct))
        cs = np.sqrt(a2 * va2 / cf2)
        cf, va = np.sqrt(cf2), np.sqrt(va2)
        q["a2"] = a2
        q["ev"] = np.array([v1 - cf, v1 - va, v1 - cs] + ([v1] if s.adi else []) + [v1 + cs, v1 + va, v1 + cf])
        return q

    def matrix(s, q, Bx):
        """Roe matrix in the variables (d, M1, M2, M3, [E], [B2, B3]); shape (N, m, m)"""
        N, m = len(q["v1"]), len(s.idx)
        A = np.zeros((N, m, m))
        v1, v2, v3 = q["v1"], q["v2"], q["v3"]
        vv = v1 ** 2 + v2 ** 2 + v3 ** 2
        A[:, 0, 1] = 1
        A[:, 2, 0], A[:, 2, 1], A[:, 2, 2] = -v1 * v2, v2, v1
        A[:, 3, 0], A[:, 3, 1], A[:, 3, 3] = -v1 * v3, v3, v1
        if s.adi:
            g1 = s.g - 1
            A[:, 1, 0] = -v1 ** 2 + 0.5 * g1 * vv
            A[:, 1, 1] = (3 - s.g) * v1
            A[:, 1, 2], A[:, 1, 3], A[:, 1, 4] = -g1 * v2, -g1 * v3, g1
            A[:, 4, 0] = -v1 * q["h"] + 0.5 * g1 * v1 * vv
            A[:, 4, 1] = q["h"] - g1 * v1 ** 2
            A[:, 4, 2], A[:, 4, 3], A[:, 4, 4] = -g1 * v1 * v2, -g1 * v1 * v3, s.g * v1
        else:
            A[:, 1, 0] = s.g ** 2 - v1 ** 2
            A[:, 1, 1] = 2 * v1
        if s.mhd:
            b2, b3, d, x, y = q["b2"], q["b3"], q["d"], q["x"], q["y"]
            j = m - 2
            A[:, 2, j], A[:, 3, j + 1] = -Bx, -Bx
            for r, b, vt in ((j, b2, v2), (j + 1, b3, v3)):
                A[:, r, 0] = (Bx * vt - b * v1) / d
                A[:, r, 1] = b / d
                A[:, r, r - j + 2] = -Bx / d
                A[:, r, r] = v1
            if s.adi:
                x1, y1 = (s.g - 2) * x, (s.g - 2) * y
                A[:, 1, 0] -= x1
                A[:, 1, j], A[:, 1, j + 1] = -b2 * y1, -b3 * y1
                A[:, 4, 0] += Bx * (Bx * v1 + b2 * v2 + b3 * v3) / d - v1 * x1
                A[:, 4, 1] -= Bx ** 2 / d
                A[:, 4, 2] -= Bx * b2 / d
                A[:, 4, 3] -= Bx * b3 / d
                A[:, 4, j] = -Bx * v2 - b2 * v1 * y1
                A[:, 4, j + 1] = -Bx * v3 - b3 * v1 * y1
            else:
                A[:, 1, 0] += x
                A[:, 1, j], A[:, 1, j + 1] = b2 * y, b3 * y
        return A


def scal(gas, F, L, R):
    for q in range(gas.ns):
        F[7 + q] = F[0] * np.where(F[0] >= 0, L[7 + q], R[7 + q])
    return F


def bounds(gas, L, R, Bx):
    ev = gas.roe(L, R, Bx)["ev"]
    al = np.minimum(ev[0], L[1] - gas.cf(L, Bx))
    ar = np.maximum(ev[-1], R[1] + gas.cf(R, Bx))
    return al, ar


def hll(gas, L, R, Bx, al, ar):
    bm, bp = np.minimum(al, 0), np.maximum(ar, 0)
    F = (bp * gas.flux(L, Bx) - bm * gas.flux(R, Bx) + bp * bm * (gas.cons(R, Bx) - gas.cons(L, Bx))) / (bp - bm)
    return F


def hlle(gas, L, R, Bx):
    al, ar = bounds(gas, L, R, Bx)
    return scal(gas, hll(gas, L, R, Bx, al, ar), L, R)


def hllc(gas, L, R, Bx):
    al, ar = bounds(gas, L, R, Bx)
    UL, UR, pl, pr = gas.cons(L, Bx), gas.cons(R, Bx), gas.P(L), gas.P(R)
    dl, dr = L[0] * (L[1] - al), R[0] * (ar - R[1])
    am = (pl - pr + dl * L[1] + dr * R[1]) / (dl + dr)
    cp = pl + dl * (L[1] - am)

    def side(W, U, p, S):
        """flux of the star state behind the wave S of side W"""
        Fw = gas.flux(W, Bx)
        f = S - W[1]
        ds = W[0] * f / (S - am)
        Us = np.zeros_like(U)
        Us[0], Us[1], Us[2], Us[3] = ds, ds * am, ds * W[2], ds * W[3]
        if gas.adi:
            Us[4] = ((S - W[1]) * U[4] - p * W[1] + cp * am) / (S - am)
        F = Fw + S * (Us - U)
        F[1] = ds * am * am + cp
        if gas.adi:
            F[4] = (Us[4] + cp) * am
        else:
            F[4] = 0
        return F
    FL, FR = gas.flux(L, Bx), gas.flux(R, Bx)
    F = np.where(am >= 0, side(L, UL, pl, al), side(R, UR, pr, ar))
    F = np.where(al >= 0, FL, np.where(ar <= 0, FR, F))
    return scal(gas, F, L, R), np.where(al > 0, pl, np.where(ar < 0, pr, cp)), (cp < 1e-9) & (al < 0) & (ar > 0)


def hlld(gas, L, R, Bx):
    """Miyoshi & Kusano 2005 (adiabatic)"""
    UL, UR, FL, FR = gas.cons(L, Bx), gas.cons(R, Bx), gas.flux(L, Bx), gas.flux(R, Bx)
    c = np.maximum(gas.cf(L, Bx), gas.cf(R, Bx))
    SL, SR = np.minimum(L[1], R[1]) - c, np.maximum(L[1], R[1]) + c
    ptl, ptr = L[4] + gas.pb(L, Bx), R[4] + gas.pb(R, Bx)
    dl, dr = L[0] * (SL - L[1]), R[0] * (SR - R[1])
    SM = (dr * R[1] - dl * L[1] - ptr + ptl) / (dr - dl)
    pts = (dr * ptl - dl * ptr + dl * dr * (R[1] - L[1])) / (dr - dl)

    def star(W, U, S, pt):
        f, g = S - W[1], S - SM
        den = W[0] * f * g - Bx ** 2
        bad = np.abs(den) < 1e-8 * pts
        den = np.where(bad, 1.0, den)
        o = np.zeros_like(U)
        o[0] = W[0] * f / g
        o[1] = o[0] * SM
        for v, b in ((2, 5), (3, 6)):
            o[v] = o[0] * (W[v] - np.where(bad, 0, Bx * W[b] * (SM - W[1]) / den))
            o[b] = W[b] * np.where(bad, 1, (W[0] * f * f - Bx ** 2) / den)
        vb = W[1] * Bx + W[2] * W[5] + W[3] * W[6]
        vbs = (o[1] * Bx + o[2] * o[5] + o[3] * o[6]) / o[0]
        o[4] = (f * U[4] - pt * W[1] + pts * SM + Bx * (vb - vbs)) / g
        return o, vbs
    ULs, vbl = star(L, UL, SL, ptl)
    URs, vbr = star(R, UR, SR, ptr)
    ql, qr = np.sqrt(ULs[0]), np.sqrt(URs[0])
    SLs, SRs = SM - abs(Bx) / ql, SM + abs(Bx) / qr
    sg = np.where(Bx > 0, 1.0, -1.0)
    UL2, UR2 = ULs.copy(), URs.copy()
    i = 1 / (ql + qr)
    vt, bt = {}, {}
    for v, b in ((2, 5), (3, 6)):
        vl, vr = ULs[v] / ULs[0], URs[v] / URs[0]
        vt[v] = (ql * vl + qr * vr + (URs[b] - ULs[b]) * sg) * i
        bt[b] = (ql * URs[b] + qr * ULs[b] + ql * qr * (vr - vl) * sg) * i
        UL2[v], UR2[v] = ULs[0] * vt[v], URs[0] * vt[v]
        UL2[b] = UR2[b] = bt[b]
    vb2 = SM * Bx + vt[2] * bt[5] + vt[3] * bt[6]
    UL2[4] = ULs[4] - ql * (vbl - vb2) * sg
    UR2[4] = URs[4] + qr * (vbr - vb2) * sg
    z = 0.5 * Bx ** 2 < 1e-8 * pts
    UL2, UR2 = np.where(z, ULs, UL2), np.where(z, URs, UR2)
    FLs, FRs = FL + SL * (ULs - UL), FR + SR * (URs - UR)
    F = np.where(SM >= 0, FLs + SLs * (UL2 - ULs), FRs + SRs * (UR2 - URs))
    F = np.where(SLs >= 0, FLs, np.where(SRs <= 0, FRs, F))
    F = np.where(SL >= 0, FL, np.where(SR <= 0, FR, F))
    # a switch decided by round-off: both answers are the same to round-off unless the states differ there
    amb = np.abs(SM) < 1e-11
    return scal(gas, F, L, R), np.where(SL >= 0, ptl, np.where(SR <= 0, ptr, pts)), amb


def hlld_iso(gas, L, R, Bx):
    """Mignone 2007"""
    UL, UR, FL, FR = gas.cons(L, Bx), gas.cons(R, Bx), gas.flux(L, Bx), gas.flux(R, Bx)
    cl, cr = gas.cf(L, Bx), gas.cf(R, Bx)
    SL, SR = np.minimum(L[1] - cl, R[1] - cr), np.maximum(L[1] + cl, R[1] + cr)
    i = 1 / (SR - SL)
    Uh = (SR * UR - SL * UL - FR + FL) * i
    Fh = (SR * FL - SL * FR + SR * SL * (UR - UL)) * i
    d = Uh[0]
    u = Fh[0] / d
    sq = np.sqrt(d)
    S1, S2 = u - abs(Bx) / sq, u + abs(Bx) / sq

    def star(W, U, S):
        t = (S - S1) * (S - S2)
        bad = (np.abs(S / np.where(S1 == 0, 1e-300, S1) - 1) < 1e-8) | (np.abs(S / np.where(S2 == 0, 1e-300, S2) - 1) < 1e-8)
        t = np.where(bad, 1.0, t)
        o = Uh.copy()
        for v, b in ((2, 5), (3, 6)):
            o[v] = np.where(bad, U[v], d * W[v] - Bx * W[b] * (u - W[1]) / t)
            o[b] = np.where(bad, U[b], W[b] * (W[0] * (S - W[1]) ** 2 - Bx ** 2) / (d * t))
        return o, bad
    ULs, b1 = star(L, UL, SL)
    URs, b2 = star(R, UR, SR)
    X = sq * np.where(Bx < 0, -1.0, 1.0)
    Fc = Fh.copy()
    for v, b in ((2, 5), (3, 6)):
        m = 0.5 * (ULs[v] + URs[v] + X * (URs[b] - ULs[b]))
        B = 0.5 * (ULs[b] + URs[b] + (URs[v] - ULs[v]) / X)
        Fc[v] = m * u - Bx * B
        Fc[b] = B * u - Bx * m / d
    F = np.where(S1 >= 0, FL + SL * (ULs - UL), np.where(S2 <= 0, FR + SR * (URs - UR), Fc))
    F = np.where(SL >= 0, FL, np.where(SR <= 0, FR, F))
    return scal(gas, F, L, R), b1 | b2


def force(gas, L, R, Bx):
    al, ar = bounds(gas, L, R, Bx)
    UL, UR, FL, FR = gas.cons(L, Bx), gas.cons(R, Bx), gas.flux(L, Bx), gas.flux(R, Bx)
    Uc = (ar * UR - al * UL - FR + FL) / (ar - al)
    W = Uc.copy()
    for a in (1, 2, 3):
        W[a] = Uc[a] / Uc[0]
    neg = Uc[0] <= 0
    if gas.adi:
        p = (gas.g - 1) * (Uc[4] - 0.5 * Uc[0] * (W[1] ** 2 + W[2] ** 2 + W[3] ** 2) - gas.pb(W, Bx))
        W[4] = p
        neg = neg | (p < 1e-10)
    F = 0.5 * gas.flux(W, Bx) + 0.5 * hll(gas, L, R, Bx, al, ar)
    if gas.adi:
        pass
    F = np.where(al >= 0, FL, np.where(ar <= 0, FR, F))
    return scal(gas, F, L, R), neg


def roe(gas, L, R, Bx, eta=0.0):
    """-> (Roe flux, HLLE flux, which: 0 upwind/Roe required, 1 HLLE required, 2 either; ok: well-conditioned)"""
    q = gas.roe(L, R, Bx)
    ev = q["ev"]
    ix = gas.idx
    A = gas.matrix(q, Bx)
    UL, UR, FL, FR = gas.cons(L, Bx), gas.cons(R, Bx), gas.flux(L, Bx), gas.flux(R, Bx)
    dU = (UR - UL)[ix].T
    N, m = dU.shape
    sc = np.abs(ev).max(0) + 1e-300
    order = np.sort(ev, axis=0)
    # merge equal eigenvalues; reject pairs that are nearly but not exactly equal
    ok = np.ones(N, bool)
    lam = [order[0]]
    first = [np.ones(N, bool)]
    for k in range(1, m):
        gap = (order[k] - order[k - 1]) / sc
        ok &= (gap < 1e-11) | (gap > 2e-3)
        first.append(gap > 2e-3)
        lam.append(order[k])
    if gas.mhd and gas.adi:
        ok &= q["a2"] > 1e-10
    lam = np.array(lam)
    first = np.array(first)
    # spectral projections of dU by Lagrange products over distinct eigenvalues
    parts = np.zeros((m, N, m))
    for k in range(m):
        v = dU.copy()
        for j in range(m):
            if j == k:
                continue
            use = first[j] & first[k] & ok
            den = np.where(use, lam[k] - lam[j], 1.0)
            t = (np.einsum("nij,nj->ni", A, v) - lam[j][:, None] * v) / den[:, None]
            v = np.where(use[:, None], t, v)
        parts[k] = np.where(first[k][:, None], v, 0)
    ok &= np.abs(parts.sum(0) - dU).max(1) <= 1e-7 * (np.abs(dU).max(1) + np.abs(parts).max((0, 2)))
    diss = (parts * np.maximum(np.abs(lam), eta)[:, :, None]).sum(0)
    F = 0.5 * (FL + FR)
    F[ix] -= 0.5 * diss.T
    up0, up1 = ev[0] >= 0, ev[-1] <= 0
    which = np.zeros(N, int)
    W = UL[ix].T.copy()
    for k in range(m - 1):
        W = W + parts[k]
        nxt = first[k + 1]        # a gap follows
        dd = W[:, 0]
        tol = 1e-9
        bad = dd < -tol
        near = np.abs(dd) <= tol
        if gas.adi:
            e = W[:, 4] - 0.5 * (W[:, 1] ** 2 + W[:, 2] ** 2 + W[:, 3] ** 2) / np.where(dd == 0, 1e-300, dd)
            if gas.mhd:
                e = e - 0.5 * (W[:, 5] ** 2 + W[:, 6] ** 2 + Bx ** 2)
            t2 = 1e-8 * np.abs(W[:, 4])
            bad = bad | ((dd > tol) & (e < -t2))
            near = near | ((np.abs(e) <= t2) & (dd > 0))
        which = np.where(nxt & (which == 0) & bad, 1, np.where(nxt & (which == 0) & near, 2, which))
    # a group of equal speeds may be split by round-off, its partial states are then tested as well
    split = (~first[1:]).any(0)
    if gas.mhd:
        which = np.where(split & (which == 0) & (np.abs(parts).max((0, 2)) > 0), 2, which)
    F = scal(gas, F, L, R)
    F = np.where(up0, FL, np.where(up1, FR, F))
    which = np.where(up0 | up1, 0, which)
    return F, hlle(gas, L, R, Bx), which, ok


def twoshock(gas, L, R):
    c = gas.g
    zl, zr = np.sqrt(L[0]), np.sqrt(R[0])
    t = zl * zr * (L[1] - R[1]) / (2 * c * (zl + zr))
    z = t + np.sqrt(t * t + zl * zr)
    v = (zl * L[1] + zr * R[1]) / (zl + zr) + c * (zl - zr) / z
    sl, sr = L[1] - c * z / zl, R[1] + c * z / zr
    W = np.where(v >= 0, L, R).copy()
    W[0], W[1] = z * z, v
    F = gas.flux(W, 0.0)
    F = np.where(sr <= 0, gas.flux(R, 0.0), np.where(sl >= 0, gas.flux(L, 0.0), F))
    return F


def exact(gas, L, R, xi=0.0):
    """exact solution of the Riemann problem at x/t = xi -> (primitive state, vacuum flag, intermediate pressure (density if isothermal))"""
    g = gas.g
    if gas.adi:
        cl, cr = np.sqrt(g * L[4] / L[0]), np.sqrt(g * R[4] / R[0])

        def f(p, W, c):
            rar = 2 * c / (g - 1) * ((p / W[4]) ** ((g - 1) / (2 * g)) - 1)
            sh = (p - W[4]) * np.sqrt(2 / ((g + 1) * W[0]) / (p + (g - 1) / (g + 1) * W[4]))
            return np.where(p <= W[4], rar, sh)
        vac = 2 * (cl + cr) / (g - 1) <= R[1] - L[1]
        lo, hi = np.full(L[0].shape, 1e-14), np.full(L[0].shape, 1e8)
        for _ in range(140):
            mid = np.sqrt(lo * hi)
            up = f(mid, L, cl) + f(mid, R, cr) + R[1] - L[1] > 0
            hi, lo = np.where(up, mid, hi), np.where(up, lo, mid)
        p = np.sqrt(lo * hi)
        v = 0.5 * (L[1] + R[1] + f(p, R, cr) - f(p, L, cl))
    else:
        c = g
        cl = cr = c + 0 * L[0]

        def f(d, W, c):
            return np.where(d <= W[0], c * np.log(d / W[0]), c * (d - W[0]) / np.sqrt(d * W[0]))
        vac = np.zeros(L[0].shape, bool)
        lo, hi = np.full(L[0].shape, 1e-30), np.full(L[0].shape, 1e8)
        for _ in range(160):
            mid = np.sqrt(lo * hi)
            up = f(mid, L, c) + f(mid, R, c) + R[1] - L[1] > 0
            hi, lo = np.where(up, mid, hi), np.where(up, lo, mid)
        p = np.sqrt(lo * hi)      # density of the intermediate state
        v = 0.5 * (L[1] + R[1] + f(p, R, c) - f(p, L, c))

    def side(W, c, sg):
        """state at xi on the side of W; sg = -1 left, +1 right (mirrored so that the wave runs left)"""
        u, x, vs = -sg * W[1], -sg * xi, -sg * v
        o = W.copy()
        if gas.adi:
            shock = p > W[4]
            S = u - c * np.sqrt((g + 1) / (2 * g) * p / W[4] + (g - 1) / (2 * g))
            k = (g - 1) / (g + 1)
            ds = np.where(shock, W[0] * (p / W[4] + k) / (k * p / W[4] + 1), W[0] * (p / W[4]) ** (1 / g))
            head, tail = u - c, vs - c * (p / W[4]) ** ((g - 1) / (2 * g))
            fan = 2 / (g + 1) + k / c * (u - x)
            fan = np.where(fan > 0, fan, 1.0)
            fd, fv, fp = W[0] * fan ** (2 / (g - 1)), 2 / (g + 1) * (c + (g - 1) / 2 * u + x), W[4] * fan ** (2 * g / (g - 1))
        else:
            shock = p > W[0]
            S = u - c * np.sqrt(p / W[0])
            ds = p
            head, tail = u - c, vs - c
            fd, fv = W[0] * np.exp(np.minimum((u - c - x) / c, 500)), x + c
            fp = p
        out = np.where(shock, x < S, x < head)
        infan = ~shock & (x >= head) & (x < tail)
        o[0] = np.where(out, W[0], np.where(infan, fd, ds))
        o[1] = -sg * np.where(out, u, np.where(infan, fv, vs))
        if gas.adi:
            o[4] = np.where(out, W[4], np.where(infan, fp, p))
        return o
    W = np.where(xi <= v, side(L, cl, -1), side(R, cr, 1))
    return W, vac, p


def sr_speeds(gas, W, Bx):
    """slowest and fastest characteristic speeds along x (roots of the relativistic dispersion relation)"""
    N = W.shape[1]
    d, v, p = W[0], W[1:4], W[4]
    v2 = (v ** 2).sum(0)
    w2 = 1 / (1 - v2)
    h = d + gas.g / (gas.g - 1) * p
    c2 = gas.g * p / h
    if not gas.mhd:
        den = 1 - v2 * c2
        q = np.sqrt(c2 * (1 - v2) * (1 - v[0] ** 2 - (v2 - v[0] ** 2) * c2))
        return (v[0] * (1 - c2) - q) / den, (v[0] * (1 - c2) + q) / den
    B = np.array([Bx + 0 * d, W[5], W[6]])
    w = np.sqrt(w2)
    vB = (v * B).sum(0)
    b0, bx = w * vB, B[0] / w + w * vB * v[0]
    b2 = (B ** 2).sum(0) / w2 + vB ** 2
    lo, hi = np.zeros(N), np.zeros(N)
    # h(1-c2) w^4 (l-vx)^4 - (1-l^2)[ w^2 (h c2 + b2)(l-vx)^2 - c2 (bx - l b0)^2 ] = 0
    for i in range(N):
        a = np.array([-v[0][i], 1.0])
        a2 = np.convolve(a, a)
        a4 = np.convolve(a2, a2)
        e = np.array([bx[i], -b0[i]])
        t = w2[i] * (h[i] * c2[i] + b2[i]) * a2 - c2[i] * np.convolve(e, e)
        co = h[i] * (1 - c2[i]) * w2[i] ** 2 * a4 - np.convolve(np.array([1.0, 0, -1.0]), t)
        r = np.roots(co[::-1])
        r = r.real
        lo[i], hi[i] = r.min(), r.max()
    return lo, hi


def sr_hllc(gas, L, R):
    """Mignone & Bodo 2005"""
    UL, FL = gas.srstate(L, 0.0)
    UR, FR = gas.srstate(R, 0.0)
    l1, l2 = sr_speeds(gas, L, 0.0)
    r1, r2 = sr_speeds(gas, R, 0.0)
    SL, SR = np.minimum(l1, r1), np.maximum(l2, r2)
    U = (SR * UR - SL * UL + FL - FR) / (SR - SL)
    F = (SR * FL - SL * FR + SL * SR * (UR - UL)) / (SR - SL)
    a, b, c = F[4], -(U[4] + F[1]), U[1]
    disc = np.sqrt(np.maximum(b * b - 4 * a * c, 0))
    ls = np.where(np.abs(a) > 1e-10, (-b - disc) / np.where(a == 0, 1, 2 * a), -c / b)

    def side(W, U, Fw, S):
        A = S * U[4] - U[1]
        B = U[1] * (S - W[1]) - W[4]
        ps = (A * ls - B) / (1 - S * ls)
        o = U * (S - W[1]) / (S - ls)
        o[1] = (U[1] * (S - W[1]) + ps - W[4]) / (S - ls)
        o[4] = (U[4] * (S - W[1]) + ps * ls - W[4] * W[1]) / (S - ls)
        return Fw + S * (o - U)
    F = np.where(ls >= 0, side(L, UL, FL, SL), side(R, UR, FR, SR))
    return np.where(SL >= 0, FL, np.where(SR <= 0, FR, F))
