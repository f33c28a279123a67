"""C15: dust particles: paths under drag and inertial forces, feedback, boundaries, deposition on the grid and particle outputs."""
import os, struct
import numpy as np
from scipy.integrate import solve_ivp
from vlib import golden, ics, sim
from checks import c05

PID = "C15"
P_, F_, H, I, S = "--with-particles=passive ", "--with-particles=feedback ", "--with-gas=hydro ", "--with-eos=isothermal ", "--enable-shearing-box "
CFG = {
    "p": P_ + H, "pi": P_ + H + I, "pm": P_ + "--with-flux=hlld", "p3": P_ + H + "--with-order=3 --with-flux=hllc",
    "f": F_ + H, "fi": F_ + H + I, "fm": F_ + "--with-flux=hlld --with-order=3p", "f3": F_ + H + I + "--with-order=3",
    "ps": P_ + H + I + S, "psf": P_ + H + I + S + "--enable-fargo --with-order=3p", "fs": F_ + H + I + S, "fsf": F_ + H + I + S + "--enable-fargo",
    "fsa": F_ + H + S, "fsfa": F_ + H + S + "--enable-fargo --with-order=3p",
}
BOX = [(-0.5, 0.5), (0.0, 1.2), (-0.3, 0.7)]
OMG, Q = 1.1, 1.4


def specs(tier):
    return {k: dict(args=a) for k, a in CFG.items()}


def cases(tier):
    full = tier != "quick"
    # paths in a given gas flow
    for cfg in CFG:
        sh = "shearing" in CFG[cfg]
        for geo in (("xy", "xz", "3d") if sh else ("1d", "2d", "3d")):
            for it in (1, 2, 3):
                for ip in (1, 2, 3):
                    for ts in (1, 2, 3):
                        if not full and (it + ip + ts) % 3 and (cfg not in ("p", "psf") or geo == "3d"):
                            continue
                        if (cfg[0] == "f" or cfg in ("pm", "p3")) and not full and ip != 2:
                            continue
                        if sh and ts == 1:
                            continue
                        yield dict(kind="path", cfg=cfg, geo=geo, it=it, ip=ip, ts=ts)
                        if it == 3 and ts == 3 and ip == 2:
                            yield dict(kind="path", cfg=cfg, geo=geo, it=it, ip=ip, ts=ts, st=1)
    # gas and particles together
    for cfg in CFG:
        if cfg[0] != "f":
            continue
        sh = "shearing" in CFG[cfg]
        for geo in (("xy", "xz", "3d") if sh else ("1d", "2d", "3d")):
            for it in (1, 2, 3):
                for ip in (1, 2, 3):
                    yield dict(kind="two", cfg=cfg, geo=geo, it=it, ip=ip)
                    if not sh:
                        for pat in range(1 if not full else 4):
                            yield dict(kind="cons", cfg=cfg, geo=geo, it=it, ip=ip, pat=pat)
    # boundaries
    for cfg in ("p", "fi"):
        for nd in (1, 2, 3):
            for bcs in np.ndindex(*(4,) * nd):
                if not full and cfg == "fi" and sum(bcs) % 3:
                    continue
                for tl in (0.45, 4.97):
                    yield dict(kind="wall", cfg=cfg, nd=nd, bc=list(map(int, bcs)), tl=tl)
    for cfg in ("p", "f", "fi", "f3"):
        for nd in (1, 2, 3):
            for ax in range(nd):
                for it in (1, 2, 3):
                    for ip in (1, 2, 3):
                        yield dict(kind="mirror", cfg=cfg, geo="%dd" % nd, ax=ax, it=it, ip=ip)
    # deposition and outputs
    for cfg in ("p", "fi", "f", "pm", "ps", "psf"):
        for geo in (("xy", "3d") if "shearing" in CFG[cfg] else ("1d", "2d", "3d")):
            for ip in (1, 2, 3):
                for n in ((0, 1, 40) if full else (1, 40)):
                    for bc in ((0,) if "shearing" in CFG[cfg] else (0, 1, 2, 3) if full or cfg in ("p", "fi") else (ip,)):
                        yield dict(kind="out", cfg=cfg, geo=geo, ip=ip, np=n, bc=bc)


def size(geo, m):
    return {"1d": (12 * m, 1, 1), "2d": (12 * m, 10 * m, 1), "xy": (12 * m, 10 * m, 1), "xz": (12 * m, 10 * m, 1), "3d": (6 * m, 6 * m, 5 * m)}[geo]


class Flow:
    """an exact flow: a shear and entropy wave carried by a uniform velocity, or uniform epicyclic motion in the shearing box"""
    def __init__(s, ph, geo):
        s.ph, s.geo = ph, geo
        s.nd = {"1d": 1, "2d": 2, "3d": 3, "xy": 2, "xz": 2}[geo]
        s.sh = ph.shear
        s.U = np.array([0.31, -0.23, 0.17])
        s.iy = 2 if geo == "xz" else 1
        m = np.array([1, 1, -1]) * (np.arange(3) < s.nd)
        s.k = 2 * np.pi * m / np.array([b[1] - b[0] for b in BOX])
        e = np.array([0.3, 0.8, -0.5]) if s.nd > 1 else np.array([0.0, 0.8, -0.5])
        s.e = e - s.k * (e @ s.k) / (s.k @ s.k)
        s.A = 0.25 if not s.sh else 0.0
        s.r = 0.3 if ph.adi and not s.sh else 0.0
        s.p = 0.8
        s.w = OMG * np.sqrt(2 * (2 - Q))

    def epi(s, t):
        """uniform departure from the background shear"""
        u = s.U.copy()
        w = s.w
        a, b = s.U[0], s.U[s.iy]
        u[0] = a * np.cos(w * t) + 2 * OMG / w * b * np.sin(w * t)
        u[s.iy] = b * np.cos(w * t) - (2 - Q) * OMG / w * a * np.sin(w * t)
        return u

    def at(s, x, t):
        """x[3, n] -> d, v[3, n] (departure from shear with orbital advection), cs"""
        if s.sh:
            u = s.epi(t)[:, None] + 0 * x
            if not s.ph.fargo:
                u[s.iy] -= Q * OMG * x[0]
            d = 1.0 + 0 * x[0]
        else:
            th = s.k @ (x - np.array([BOX[a][0] for a in range(3)])[:, None]) - (s.k @ s.U) * t
            u = s.U[:, None] + s.A * s.e[:, None] * np.sin(th)
            d = 1.0 + s.r * np.cos(th)
        cs = np.sqrt(5. / 3. * s.p / d) if s.ph.adi else 1.0 + 0 * d
        return d, u, cs

    def ic(s, n):
        x = np.meshgrid(*[BOX[a][0] + (BOX[a][1] - BOX[a][0]) * (np.arange(n[a]) + 0.5) / n[a] for a in (2, 1, 0)], indexing="ij")[::-1]
        X = np.array([g.ravel() for g in x])
        for a in range(s.nd, 3):
            X[a] = BOX[a][0]
        d, u, cs = s.at(X, 0.0)
        sh = n[::-1]
        b = [np.zeros(sh)] * 3 if s.ph.mhd else None
        U = ics.cons(s.ph, d.reshape(sh), [u[a].reshape(sh) for a in range(3)], np.full(sh, s.p), b)
        B = [np.zeros((n[2], n[1], n[0] + 1)), np.zeros((n[2], n[1] + (n[1] > 1), n[0])), np.zeros((n[2] + (n[2] > 1), n[1], n[0]))] if s.ph.mhd else None
        return U, B


def tstop(ts, d, cs, vd, t0, rhoa, alam):
    if ts == 3:
        return t0
    if ts == 2 or alam * d < 2.25:
        return rhoa / (d * cs)
    Re = 4 * alam * d * vd / cs
    CD = 24 / Re if Re < 1 else 24 * Re ** -0.6 if Re < 800 else 0.44
    return rhoa / (d * vd * CD)


def wrapx(fl, X, V, t, ph):
    """fold unwrapped positions into the box"""
    X, V = X.copy(), V.copy()
    L = [b[1] - b[0] for b in BOX]
    for a in range(fl.nd):
        m = np.floor((X[a] - BOX[a][0]) / L[a])
        X[a] -= m * L[a]
        if a == 0 and fl.sh:
            if fl.iy == 1:
                X[1] += m * Q * OMG * L[0] * t
            if not ph.fargo:
                V[fl.iy] += m * Q * OMG * L[0]
    return X, V


def dist(fl, A, B):
    """differences of positions, periodic"""
    D = A - B
    for a in range(fl.nd):
        L = BOX[a][1] - BOX[a][0]
        D[a] -= L * np.round(D[a] / L)
    return D


def grid_particles(s):
    P = s.particles()
    P = P[P[:, 2] > 0]                                                  # ghost copies are marked 0
    return P[np.argsort(P[:, 1])]


def runit(ctx, c, cfg, n, U, B, parts, tl, prob, part, m, bc=(4,) * 6, nlim=100000, cour=0.4, outputs=(), mode=2, box=BOX):
    sim.write_ic(c.path("ic"), [(U, B)], parts)
    inp = sim.athinput(nx=n, box=box, bc=bc, nlim=nlim, tlim=tl, cour=cour, problem=prob, particle=part, outputs=outputs)
    rc, out = sim.run_serial(ctx.exes[cfg], c.dir, inp, mode=mode, dump="d%d" % m, timeout=200)
    ctx.trace()
    if rc:
        return "run failed (%d): %s" % (rc, out[-300:])
    S = sim.read_dump(c.path("d%d" % m))
    for s in S:
        ctx.snap(s)
    ctx.step(S[-1].nstep)
    return S


def judge(case, ctx, errs, tot):
    if not np.isfinite(errs).all():
        return ctx.fail("nonfinite", "non-finite state")
    if golden.calibrating():
        golden.record(PID, case, errs)
        if os.environ.get("VP_SHOW"):
            print(case, "%.2f %.3g %.3g" % (tot[0] / tot[1], tot[0], tot[1]), " ".join("%.2g/%.2g" % x for x in zip(errs[:len(errs) // 2], errs[len(errs) // 2:])))
        return
    need = 1.35 if case.get("ts") == 1 else 1.7                         # the general drag law is first order, and not yet asymptotic
    if not (tot[0] / tot[1] > need or tot[1] < 1e-9):
        return ctx.fail("order", "error falls only by %.2f (from %.3g to %.3g) when the resolution is doubled" % (tot[0] / tot[1], tot[0], tot[1]))
    g = golden.bounds(PID, case)
    if g is None:
        return ctx.fail("golden", "no recorded accuracy for this case")
    for i, (e, b) in enumerate(zip(errs, g)):
        if not e <= 1.03 * b + 1e-9:
            return ctx.fail("error", "error %d is %.4g, the method's is %.4g" % (i, e, b))


def shprob(fl):
    return dict(omega=OMG, qshear=Q, shbox_xz=int(fl.geo == "xz")) if fl.sh else {}


def path(case, ctx):
    ph = ics.Phys(CFG[case["cfg"]])
    fl = Flow(ph, case["geo"])
    rng = np.random.default_rng([15, fl.nd])
    NP = 14
    X0 = np.array([rng.uniform(b[0], b[1], NP) for b in BOX])
    for a in range(fl.nd):                                              # some start next to a boundary
        X0[a][:4] = [BOX[a][0] + 0.004, BOX[a][1] - 0.004, BOX[a][0] + 0.01, BOX[a][1] - 0.02]
    for a in range(fl.nd, 3):
        X0[a] = BOX[a][0]
    V0 = rng.uniform(-0.9, 0.9, (3, NP))
    if fl.sh and not ph.fargo:
        V0[fl.iy] -= Q * OMG * X0[0]
    ty = np.arange(NP) % 2
    t0 = (0.4, 0.07) if not case.get("st") else (0.4, 1e-3)              # also stiff drag
    rhoa = (0.35, 0.12)
    f = np.array([0.3, -0.2, 0.25])
    alam = 0.0
    if case["ts"] == 1:
        alam = 4.0 * 0.7                                                # Stokes and intermediate regimes
    tl = 0.25

    def rhs(t, y):
        z = y.reshape(6, NP)
        X, V = z[:3], z[3:]
        d, u, cs = fl.at(X, t)
        vd = np.sqrt(((V - u) ** 2).sum(0))
        T = np.array([tstop(case["ts"], d[i], cs[i], vd[i], t0[ty[i]], rhoa[ty[i]], alam) for i in range(NP)])
        A = (u - V) / T + f[:, None]
        W = V.copy()
        if fl.sh:
            iy = fl.iy
            if ph.fargo:
                A[0] += 2 * OMG * V[iy]
                A[iy] += (Q - 2) * OMG * V[0]
                W[iy] -= Q * OMG * X[0]
            else:
                A[0] += 2 * OMG * V[iy] + 2 * Q * OMG ** 2 * X[0]
                A[iy] -= 2 * OMG * V[0]
        W[fl.nd:] = 0
        return np.concatenate([W, A]).ravel()
    y = solve_ivp(rhs, (0, tl), np.concatenate([X0, V0]).ravel(), method="DOP853" if not case.get("st") else "LSODA", rtol=1e-10, atol=1e-11).y[:, -1].reshape(6, NP)
    XE, VE = wrapx(fl, y[:3], y[3:], tl, ph)
    errs, tot = [], []
    with ctx.case() as c:
        for m in (1, 2):
            n = size(case["geo"], 2 * m)
            U, B = fl.ic(n)
            parts = [(ty[i], i, *X0[:, i], *V0[:, i]) for i in range(NP)]
            prob = dict(tstop0=t0[0], tstop1=t0[1], grrhoa0=rhoa[0], grrhoa1=rhoa[1], pmass0=1e-12, pmass1=1e-12, prad=0.7, alamcoeff=4.0 if alam else 0.0,
                        pf1=f[0], pf2=f[1], pf3=f[2], **shprob(fl))
            r = runit(ctx, c, case["cfg"], n, U, B, parts, tl, prob, dict(partypes=2, parnumgrid=NP, integrator=case["it"], interp=case["ip"], tsmode=case["ts"]), m, cour=0.4)
            if isinstance(r, str):
                return ctx.fail("run", r)
            P = grid_particles(r[-1])
            if len(P) != NP or not (P[:, 1] == np.arange(NP)).all() or not (P[:, 0] == ty).all():
                return ctx.fail("lost", "%d particles at the end, %d at the start" % (len(P), NP))
            X, V = P[:, 3:6].T, P[:, 6:9].T
            for a in range(fl.nd):
                if not ((X[a] >= BOX[a][0]).all() and (X[a] <= BOX[a][1]).all()):
                    return ctx.fail("outside", "a particle ends outside the box: x%d = %s" % (a + 1, X[a]))
            for a in range(fl.nd, 3):
                if not (X[a] == BOX[a][0]).all():
                    return ctx.fail("moved", "a particle moves along the unresolved direction %d" % (a + 1))
            # next to the boundary in x of the sheared box either image may be listed
            D = dist(fl, X, XE)
            E = V - VE
            if fl.sh:
                j = np.abs(X[0] - XE[0]) > 0.5 * (BOX[0][1] - BOX[0][0])
                s = np.sign(X[0] - XE[0]) * j
                L = BOX[0][1] - BOX[0][0]
                if fl.iy == 1:
                    D = dist(fl, X, XE - np.array([0 * s, s * Q * OMG * L * tl, 0 * s]))
                if not ph.fargo:
                    E[fl.iy] += s * Q * OMG * L
            e = [np.abs(D[a]).mean() for a in range(fl.nd)] + [np.abs(E[a]).mean() for a in range(3)]
            errs += e
            tot.append(sum(e))
    judge(case, ctx, errs, tot)


def two(case, ctx):
    """uniform gas and two kinds of evenly spread particles exchange momentum (and heat): an ordinary differential equation"""
    ph = ics.Phys(CFG[case["cfg"]])
    fl = Flow(ph, case["geo"])
    fl.A = fl.r = 0.0
    mass, ts = (0.5, 0.3), (0.3, 0.12)
    V0 = np.array([[0.6, -0.4, 0.5], [-0.5, 0.7, 0.2]])
    tl = 0.2
    iy = fl.iy

    def cor(v, x0=0.0):
        A = np.zeros(3)
        if fl.sh:                                                       # departures from the shear
            A[0] += 2 * OMG * v[iy]
            A[iy] += (Q - 2) * OMG * v[0]
        return A

    def rhs(t, y):
        u, V, X, q = y[:3], y[3:9].reshape(2, 3), y[9:15].reshape(2, 3), y[15]
        du, dV, dX = cor(u), np.zeros((2, 3)), V.copy()
        dq = 0.0
        for i in range(2):
            fd = (u - V[i]) / ts[i]
            dV[i] = fd + cor(V[i])
            du = du - mass[i] * fd
            dq += mass[i] * ((u - V[i]) ** 2).sum() / ts[i]
            if fl.sh:
                dX[i][iy] = V[i][iy] - Q * OMG * X[i][0]
        dX[:, fl.nd:] = 0
        return np.concatenate([du, dV.ravel(), dX.ravel(), [dq]])
    y = solve_ivp(rhs, (0, tl), np.concatenate([fl.U, V0.ravel(), np.zeros(6), [0.0]]), method="DOP853", rtol=1e-11, atol=1e-12).y[:, -1]
    uE, VE, XE, heat = y[:3], y[3:9].reshape(2, 3), y[9:15].reshape(2, 3), y[15]
    errs, tot = [], []
    with ctx.case() as c:
        for m in (1, 2):
            n = size(case["geo"], m)
            U, B = fl.ic(n)
            cc = np.meshgrid(*[np.arange(n[a]) for a in (2, 1, 0)], indexing="ij")[::-1]
            parts, X0, ty = [], [], []
            for i in range(2):
                off = ((0.5, 0.5, 0.5), (0.23, 0.81, 0.4))[i]
                xs = [BOX[a][0] + (BOX[a][1] - BOX[a][0]) * (cc[a].ravel() + off[a]) / n[a] if a < fl.nd else np.full(cc[0].size, BOX[a][0]) for a in range(3)]
                for q in range(cc[0].size):
                    v = V0[i].copy()
                    if fl.sh and not ph.fargo:
                        v[iy] -= Q * OMG * xs[0][q]
                    X0.append([x[q] for x in xs])
                    ty.append(i)
                    parts.append((i, len(parts), *X0[-1], *v))
            X0, ty = np.array(X0).T, np.array(ty)
            prob = dict(tstop0=ts[0], tstop1=ts[1], pmass0=mass[0], pmass1=mass[1], **shprob(fl))
            r = runit(ctx, c, case["cfg"], n, U, B, parts, tl, prob, dict(partypes=2, parnumgrid=len(parts), integrator=case["it"], interp=case["ip"], tsmode=3), m, cour=0.4)
            if isinstance(r, str):
                return ctx.fail("run", r)
            P = grid_particles(r[-1])
            if len(P) != len(parts):
                return ctx.fail("lost", "%d particles at the end, %d at the start" % (len(P), len(parts)))
            X, V = P[:, 3:6].T, P[:, 6:9].T.copy()
            W = r[-1].level()["U"]
            v = np.array([W[1 + a] / W[0] for a in range(3)])
            if fl.sh and not ph.fargo:
                V[iy] += Q * OMG * X[0]
                v[iy] += Q * OMG * (BOX[0][0] + (BOX[0][1] - BOX[0][0]) * (np.arange(n[0]) + 0.5) / n[0])
            e = []
            for i in range(2):
                w = ty == i
                e += [np.abs(V[a][w] - VE[i][a]).mean() for a in range(3)]
                Z, _ = wrapx(fl, X0[:, w] + XE[i][:, None] + np.array([0 * X0[0][w]] * iy + [-Q * OMG * tl * X0[0][w] if fl.sh and iy == 1 else 0 * X0[0][w]] + [0 * X0[0][w]] * (2 - iy)), V[:, w] * 0, tl, ph)
                D = dist(fl, X[:, w], Z)
                if fl.sh and iy == 1:
                    L = BOX[0][1] - BOX[0][0]
                    s = np.sign(X[0][w] - Z[0]) * (np.abs(X[0][w] - Z[0]) > 0.5 * L)
                    D = dist(fl, X[:, w], Z - np.array([0 * s, s * Q * OMG * L * tl, 0 * s]))
                e += [np.abs(D[a]).mean() for a in range(fl.nd)]
            e += [np.abs(v[a] - uE[a]).mean() for a in range(3)] + [np.abs(W[0] - 1).mean()]
            if ph.adi:
                pr = (W[4] - 0.5 * (W[1] ** 2 + W[2] ** 2 + W[3] ** 2) / W[0]) * 2. / 3.
                e.append(np.abs(pr - fl.p - 2. / 3. * heat).mean())
            errs += e
            tot.append(sum(e))
    judge(case, ctx, errs, tot)


def cons(case, ctx):
    """feedback: gas and particles together keep their momentum, whatever the state"""
    ph = ics.Phys(CFG[case["cfg"]])
    geo = case["geo"]
    n = {"1d": (9, 1, 1), "2d": (9, 8, 1), "3d": (8, 7, 6)}[geo]
    nd = int(geo[0])
    rng = np.random.default_rng([51, nd, case["pat"]])
    U, B = ics.lattice(ph, n, BOX, pat=case["pat"], amp=0.5)
    NP = 60
    mass = (0.02, 0.11)
    parts = []
    for i in range(NP):
        x = [rng.uniform(*BOX[a]) if a < nd else BOX[a][0] for a in range(3)]
        parts.append((i % 2, i, *x, *rng.uniform(-1, 1, 3)))
    with ctx.case() as c:
        prob = dict(tstop0=0.2, tstop1=0.01, pmass0=mass[0], pmass1=mass[1])
        r = runit(ctx, c, case["cfg"], n, U, B, parts, 1e9, prob, dict(partypes=2, parnumgrid=NP, integrator=case["it"], interp=case["ip"], tsmode=3), 0, nlim=4, mode=1)
        if isinstance(r, str):
            return ctx.fail("run", r)
        A = np.array(parts)
        mm = np.array(mass)[A[:, 0].astype(int)]
        t0 = [U[1 + a].sum() + (mm * A[:, 5 + a]).sum() for a in range(3)]
        for s in r:
            P = grid_particles(s)
            if len(P) != NP:
                return ctx.fail("lost", "%d of %d particles left at step %d" % (len(P), NP, s.nstep))
            m2 = np.array(mass)[P[:, 0].astype(int)]
            W = s.level()["U"]
            for a in range(3):
                t = W[1 + a].sum() + (m2 * P[:, 6 + a]).sum()
                if not abs(t - t0[a]) < 1e-11 * np.abs(U[0]).sum():
                    return ctx.fail("momentum", "total momentum %d of gas and particles changes from %.15g to %.15g (step %d)" % (a + 1, t0[a], t, s.nstep))


def mirror(case, ctx):
    """reflecting walls: the same as twice the box with the mirrored state and the mirrored particles"""
    ph = ics.Phys(CFG[case["cfg"]])
    nd, ax = int(case["geo"][0]), case["ax"]
    n = {1: (9, 1, 1), 2: (9, 8, 1), 3: (8, 7, 6)}[nd]
    rng = np.random.default_rng([53, nd, ax])
    U, _ = ics.lattice(ph, n, BOX, pat=case["it"], amp=0.5)
    NP = 50
    lo, hi = BOX[ax]
    parts = []
    for i in range(NP):
        x = [rng.uniform(*BOX[a]) if a < nd else BOX[a][0] for a in range(3)]
        if i < 24:
            x[ax] = (lo + (i + 0.5) * 0.1 / n[ax] * (hi - lo), hi - (i + 0.5) * 0.1 / n[ax] * (hi - lo))[i % 2]
        parts.append((i % 2, i, *x, *rng.uniform(-1, 1, 3)))
    V = U.copy()
    V[1 + ax] *= -1
    V = np.concatenate([U, np.flip(V, 3 - ax)], axis=3 - ax)
    p2 = [list(p) for p in parts]
    for p in parts:
        q = list(p)
        q[1] += NP
        q[2 + ax], q[5 + ax] = 2 * hi - q[2 + ax], -q[5 + ax]
        p2.append(q)
    n2, box2, bc = list(n), list(BOX), [4] * 6
    n2[ax], box2[ax] = 2 * n[ax], (lo, 2 * hi - lo)
    bc[2 * ax] = bc[2 * ax + 1] = 5 if case["cfg"] in ("fi", "f3") and case["it"] == 2 else 1
    prob = dict(tstop0=0.2, tstop1=0.02, pmass0=0.3, pmass1=0.11)
    R = []
    with ctx.case() as c:
        for m, (N, W, B, b, P) in enumerate(((n, U, BOX, bc, parts), (n2, V, box2, (4,) * 6, p2))):
            r = runit(ctx, c, case["cfg"], tuple(N), W, None, P, 1e9, prob, dict(partypes=2, parnumgrid=len(P), integrator=case["it"], interp=case["ip"], tsmode=3), m, nlim=4, bc=b, box=B)
            if isinstance(r, str):
                return ctx.fail("run", r)
            R.append(r[-1])
        sl = [slice(None)] * 4
        sl[3 - ax] = slice(0, n[ax])
        A, B = R[0].level()["U"], R[1].level()["U"][tuple(sl)]
        e = np.abs(A - B).max() if abs(R[0].time - R[1].time) < 1e-12 else 1e9
        if not e < 1e-10:
            return ctx.fail("mirror", "gas between walls differs by %.3g from the mirrored box" % e)
        P, Q2 = [grid_particles(r) for r in R]
        if len(P) != NP or len(Q2) != 2 * NP:
            return ctx.fail("lost", "%d and %d particles at the end" % (len(P), len(Q2)))
        Q2 = Q2[:NP].copy()
        w = Q2[:, 3 + ax] >= hi
        Q2[w, 3 + ax] = 2 * hi - Q2[w, 3 + ax]
        Q2[w, 6 + ax] *= -1
        e = np.abs(P[:, 3:9] - Q2[:, 3:9]).max()
        if not e < 1e-10:
            return ctx.fail("mirror", "particles between walls differ by %.3g from the mirrored box" % e)


def wall(case, ctx):
    """free particles near every face, edge and corner, heading in every direction"""
    ph = ics.Phys(CFG[case["cfg"]])
    nd = case["nd"]
    n = {1: (8, 1, 1), 2: (8, 7, 1), 3: (6, 7, 5)}[nd]
    KIND = [(4, 4), (1, 1), (2, 2), (1, 2)]
    bc = sum([KIND[b] for b in case["bc"]], ()) + (4, 4) * (3 - nd)
    flags = tuple(5 if b == 1 and case["cfg"] == "fi" else b for b in bc)    # a conducting wall reflects particles like any other
    dx = [(BOX[a][1] - BOX[a][0]) / n[a] for a in range(3)]
    parts = []
    for side in np.ndindex(*(3,) * nd):
        for dr in np.ndindex(*(3,) * nd):
            x, v = [b[0] for b in BOX], [0.11, -0.07, 0.05]
            for a in range(nd):
                x[a] = (BOX[a][0] + 0.13 * dx[a], 0.5 * (BOX[a][0] + BOX[a][1]), BOX[a][1] - 0.17 * dx[a])[side[a]]
                v[a] = (-0.9, 0.02, 0.85)[dr[a]]
            parts.append((0, len(parts), *x, *v))
    d, p = np.ones(n[::-1]), np.full(n[::-1], 0.01)
    U = ics.cons(ph, d, [0 * d] * 3, p, None)
    tl = case["tl"] * min(dx[:nd]) / 0.9
    NG = 5                                                              # ghost zones with particles
    A = np.array(parts)
    X, V = A[:, 2:5].T.copy(), A[:, 5:8].T.copy()
    X[:nd] += tl * V[:nd]
    live = np.ones(len(parts), bool)
    for a in range(nd):
        lo, hi = BOX[a]
        for w, kind, far in ((X[a] < lo, bc[2 * a], hi - lo), (X[a] >= hi, bc[2 * a + 1], lo - hi)):
            if kind == 4:
                X[a][w] += far
            elif kind == 1:
                X[a][w] = 2 * (lo if far > 0 else hi) - X[a][w]
                V[a][w] *= -1
            else:                                                       # outflow: dropped in the outermost ghost zone
                w = (X[a] < lo - (NG - 1) * dx[a]) if far > 0 else (X[a] >= hi + (NG - 1) * dx[a])
                live &= ~w
    with ctx.case() as c:
        r = runit(ctx, c, case["cfg"], n, U, None, parts, tl, dict(tstop0=1e9, pmass0=1e-12), dict(partypes=1, parnumgrid=len(parts), integrator=2, interp=2, tsmode=3), 0, bc=flags, cour=0.4, mode=2)
        if isinstance(r, str):
            return ctx.fail("run", r)
        P = grid_particles(r[-1])
        ids = np.nonzero(live)[0]
        if len(P) != len(ids) or not (P[:, 1] == ids).all():
            miss = sorted(set(ids) - set(P[:, 1].astype(int)))[:3]
            more = sorted(set(P[:, 1].astype(int)) - set(ids))[:3]
            return ctx.fail("count", "%d particles left, not %d; missing %s unexpected %s" % (len(P), len(ids), [parts[int(i)] for i in miss], [parts[int(i)] for i in more]))
        e = max(np.abs(P[:, 3:6].T - X[:, ids]).max(), np.abs(P[:, 6:9].T - V[:, ids]).max())
        if not e < 1e-7:
            q = int(np.argmax(np.abs(P[:, 3:9].T - np.concatenate([X, V])[:, ids]).max(0)))
            return ctx.fail("fold", "particle %s ends at %s, not %s" % (parts[ids[q]], P[q, 3:9], np.concatenate([X, V])[:, ids[q]]))


def weights(ip, q):
    """q: position in zones -> list of (zone, weight)"""
    if ip == 1:
        i = int(np.floor(q - 0.5))
        w = q - 0.5 - i
        return [(i, 1 - w), (i + 1, w)]
    i = int(np.floor(q))
    d = q - i
    if ip == 2:
        return [(i - 1, 0.5 * (1 - d) ** 2), (i, 0.75 - (d - 0.5) ** 2), (i + 1, 0.5 * d * d)]
    return [(i - 1, 0.5 * (0.5 - d) * (1.5 - d)), (i, 1 - (d - 0.5) ** 2), (i + 1, 0.5 * (d - 0.5) * (d + 0.5))]


def out(case, ctx):
    """particles binned on the grid, particle lists and particle history hold the particles of the state"""
    ph = ics.Phys(CFG[case["cfg"]])
    fl = Flow(ph, case["geo"])
    nd, ip = fl.nd, case["ip"]
    n = {"1d": (11, 1, 1), "2d": (11, 9, 1), "xy": (11, 9, 1), "3d": (8, 7, 6)}[case["geo"]]
    fl.A = fl.r = 0
    U, B = fl.ic(n)
    NP = case["np"]
    rng = np.random.default_rng([55, nd, NP])
    fb = "feedback" in ph.args
    mass = (0.02, 0.3) if fb else (1.0, 1.0)
    parts = []
    dx = [(BOX[a][1] - BOX[a][0]) / n[a] for a in range(3)]
    for i in range(NP):
        x = [rng.uniform(*BOX[a]) if a < nd else BOX[a][0] for a in range(3)]
        if fl.sh:
            x[0] = rng.uniform(BOX[0][0] + 2 * dx[0], BOX[0][1] - 2 * dx[0])   # deposits across the sheared boundary are remapped, not copied
        elif i % 5 == 0:
            x[i % nd] = BOX[i % nd][0] + (0.02 if i % 2 else 0.98) * (BOX[i % nd][1] - BOX[i % nd][0])
        parts.append((i % 2, i + 3, *x, *rng.uniform(-0.5, 0.5, 3)))
    prim = NP == 1
    PAD = 2
    KIND = [(4, 4), (1, 1), (2, 2), (1, 2)]
    bc = sum([KIND[(case["bc"] + a * (case["bc"] + 1)) % 4 if case["bc"] else 0] for a in range(nd)], ()) + (4, 4) * (3 - nd)
    outs = [dict(n=1, out_fmt="bin", out="cons", dt=1e-9, par_prop="odd"), dict(n=2, out_fmt="lis", out="cons", id="l", dt=1e-9), dict(n=3, out_fmt="vtk", out="prim", dt=1e-9, par_prop="odd", pargrid=1),
            dict(n=4, out_fmt="phst", out="cons", dt=1e-9, dat_fmt="%23.16e"), dict(n=5, out_fmt="lis", out="cons", id="o2", dt=1e-9, par_prop="odd"),
            dict(n=6, out_fmt="tab", out="prim" if prim else "cons", dt=1e-9, dat_fmt="%23.16e", **(dict(par_prop="odd") if ip == 1 else {})),
            dict(n=7, name="vpdump", out_fmt="user", dt=1e-9)]
    for i, v in enumerate(("dpar", "M1par", "V2par", "M3par")):
        outs.append(dict(n=8 + i, out_fmt="tab", out=v, id=v, dt=1e-9, dat_fmt="%23.16e"))
    with ctx.case() as c:
        r = runit(ctx, c, case["cfg"], n, U, B, parts, 1e9, dict(tstop0=0.3, tstop1=0.1, prad=0.7, pmass0=mass[0], pmass1=mass[1], **shprob(fl)),
                  dict(partypes=2, parnumgrid=max(NP, 4), integrator=2, interp=ip, tsmode=3), 0, nlim=2, outputs=outs, mode=0, bc=tuple(5 if b == 1 and ip == 3 else b for b in bc))
        if isinstance(r, str):
            return ctx.fail("run", r)
        rows = [l.split() for l in open(c.path("vp.phst")) if l.strip() and not l.startswith("#")]
        for t, s in enumerate(r[:3]):
            P = grid_particles(s)
            if len(P) != NP:
                return ctx.fail("lost", "%d particles of %d" % (len(P), NP))
            dens, full = {}, {}
            for sel in ("all", "odd"):
                G = np.zeros((4,) + tuple(m + 2 * PAD * (m > 1) for m in n[::-1]))
                for p in P:
                    if sel == "odd" and int(p[1]) % 2 == 0:
                        continue
                    w = [weights(ip, PAD + (p[3 + a] - BOX[a][0]) / dx[a]) if a < nd else [(0, 1.0)] for a in range(3)]
                    q = mass[int(p[0])] * np.array([1, p[6], p[7], p[8]])
                    for k, wk in w[2]:
                        for j, wj in w[1]:
                            for i, wi in w[0]:
                                G[:, k, j, i] += wi * wj * wk * q
                for a in range(nd):                                     # what falls outside comes back, and ghost zones are filled
                    g = np.moveaxis(G, 3 - a, 1)
                    sg = np.array([1] + [-1 if b == a else 1 for b in range(3)])[:, None, None, None]
                    N = n[a]
                    if bc[2 * a] == 4:
                        g[:, PAD:2 * PAD] += g[:, N + PAD:]
                        g[:, N:N + PAD] += g[:, :PAD]
                        g[:, N + PAD:], g[:, :PAD] = g[:, PAD:2 * PAD].copy(), g[:, N:N + PAD].copy()
                    else:
                        for side, kind in ((0, bc[2 * a]), (1, bc[2 * a + 1])):
                            h = g if side == 0 else g[:, ::-1]
                            if kind == 1:
                                h[:, PAD:2 * PAD] += sg * h[:, PAD - 1::-1]
                                h[:, :PAD] = sg * h[:, PAD:2 * PAD][:, ::-1]
                full[sel] = G
                dens[sel] = G[(slice(None),) + tuple(slice(PAD, PAD + m) if m > 1 else slice(0, 1) for m in n[::-1])]
            nv = ph.nv
            got = []
            T = np.array([[float(z) for z in l.split()] for l in open(c.path("vp.%04d.tab" % t)) if l.strip() and not l.startswith("#")]).reshape(tuple(n[::-1]) + (-1,))
            got.append(("tab", "odd" if ip == 1 else "all", np.moveaxis(T[..., 2 * nd + nv:2 * nd + nv + 4], -1, 0), prim, 1e-9))
            b = open(c.path("vp.%04d.bin" % t), "rb").read()
            got.append(("bin", "odd", np.frombuffer(b[len(b) - 32 * n[0] * n[1] * n[2]:], "<f8").reshape((4,) + tuple(n[::-1])), 0, 1e-9))
            v = c05.read_vtk(open(c.path("vp.%04d.vtk" % t), "rb").read())["data"]
            if "particle_density" not in v or "particle_momentum" not in v:
                return ctx.fail("bin", "no binned particles in vp.%04d.vtk" % t)
            got.append(("vtk", "odd", np.concatenate([v["particle_density"][None], v["particle_momentum"]]).reshape((4,) + tuple(n[::-1])), 0, 1e-5))
            for i, q in enumerate(("dpar", "M1par", "V2par", "M3par")):
                T = np.array([[float(z) for z in l.split()] for l in open(c.path("vp.%04d.%s.tab" % (t, q))) if l.strip() and not l.startswith("#")])
                A = T[:, -1].reshape(n[::-1])
                W = dens["all"].copy()
                G = W[i]
                if i == 2:
                    A, G = np.where(W[0] > 1e-3 * mass[0], A * W[0], 0), np.where(W[0] > 1e-3 * mass[0], G, 0)
                if not np.abs(A - G).max() < 1e-9:
                    return ctx.fail("bin", "%s in vp.%04d.%s.tab differs by %.3g from the deposit of the particles" % (q, t, q, np.abs(A - G).max()))
            for f, sel, G2, pr, tol in got:
                G = dens[sel].copy()
                if pr:
                    w = G[0] > 1e-3 * mass[0]
                    G2 = np.concatenate([G2[:1], np.where(w, G2[1:] * G[0], 0)])
                    G[1:] = np.where(w, G[1:], 0)
                e = np.abs(G2 - G).max()
                if not e < tol:
                    return ctx.fail("bin", "vp.%04d.%s: binned particles differ by %.3g from the deposit of the particles" % (t, f, e))
            for f, sel in (("vp.%04d.l.lis", "all"), ("vp.%04d.o2.lis", "odd")):
                b = open(c.path(f % t), "rb").read()
                h = struct.unpack_from("<12fi2f2fq", b, 0)
                o = struct.calcsize("<12fi2f2fq")
                want = [x for a in range(3) for x in BOX[a]] * 2
                if np.abs(np.array(h[:12]) - want).max() > 1e-6 or h[12] != 2 or abs(h[13] - 0.7) > 1e-6 or abs(h[15] - s.time) > 1e-6 or abs(h[16] - s.dt) > 1e-6 * s.dt:
                    return ctx.fail("lis", "header of %s: %s" % (f % t, h))
                Q2 = P if sel == "all" else P[P[:, 1] % 2 == 1]
                L = [struct.unpack_from("<7fiqi", b, o + q * 44) for q in range(h[17])] if len(b) == o + 44 * h[17] else None
                if L is None or len(L) != len(Q2):
                    return ctx.fail("lis", "%s lists %d particles in %d bytes, not %d" % (f % t, h[17], len(b), len(Q2)))
                L = sorted(L, key=lambda z: z[8])
                for z, p in zip(L, Q2):
                    w = [weights(ip, PAD + (p[3 + a] - BOX[a][0]) / dx[a]) if a < nd else [(0, 1.0)] for a in range(3)]
                    inside = all(BOX[a][0] <= p[3 + a] < BOX[a][1] for a in range(nd))
                    dp = sum(wi * wj * wk * full["all"][0][k, j, i] for k, wk in w[2] for j, wj in w[1] for i, wi in w[0])
                    if np.abs(np.array(z[:6]) - p[3:9]).max() > 1e-6 or z[7] != p[0] or z[8] != p[1] or (inside and not abs(z[6] - dp) < 1e-5 * (1 + abs(dp))):
                        return ctx.fail("lis", "%s lists %s for particle %s with density %.8g around it" % (f % t, z, p, dp))
            row = [float(z) for z in rows[3 * t]]
            tys = [[float(z) for z in rows[3 * t + 1 + i]] for i in range(2)]
            N = n[0] * n[1] * n[2]
            mm = np.array(mass)[P[:, 0].astype(int)]
            want = {0: s.time, 1: max(0.0, dens["all"][0].max()), 4: mm.sum() / N}
            for a in range(3):
                want[5 + a] = (mm * P[:, 6 + a]).sum() / N
                want[8 + a] = 0.5 * (mm * P[:, 6 + a] ** 2).sum() / N
            for q, w in want.items():
                if not abs(row[q] - w) < 1e-9:
                    return ctx.fail("phst", "particle history column %d is %.12g, not %.12g" % (q + 1, row[q], w))
            for i in range(2):
                Z = P[P[:, 0] == i]
                m = [Z[:, 3 + a].sum() / max(1, len(Z)) for a in range(6)]
                w = m + [np.sqrt(((Z[:, 3 + a] - m[a]) ** 2).sum() / max(1, len(Z) - 1)) for a in range(6)]
                got = tys[i][-12:]
                if len(got) != 12 or not np.abs(np.array(got) - w).max() < 1e-9:
                    return ctx.fail("phst", "particle history of type %d is %s, not %s" % (i, tys[i], w))


def run(case, ctx):
    return globals()[case["kind"]](case, ctx)


BOUNDS = ("14 particle configurations (passive and feedback, hydro/MHD, adiabatic/isothermal, shearing box with and without orbital advection) x geometries x 3 integrators x "
          "3 interpolations x 3 drag laws: paths against exact solutions at two resolutions; two-species feedback; momentum on random states; every boundary combination with particles "
          "at every face, edge and corner heading every way; binned and listed particles after each of two steps")
ASSUME = ["accuracy bounds were recorded from the unchanged tree; a change that makes the method more accurate is not reported",
          "the drag laws are those documented for tsmode 1-3"]
