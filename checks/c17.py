"""C17: the shearing box (with and without orbital advection) against an independent solution in shearing coordinates."""
import fcntl, os
import numpy as np
from vlib import golden, ics, ref, shear, sim

PID = "C17"
BOUNDS = ("23 configurations (hydrodynamics and MHD, adiabatic and isothermal, both integrators, orbital advection on and off, viscosity, conduction, three resistivities, self-gravity) x {2D x-y, 2D x-z, 3D} x up to 5 rotation/shear "
          "laws, two resolutions each, every variable against a spectral solution in shearing coordinates; the zones beyond the shearing boundaries at 24 phases over 2.3 shear periods, smooth and rough data; totals over 6 steps from rough data")
ASSUME = ["reference: pseudo-spectral in coordinates moving with the shear, 4th-order in time", "accuracy bounds (golden/C17.json) are the errors of the method itself, with a margin of 3%",
          "tracer totals and, in two dimensions without orbital advection, all totals are only kept to the accuracy of the scheme"]
S = "--enable-shearing-box "
F = "--enable-shearing-box --enable-fargo "
CFG = {
    "h": S + "--with-gas=hydro", "hi3": S + "--with-gas=hydro --with-eos=isothermal --with-order=3 --with-flux=hllc --with-nscalars=2",
    "m": S + "--with-nscalars=1", "mi": S + "--with-eos=isothermal --with-flux=hlld --with-order=3",
    "hv": S + "--with-gas=hydro --with-integrator=vl --with-order=3p --with-flux=hllc --with-nscalars=1", "mv": S + "--with-integrator=vl --with-order=2p --with-flux=hlld",
    "hiv": S + "--with-gas=hydro --with-eos=isothermal --with-integrator=vl --with-order=2p", "miv": S + "--with-eos=isothermal --with-integrator=vl --with-order=3p --with-flux=hlle",
    "fh": F + "--with-gas=hydro", "fhi3": F + "--with-gas=hydro --with-eos=isothermal --with-order=3 --with-flux=hlle --with-nscalars=2",
    "fm": F + "--with-nscalars=1", "fmi": F + "--with-eos=isothermal --with-flux=hlld --with-order=3p",
    "fhv": F + "--with-gas=hydro --with-integrator=vl --with-order=3p --with-flux=hllc --with-nscalars=1", "fmv": F + "--with-integrator=vl --with-order=2p --with-flux=hlld",
    "fhiv": F + "--with-gas=hydro --with-eos=isothermal --with-integrator=vl --with-order=2p", "fmiv": F + "--with-eos=isothermal --with-integrator=vl --with-order=3p --with-flux=hlle",
    "visc": S + "--with-gas=hydro --enable-viscosity --enable-conduction", "fvisc": F + "--with-gas=hydro --enable-viscosity --enable-conduction", "fvisci": F + "--with-gas=hydro --with-eos=isothermal --enable-viscosity",
    "res": S + "--enable-resistivity", "fres": F + "--enable-resistivity --with-eos=isothermal",
    "sg": S + "--with-gas=hydro --with-gravity=fft --enable-fft", "fsg": F + "--with-gas=hydro --with-eos=isothermal --with-gravity=fft --enable-fft",
}
PR = {"visc": [dict(nu_iso=0.03, kappa_iso=0.01)], "fvisci": [dict(nu_iso=0.03)], "res": [dict(eta_O=0.02), dict(Q_A=0.02), dict(eta_O=0.005, Q_H=0.01)], "sg": [dict(four_pi_G=4.0)]}
PR.update(fvisc=PR["visc"], fres=PR["res"], fsg=PR["sg"])
SZ = {2: ((16, 20, 1), (32, 40, 1)), 3: ((8, 12, 8), (16, 24, 16))}
MR = {2: (40, 40, 1), 3: (28, 28, 28)}
TL = {2: 0.08, 3: 0.06}
BOX = [(-0.5, 0.5), (0.0, 0.8), (-0.6, 0.65)]
# the rotation rate, the shear rate
ROT = {"k": (1.0, 1.5), "f": (4.0, 1.5), "r": (2.0, 1.9), "s": (3.0, 0.4), "z": (2.0, 0.0)}


def specs(tier):
    return {k: dict(args=a) for k, a in CFG.items()}


def cases(tier):
    yield from ghost_cases(tier)
    for cfg in CFG:
        for geo in ("xy", "xz", "3d"):
            if cfg in PR:
                for q, P in enumerate(PR[cfg]):
                    if cfg in ("sg", "fsg") and geo == "xz":
                        continue
                    for r in ("k", "f") if geo != "3d" or tier != "quick" else ("f",):
                        yield dict(cfg=cfg, geo=geo, rot=r, P=q)
                continue
            for r in ROT:
                if tier == "quick" and (geo == "3d" and r in ("rzs" if cfg in ("h", "hi3", "mv", "fm", "fhiv", "fmi") else "rzk" if cfg in ("hv", "mi", "fmiv", "fhi3") else "rzks")):
                    continue
                yield dict(cfg=cfg, geo=geo, rot=r)


def ghost_cases(tier):
    K = 24 if tier == "quick" else 96
    for cfg in ("h", "hi3", "m", "mi", "mv", "fh", "fm", "fmi", "fhi3"):
        for geo in ("xy", "3d"):
            for q in range(K):
                if tier == "quick" and q % 3 != len(cfg) % 3 and cfg not in ("h", "fm", "m"):
                    continue
                yield dict(kind="ghost", cfg=cfg, geo=geo, ph=2.3 * q / K + (0.0 if q % 4 else 0.01))
    for cfg in ("h", "m", "hi3", "mi"):
        for geo in ("xz",):
            yield dict(kind="ghost", cfg=cfg, geo=geo, ph=0.37)
    for cfg in CFG:
        if "fargo" in CFG[cfg] and cfg not in PR:
            for geo in ("xy", "3d"):
                for pat in range(1, 3 if tier == "quick" else 9):
                    for m in (2, -2):
                        yield dict(kind="orb", cfg=cfg, geo=geo, pat=pat, m=m)
    for cfg in CFG:
        for geo in ("xz", "3d"):
            # (in two dimensions the fluxes at the two shearing boundaries agree only with orbital advection)
            if cfg in ("sg", "fsg") or geo == "xz" and cfg[0] != "f":
                continue
            for pat in (1, 2):
                yield dict(kind="cons", cfg=cfg, geo=geo, pat=pat)


def run_cons(case, ctx):
    """rough data over several steps: mass, tracers, vertical momentum and magnetic flux through every plane are kept"""
    ph = ics.Phys(CFG[case["cfg"]])
    geo = case["geo"]
    n = (8, 12, 8) if geo == "3d" else (8, 12, 1)
    az, ve = (2, 1) if geo == "xz" else (1, 2)
    Om, q = (6.0, 1.5) if geo == "3d" else (2.0, 1.5)
    U, B = ics.lattice(ph, n, BOX, pat=case["pat"], amp=0.5)
    V = shear.to_box(ph, U, n, BOX, Om, q, az, ph.fargo)
    prob = dict(PR[case["cfg"]][0]) if case["cfg"] in PR else {}
    with ctx.case() as c:
        sim.write_ic(c.path("ic"), [(V, B)])
        inp = sim.athinput(nx=n, box=BOX, nlim=6, cour=0.3, problem=dict(omega=Om, qshear=q, shbox_xz=int(geo == "xz"), **prob))
        rc, out = sim.run_serial(ctx.exes[case["cfg"]], c.dir, inp, mode=3, timeout=100)
        ctx.trace()
        if rc:
            return ctx.fail("run", "run failed (%d): %s" % (rc, out[-300:]))
        D = sim.read_dump(c.path("dump"))
    L0 = None
    for s in D:
        ctx.snap(s)
        ctx.step(1)
        L = s.level()
        X = L["U"]
        t = dict(mass=X[0].sum())
        if "visc" not in case["cfg"]:                # (the viscous fluxes are not matched across the boundary)
            t["vertical momentum"] = X[1 + ve].sum()
        if ph.mhd:
            for a in range(3):
                if a == az or n[a] == 1:
                    continue
                for p in range(n[a]):
                    ix = [slice(None)] * 3
                    ix[2 - a] = p
                    t["flux through plane %d of direction %d" % (p, a + 1)] = L["B"][a][tuple(ix)].sum()
            if s.nstep:
                dv = np.abs(ics.divb(n, BOX, L["B"])).max()
                if not dv < 2e-11:
                    return ctx.fail("divb", "%s %s: magnetic divergence %.3g after %d steps" % (case["cfg"], geo, dv, s.nstep))
        if L0 is None:
            L0 = t
            sc = np.abs(X).sum(axis=(1, 2, 3)).max()
            continue
        for k in t:
            if not abs(t[k] - L0[k]) <= 1e-12 * sc:
                return ctx.fail("conserve", "%s %s: %s changed from %.15g to %.15g in %d steps" % (case["cfg"], geo, k, L0[k], t[k], s.nstep))


def run_orb(case, ctx):
    """cold gas at rest relative to the orbital motion: one step by which every column moves a whole number of zones"""
    ph = ics.Phys(CFG[case["cfg"]])
    n = (8, 16, 6) if case["geo"] == "3d" else (8, 16, 1)
    box = [(-10.0, 10.0), (0.0, 1.6), (-0.5, 0.5)]
    rng = np.random.default_rng(case["pat"])
    sh = (n[2], n[1], n[0])
    q, Om = 1.5 if case["m"] > 0 else -1.5, 0.9
    dx = [(box[a][1] - box[a][0]) / n[a] for a in range(3)]
    dt = 2 * dx[1] / dx[0] / abs(q * Om)
    d = rng.uniform(0.5, 1.5, sh)
    p = 1e-12 * rng.uniform(0.5, 1.5, sh)
    B = bc = None
    if ph.mhd:
        B = [b * 1e-6 for b in ics.faces(n, box, rng)]
        bc = ics.bcc(n, B)
    U = ics.cons(ph, d, [np.zeros(sh)] * 3, p, bc, [rng.uniform(0, 1, sh) for _ in range(ph.ns)])
    with ctx.case() as c:
        sim.write_ic(c.path("ic"), [(U, B)])
        inp = sim.athinput(nx=n, box=box, nlim=1, tlim=dt, cour=0.5, cs=1e-6, problem=dict(omega=Om, qshear=q))
        rc, out = sim.run_serial(ctx.exes[case["cfg"]], c.dir, inp, mode=2, timeout=100)
        ctx.trace()
        if rc:
            return ctx.fail("run", "run failed (%d): %s" % (rc, out[-300:]))
        s = sim.read_dump(c.path("dump"))[-1]
    ctx.snap(s)
    ctx.step(1)
    if not abs(s.time - dt) < 1e-12 * dt:
        return ctx.fail("steps", "the step is %g, asked for %g" % (s.time, dt))
    L = s.level()
    x = [box[0][0] + (np.arange(n[0]) + 0.5) * dx[0], box[0][0] + np.arange(n[0] + 1) * dx[0]]

    def moved(f, x):
        return np.stack([np.roll(f[:, :, i], -int(round(q * Om * dt * x[i] / dx[1])), axis=1) for i in range(len(x))], axis=2)
    names = [(0, "density", 1.0)] + ([(4, "energy", 1e-12)] if ph.adi and not ph.mhd else []) + [(ph.iS + a, "scalar %d" % a, 1.0) for a in range(ph.ns)]
    for v, nm, sc in names:
        e = np.abs(L["U"][v] - moved(U[v], x[0])).max() / sc
        if not e < 1e-4:
            return ctx.fail("orbit", "%s %s: %s of gas carried around by whole zones is wrong by %.3g" % (case["cfg"], case["geo"], nm, e))
    if ph.mhd:
        W = [moved(B[0], x[1]), None, moved(B[2], x[0])]
        for a in (0, 2):
            e = np.abs(L["B"][a] - W[a]).max() / 1e-6
            if not e < 1e-4:
                return ctx.fail("orbit", "%s %s: field %d carried around by whole zones is wrong by %.3g" % (case["cfg"], case["geo"], a + 1, e))
        v = [-q * Om * dt * y for y in x]
        m = B[1][:, :n[1]].mean(axis=1)
        f = v[1] * B[0].mean(axis=1)
        m = m + (f[:, 1:] - f[:, :-1]) / dx[0]
        if n[2] > 1:
            b3 = B[2].mean(axis=1)
            m = m + v[0] * (b3[1:] - b3[:-1]) / dx[2]
        e = np.abs(L["B"][1][:, :n[1]].mean(axis=1) - m).max() / 1e-6
        if not e < 1e-4:
            return ctx.fail("orbit", "%s %s: mean azimuthal field wound up by the shear is wrong by %.3g" % (case["cfg"], case["geo"], e))
        e = np.abs(ics.divb(n, box, L["B"])).max() * dx[1] / 1e-6
        if not e < 1e-8:
            return ctx.fail("divb", "%s %s: magnetic divergence %.3g" % (case["cfg"], case["geo"], e))


def run_ghost(case, ctx):
    """the zones beyond the shearing boundaries: the opposite side of the box, displaced by the shear and moving with it"""
    ph = ics.Phys(CFG[case["cfg"]])
    geo = case["geo"]
    n = (8, 12, 6) if geo == "3d" else (8, 12, 1)
    az = 2 if geo == "xz" else 1
    Om, q = 1.3, 1.5
    Lx, Ly = BOX[0][1] - BOX[0][0], BOX[1][1] - BOX[1][0]
    t = case["ph"] * Ly / (q * Om * Lx)
    off = q * Om * Lx * t if geo != "xz" else 0.0
    M = MR[2 if geo != "3d" else 3]
    R = shear.Shear(ph, M, BOX, dict(omega=Om, qshear=q, az=az)).setup()
    q0 = ref.smooth(R)
    R.t = t
    errs = []
    for rough in (0, 1):
        if rough:
            U, B = ics.lattice(ph, n, BOX, pat=3, amp=0.6)
        else:
            U, B = R.cells(q0, n)
            if ph.mhd:
                for a, b in enumerate(ics.bcc(n, B)):
                    U[ph.iB + a] = b
        V = shear.to_box(ph, U, n, BOX, Om, q, az, ph.fargo)
        with ctx.case() as c:
            sim.write_ic(c.path("ic"), [(V, B)])
            inp = sim.athinput(nx=n, box=BOX, nlim=0, problem=dict(omega=Om, qshear=q, tgrid=t, shbox_xz=int(geo == "xz")))
            rc, out = sim.run_serial(ctx.exes[case["cfg"]], c.dir, inp, mode=4, timeout=60)
            ctx.trace()
            if rc:
                return ctx.fail("run", "run failed (%d): %s" % (rc, out[-300:]))
            s = sim.read_dump(c.path("dump"))[-1]
            ctx.snap(s)
        g = s.grids[0]
        G = g.gl[0]
        for side in (0, 1):
            # image of the active zones beyond this boundary: departures, so the offset of the velocity drops out
            ii = np.arange(G)
            gi = ii if not side else G + n[0] + ii                     # ghost columns
            si = n[0] - G + ii if not side else ii                     # the active columns they repeat
            nb = (n[0] + 2 * G, n[1], n[2])
            dx = Lx / n[0]
            xb = [(BOX[0][0] - G * dx, BOX[0][1] + G * dx), BOX[1], BOX[2]]
            full = shear.to_box(ph, np.array(g.U), nb, xb, Om, q, az, ph.fargo, sign=-1)
            ak = slice(g.gl[2], g.gl[2] + n[2])
            aj = slice(g.gl[1], g.gl[1] + n[1])
            got = [full[v][ak, aj, :][..., gi] for v in range(ph.nv)]
            src = [U[v][..., si] for v in range(ph.nv)]
            names = ["variable %d" % v for v in range(ph.nv)]
            if ph.mhd:
                # cell-centred B2 follows from the faces
                for a in range(3):
                    F = np.array(g.B[a])[ak, aj, :][..., gi]
                    if a == 0:
                        if not side:
                            F = F[..., 1:]
                            W = B[0][:, :, :n[0]][..., si][..., 1:]
                        else:
                            # faces ie+2..: face ie+1 itself belongs to the box
                            F = F[..., 1:]
                            W = B[0][:, :, :n[0]][..., si][..., 1:]
                    elif a == 1:
                        W = B[1][:, :n[1], :][..., si]
                    else:
                        W = B[2][:n[2]][..., si]
                    got.append(F)
                    src.append(W)
                    names.append("face field %d" % (a + 1))
            sh = off * (1 if not side else -1)                          # ghost(y) = source(y - sh)
            cell = sh / (Ly / n[1])
            lo = int(np.floor(cell))
            for v in range(len(got)):
                a, b = got[v], src[v]
                sc = np.abs(b).max()
                if not np.abs(a.sum(axis=1) - b.sum(axis=1)).max() <= 2e-12 * sc * n[1] * 20:
                    return ctx.fail("ghost", "%s %s, phase %.3f, %s boundary: the ghost zones hold %.15g of %s, the zones they repeat %.15g" % (
                        case["cfg"], geo, case["ph"], "outer" if side else "inner", a.sum(), names[v], b.sum()))
                nb4 = np.array([np.roll(b, lo + m, axis=1) for m in (-1, 0, 1, 2)])
                # the extremum-preserving interpolation may pass a local extremum a little; products with the shear velocity are not monotone
                if v not in (ph.iE, 1 + az):
                    lo4, hi4 = nb4.min(axis=0), nb4.max(axis=0)
                    w = 0.3 * (hi4 - lo4) + 1e-11 * sc
                    if not ((a >= lo4 - w) & (a <= hi4 + w)).all():
                        return ctx.fail("ghost", "%s %s, phase %.3f, %s boundary: %s outside the range of the zones it is interpolated from" % (case["cfg"], geo, case["ph"], "outer" if side else "inner", names[v]))
                if abs(cell - round(cell)) < 1e-9 and not np.abs(a - np.roll(b, int(round(cell)), axis=1)).max() <= 1e-9 * sc:
                    return ctx.fail("ghost", "%s %s, phase %.3f: %s not the shifted copy" % (case["cfg"], geo, case["ph"], names[v]))
                if not rough:
                    # exact averages beyond the boundary: the same waves one box further
                    f = q0[v] if v < ph.nv else q0[ph.iB + v - ph.nv]
                    if ph.mhd and ph.iB <= v < ph.iB + 3:
                        continue
                    RS = shear.Shear(ph, M, [(BOX[0][0] + (Lx if side else -Lx), BOX[0][1] + (Lx if side else -Lx)), BOX[1], BOX[2]], R.par).setup()
                    RS.t = t
                    fc = None if v < ph.nv else v - ph.nv
                    E = RS.average(f, n, face=fc)
                    if fc is not None and n[fc] > 1:
                        ix = [slice(None)] * 3
                        ix[2 - fc] = slice(0, n[fc])
                        E = E[tuple(ix)]
                    E = E[..., si]
                    if fc == 0:
                        E = E[..., 1:]
                    errs.append(np.abs(a - E).mean())
    if golden.calibrating():
        golden.record(PID, case, errs)
        if os.environ.get("VP_SHOW"):
            print(case, " ".join("%.2g" % e for e in errs))
        return
    gb = golden.bounds(PID, case)
    if gb is None:
        return ctx.fail("golden", "no recorded accuracy for this case")
    for i, (e, b) in enumerate(zip(errs, gb)):
        if not e <= 1.03 * b + 1e-9:
            return ctx.fail("ghost", "%s %s, phase %.3f: interpolation error %d in the ghost zones is %.4g, the method's is %.4g" % (case["cfg"], geo, case["ph"], i, e, b))


def params(case):
    return PR[case["cfg"]][case["P"]] if "P" in case else {}


def reference(case, ctx, ph):
    geo = case["geo"]
    nd = 3 if geo == "3d" else 2
    Om, q = ROT[case["rot"]]
    R = shear.Shear(ph, MR[nd], BOX, dict(omega=Om, qshear=q, az=2 if geo == "xz" else 1, **params(case))).setup()
    f = ctx.tree.dir + "/ref-%s" % golden.key([ph.mhd, ph.adi, ph.ns, geo, case["rot"], params(case)])
    with open(f + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(f + ".npy"):
            q0 = ref.smooth(R)
            q1 = R.evolve(q0, TL[nd], 40 if "P" not in case or ph.selfg else 160)
            R.t = 0.0
            np.save(f + ".t.npy", np.array([q0, q1]))
            os.rename(f + ".t.npy", f + ".npy")
    q0, q1 = np.load(f + ".npy")
    return R, q0, q1


def run(case, ctx):
    if case.get("kind") == "orb":
        return run_orb(case, ctx)
    if case.get("kind") == "ghost":
        return run_ghost(case, ctx)
    if case.get("kind") == "cons":
        return run_cons(case, ctx)
    ph = ics.Phys(CFG[case["cfg"]])
    geo = case["geo"]
    nd = 3 if geo == "3d" else 2
    Om, q = ROT[case["rot"]]
    az = 2 if geo == "xz" else 1
    R, q0, q1 = reference(case, ctx, ph)
    errs, tot = [], []
    prob = dict(params(case))
    if ph.selfg:
        prob["mean_rho"] = float(q0[0].mean())
    with ctx.case() as c:
        for n in SZ[nd]:
            R.t = 0.0
            U, B = R.cells(q0, n)
            if ph.mhd:
                for a, b in enumerate(ics.bcc(n, B)):
                    U[ph.iB + a] = b
            V = shear.to_box(ph, U, n, BOX, Om, q, az, ph.fargo)
            sim.write_ic(c.path("ic"), [(V, B)])
            inp = sim.athinput(nx=n, box=BOX, nlim=100000, tlim=TL[nd], cour=0.4 if "P" not in case else 0.3, problem=dict(omega=Om, qshear=q, shbox_xz=int(geo == "xz"), **prob))
            rc, out = sim.run_serial(ctx.exes[case["cfg"]], c.dir, inp, mode=2, dump="d%d" % n[0], timeout=200)
            ctx.trace()
            if rc:
                return ctx.fail("run", "run failed (%d): %s" % (rc, out[-300:]))
            s = sim.read_dump(c.path("d%d" % n[0]))[-1]
            ctx.snap(s)
            ctx.step(s.nstep)
            L = s.level()
            if abs(s.time - TL[nd]) > 1e-12:
                return ctx.fail("time", "run ended at %.15g" % s.time)
            R.t = TL[nd]
            W, Fb = R.cells(q1, n)
            X = shear.to_box(ph, L["U"], n, BOX, Om, q, az, ph.fargo, sign=-1)
            e = [np.abs(X[v] - W[v]).mean() for v in range(ph.nv)]
            if ph.mhd:
                e += [np.abs(L["B"][a] - Fb[a]).mean() for a in range(3)]
            # the zones next to the shearing boundaries alone
            e += [np.abs(X[v][..., [0, 1, -2, -1]] - W[v][..., [0, 1, -2, -1]]).mean() for v in range(ph.nv)]
            errs += e
            tot.append(sum(e[:ph.nv]))
    if not np.isfinite(errs).all():
        return ctx.fail("nonfinite", "non-finite state")
    if golden.calibrating():
        golden.record(PID, case, errs)
        if os.environ.get("VP_SHOW"):
            print(case, "%.2f %.3g %.3g" % (tot[0] / tot[1], tot[0], tot[1]))
        return
    if not tot[0] / tot[1] > 1.9:
        return ctx.fail("order", "error falls only by %.2f (from %.3g to %.3g) when the resolution is doubled" % (tot[0] / tot[1], tot[0], tot[1]))
    g = golden.bounds(PID, case)
    if g is None:
        return ctx.fail("golden", "no recorded accuracy for this case")
    for i, (e, b) in enumerate(zip(errs, g)):
        if not e <= 1.03 * b + 2e-7:
            return ctx.fail("error", "error %d is %.4g, the method's is %.4g" % (i, e, b))
