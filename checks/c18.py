"""C18: cylindrical coordinates, rotating frames and orbital advection against the same flow solved in Cartesian coordinates."""
import fcntl, os
import numpy as np
from vlib import cyl, golden, ics, ref, sim

PID = "C18"
C = "--with-coord=cylindrical "
H = "--with-gas=hydro "
I = "--with-eos=isothermal "
CFG = {
    "h": C + H + "--with-nscalars=1", "h3": C + H + "--with-flux=hllc --with-order=3 --with-nscalars=2", "hi": C + H + I + "--with-order=3p --with-flux=hlle", "hi3": C + H + I + "--with-order=3",
    "m": C + "--with-flux=hlld", "m3": C + "--with-order=3 --with-flux=roe --with-nscalars=1", "mi": C + I + "--with-flux=hlld --with-order=2p", "mi3": C + I + "--with-order=3",
    "hv": C + H + "--with-integrator=vl --with-order=2p --with-flux=hllc --with-nscalars=1", "hiv": C + H + I + "--with-integrator=vl --with-order=3p",
    "mv": C + "--with-integrator=vl --with-order=2p --with-flux=hlld --with-nscalars=1", "miv": C + I + "--with-integrator=vl --with-order=3p --with-flux=hlle",
    "rh": C + H + "--enable-rotating_frame", "rhi": C + H + I + "--enable-rotating_frame --with-order=3", "rm": C + "--enable-rotating_frame --with-flux=hlld", "rmi": C + I + "--enable-rotating_frame --with-flux=hlld",
    "fh": C + H + "--enable-fargo --with-nscalars=1", "fhi": C + H + I + "--enable-fargo --with-order=3", "fm": C + "--enable-fargo --with-flux=hlld", "fmi": C + I + "--enable-fargo --with-flux=hlld --with-order=3",
    "fhv": C + H + "--enable-fargo --with-integrator=vl --with-order=2p --with-flux=hllc", "fhiv": C + H + I + "--enable-fargo --with-integrator=vl --with-order=3p",
    "fmv": C + "--enable-fargo --with-integrator=vl --with-order=2p --with-flux=hlld", "fmiv": C + I + "--enable-fargo --with-integrator=vl --with-order=2p --with-flux=hlld",
    "res": C + "--enable-resistivity --with-flux=hlld", "resi": C + I + "--enable-resistivity --with-flux=hlld --with-integrator=vl --with-order=2p",
}
SZ = {1: ((32, 1, 1), (64, 1, 1)), 2: ((16, 64, 1), (32, 128, 1)), 3: ((8, 40, 5), (16, 80, 10))}
TL = {1: 0.08, 2: 0.06, 3: 0.035}
BOX = [(1.0, 2.0), (0.0, 2 * np.pi), (0.0, 1.25)]
L = 2.4
BR = {1: [(-3.2, 3.2), (-3.2, 3.2), (0.0, 1.0)], 2: [(0.0, L), (0.0, L), (0.0, 1.25)], 3: [(0.0, L), (0.0, L), (0.0, 1.25)]}
MR = {1: (128, 128, 1), 2: (36, 36, 1), 3: (24, 24, 12)}
VAR = {"a": dict(), "b": dict(v0=(-0.3, 0.45, -0.25), b0=(-0.4, 0.6, 0.5))}
OM = {"r": 1.7, "f": (1.3, 1.5), "g": (0.9, 2.0)}


def specs(tier):
    return {k: dict(args=a) for k, a in CFG.items()}


def cases(tier):
    for cfg in CFG:
        for nd in (1, 2, 3):
            if nd == 1 and cfg[0] in "rf" and cfg[:3] != "res":
                continue
            for v in VAR:
                if nd == 1 and v == "b" or tier == "quick" and nd == 3 and v != "ab"[len(cfg) % 2]:
                    continue
                yield dict(cfg=cfg, nd=nd, var=v)


    for cfg in CFG:
        fg = "fargo" in CFG[cfg]
        for nd in (1, 2, 3):
            if nd == 1 and (fg or "rotating" in CFG[cfg]):
                continue
            for t in range(2 if tier == "quick" else 6):
                yield dict(cfg=cfg, nd=nd, kind="force", pat=t)
            if "rotating" not in CFG[cfg] and cfg != "resi":
                for t in range(2 if tier == "quick" else 8):
                    yield dict(cfg=cfg, nd=nd, kind="cons", pat=t)


def force(case, ctx):
    """uniform components of every variable: the rate of change over one tiny step is the sum of the geometric, gravitational,
    Coriolis, centrifugal and orbital source terms, and nothing else"""
    ph = ics.Phys(CFG[case["cfg"]])
    nd = case["nd"]
    rng = np.random.default_rng([18, nd, case["pat"]])
    n = {1: (9, 1, 1), 2: (9, 8, 1), 3: (8, 9, 6)}[nd]
    d, p = rng.uniform(0.6, 1.5, 2)
    v = rng.uniform(0.3, 1.0, 3) * rng.choice([-1, 1], 3) * 0.7
    b = np.array([0.0, rng.uniform(0.3, 0.6), -rng.uniform(0.3, 0.6)]) if ph.mhd else np.zeros(3)
    g = rng.uniform(0.5, 1.5, 3) * rng.choice([-1, 1], 3)
    sc = rng.uniform(0.2, 0.9, ph.ns)
    dR, dp, ri, pi = cyl.mesh(n, BOX)
    rc = 0.5 * (ri[1:] + ri[:-1])
    one = np.ones(n[::-1])
    U = ics.cons(ph, d * one, [v[a] * one for a in range(3)], p * one, [b[a] * one for a in range(3)] if ph.mhd else None,
                 [s * one for s in sc])
    B = None
    if ph.mhd:
        B = [np.zeros((n[2], n[1], n[0] + 1)), np.full((n[2], n[1] + (nd > 1), n[0]), b[1]), np.full((n[2] + (nd > 2), n[1], n[0]), b[2])]
    dt = 1e-6
    prob = dict(gpot=1, g1=g[0], g2=g[1], g3=g[2])
    rot = "rotating" in ph.args
    Om = q = 0.0
    if rot:
        prob["omega"] = OM["r"]
    if ph.fargo:
        prob.update(fgOm=OM["f"][0], fgq=OM["f"][1])
        Om, q = OM["f"][0] * rc ** -OM["f"][1], OM["f"][1]
    if case["cfg"][:3] == "res":
        prob["eta_O"] = 1e-9
    gr = np.array([g[0] * np.ones(n[0]), (g[1] if nd > 1 else 0.0) / rc, (g[2] if nd > 2 else 0.0) * np.ones(n[0])])
    if ph.fargo:
        gr[0] += rc * Om ** 2
    r0 = -d * v[0] / rc
    rate = [r0, r0 * v[0] + d * v[1] ** 2 / rc - b[1] ** 2 / rc + d * gr[0], 2 * r0 * v[1] + d * gr[1], r0 * v[2] + d * gr[2]]
    if ph.fargo:
        rate[1] = rate[1] + 2 * Om * d * v[1]
        rate[2] = rate[2] + (q - 2) * Om * d * v[0]
    if rot:
        rate[1] = rate[1] + 2 * OM["r"] * d * v[1]
        rate[2] = rate[2] - 2 * OM["r"] * d * v[0]
    pm = p if ph.adi else 1.0 * d
    if ph.adi:
        E = U[4].flat[0]
        rate.append(-(E + p + 0.5 * (b ** 2).sum()) * v[0] / rc + d * sum(v[a] * gr[a] for a in range(3)) + (q * Om * d * v[0] * v[1] if ph.fargo else 0))
    if ph.mhd:
        rate += [0 * rc, 0 * rc, -v[0] * b[2] / rc]
    rate += [r0 * s for s in sc]
    with ctx.case() as c:
        sim.write_ic(c.path("ic"), [(U, B)])
        inp = sim.athinput(nx=n, box=BOX, bc=(2, 2, 4, 4, 4, 4), nlim=1, tlim=dt, cour=0.4, problem=prob)
        rc_, out = sim.run_serial(ctx.exes[case["cfg"]], c.dir, inp, mode=2, dump="d", timeout=100)
        ctx.trace()
        if rc_:
            return ctx.fail("run", "run failed (%d): %s" % (rc_, out[-300:]))
        s = sim.read_dump(c.path("d"))[-1]
        ctx.snap(s)
        ctx.step(s.nstep)
        X = s.level()["U"]
        for a in range(ph.nv):
            got = (X[a] - U[a]) / dt
            want = np.broadcast_to(rate[a], got.shape)
            e = np.abs(got - want).max()
            if os.environ.get("VP_SHOW"):
                print(case, a, "%.3g" % e, got[0, 0, 3], want[0, 0, 3])
            if not e < 3e-4:
                i = np.unravel_index(np.abs(got - want).argmax(), got.shape)
                return ctx.fail("force", "variable %d changes at the rate %.8g in zone %s (R=%.3g), not %.8g" % (a, got[i], i[::-1], rc[i[2]], want[i]))


def cons(case, ctx):
    """a disturbance surrounded by gas at rest: mass, angular momentum, vertical momentum, energy and tracers in the whole domain stay"""
    ph = ics.Phys(CFG[case["cfg"]])
    nd = case["nd"]
    n = {1: (36, 1, 1), 2: (34, 9, 1), 3: (32, 6, 7)}[nd]
    box = [(1.0, 3.0), (0.0, 1.6), (0.0, 1.1)]
    rng = np.random.default_rng([81, nd, case["pat"]])
    W = np.zeros(n[0])
    W[11:-11] = 1.0
    sh = n[::-1]
    k = 0.25 + 0.2 * case["pat"]
    d = 1 + k * W * rng.uniform(-1, 1, sh)
    p = 1 + k * W * rng.uniform(-1, 1, sh)
    v = [k * W * rng.uniform(-1, 1, sh) for a in range(3)]
    sc = [0.5 + 0.4 * W * rng.uniform(-1, 1, sh) for a in range(ph.ns)]
    B = b = None
    if ph.mhd:
        B, b = local(n, box, rng, k, W)
    U = ics.cons(ph, d, v, p, b, sc)
    prob = dict(eta_O=0.01) if case["cfg"] == "res" else {}
    Om = 0.0
    if ph.fargo:
        Om = 0.8
        prob.update(fgOm=Om, fgq=0.0, gpot=2, g1=Om ** 2)
    dR, dp, ri, pi = cyl.mesh(n, box)
    rc = 0.5 * (ri[1:] + ri[:-1])
    with ctx.case() as c:
        sim.write_ic(c.path("ic"), [(U, B)])
        inp = sim.athinput(nx=n, box=box, bc=(2, 2, 4, 4, 4, 4), nlim=2, tlim=100.0, cour=0.4, problem=prob)
        code, out = sim.run_serial(ctx.exes[case["cfg"]], c.dir, inp, mode=1, dump="d", timeout=100)
        ctx.trace()
        if code:
            return ctx.fail("run", "run failed (%d): %s" % (code, out[-300:]))
        S = sim.read_dump(c.path("d"))
        if len(S) < 2:
            return ctx.fail("steps", "only %d states written" % len(S))
        names = ["mass", "", "angular momentum", "vertical momentum"] + (["energy"] if ph.adi else []) + ([""] * 3 if ph.mhd else []) + ["tracer"] * ph.ns

        def totals(X):
            out = []
            for a in range(ph.nv):
                f = X[a] * rc
                if a == 2:
                    f = f * rc
                out.append((f.sum(), np.abs(f).sum()))
            return out
        t0 = totals(U)
        for s in S:
            ctx.snap(s)
            t = totals(s.level()["U"])
            for a in range(ph.nv):
                if not names[a] or (ph.fargo and a in (2, 4)):
                    continue
                scale = max(t0[a][1], t0[0][1] * 0.1)
                # with orbital advection the CTU face states see gravity and rotation balance only to truncation error at the walls
                if not abs(t[a][0] - t0[a][0]) < (1e-8 if ph.fargo and "=vl" not in ph.args else 1e-11) * scale:
                    return ctx.fail("cons", "%s changes from %.15g to %.15g (step %d)" % (names[a], t0[a][0], t[a][0], s.nstep))
            if ph.mhd and nd > 1:
                F = s.level()["B"]
                dv = np.abs(ics.divb(n, box, F, True)).max() * dR
                if not dv < 1e-11:
                    return ctx.fail("divb", "div B = %.3g at step %d" % (dv, s.nstep))
        ctx.step(S[-1].nstep)


def local(n, box, rng, k, W):
    """a divergence-free field that vanishes outside the window"""
    n1, n2, n3 = n
    dx = [(box[a][1] - box[a][0]) / n[a] for a in range(3)]
    ri = box[0][0] + dx[0] * np.arange(n1 + 1)
    rc = 0.5 * (ri[1:] + ri[:-1])
    Wf = np.zeros(n1 + 1)
    Wf[12:-12] = 1.0
    h = min(dx[a] for a in range(3) if n[a] > 1)
    A1 = rng.uniform(-1, 1, (n3, n2, n1)) * W * k * h
    A2 = rng.uniform(-1, 1, (n3, n2, n1 + 1)) * Wf * k * h
    A3 = rng.uniform(-1, 1, (n3, n2, n1 + 1)) * Wf * k * h
    y = lambda f: np.roll(f, -1, 1) - f if n2 > 1 else 0 * f
    z = lambda f: np.roll(f, -1, 0) - f if n3 > 1 else 0 * f
    B1 = y(A3) / (ri * dx[1]) - z(A2) / dx[2]
    B2 = z(A1) / dx[2] - np.diff(A3, axis=2) / dx[0]
    B3 = np.diff(A2 * ri, axis=2) / (rc * dx[0]) - y(A1) / (rc * dx[1])
    b1 = 0.5 * (B1[..., 1:] * ri[1:] + B1[..., :-1] * ri[:-1]) / rc
    b2 = 0.5 * (B2 + np.roll(B2, -1, 1)) if n2 > 1 else B2
    b3 = 0.5 * (B3 + np.roll(B3, -1, 0)) if n3 > 1 else B3
    F2 = np.concatenate([B2, B2[:, :1]], 1) if n2 > 1 else B2
    F3 = np.concatenate([B3, B3[:1]], 0) if n3 > 1 else B3
    return [B1, F2, F3], [b1, b2, b3]


def reference(case, ctx, ph, P):
    """start and end averages on both meshes, computed once per physics"""
    nd, cfg = case["nd"], case["cfg"]
    kind = "r" if "rotating" in ph.args else "f" if ph.fargo else ""
    f = ctx.tree.dir + "/ref-%s" % golden.key([ph.mhd, ph.adi, ph.ns, nd, case["var"], kind, P])
    with open(f + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(f + ".npz"):
            R = ref.Ref(ph, MR[nd], BR[nd], P)
            q0 = cyl.radial(R) if nd == 1 else ref.smooth(R, **VAR[case["var"]])
            q1 = R.evolve(q0, TL[nd], 30 if not P else 60)
            kw = {}
            rot = 0.0
            if kind == "r":
                kw["frame"] = OM["r"]
                rot = OM["r"] * TL[nd]
            if kind == "f":
                o, e = OM["f"]
                kw["vorb"] = lambda r: o * r ** (1 - e)
            out = {}
            for m, n in enumerate(SZ[nd]):
                for t, q in enumerate((q0, q1)):
                    U, B = cyl.averages(R, q, n, BOX, rot=rot * t, **kw)
                    out["U%d%d" % (m, t)] = U
                    for a in range(3 if ph.mhd else 0):
                        out["B%d%d%d" % (a, m, t)] = B[a]
            np.savez(f + ".t.npz", **out)
            os.rename(f + ".t.npz", f + ".npz")
    D = np.load(f + ".npz")
    return lambda m, t: (D["U%d%d" % (m, t)], [D["B%d%d%d" % (a, m, t)] for a in range(3)] if ph.mhd else None)


def run(case, ctx):
    if "kind" in case:
        return globals()[case["kind"]](case, ctx)
    ph = ics.Phys(CFG[case["cfg"]])
    nd = case["nd"]
    P = dict(eta_O=0.02) if case["cfg"][:3] == "res" else {}
    D = reference(case, ctx, ph, P)
    prob = dict(P)
    if "rotating" in ph.args:
        prob.update(omega=OM["r"], gpot=2, g1=-OM["r"] ** 2)              # the centrifugal force
    if ph.fargo:
        prob.update(fgOm=OM["f"][0], fgq=OM["f"][1], gpot=1)
    errs, tot = [], []
    with ctx.case() as c:
        for m, n in enumerate(SZ[nd]):
            U, B = D(m, 0)
            sim.write_ic(c.path("ic"), [(U, B)])
            inp = sim.athinput(nx=n, box=BOX, bc=(2, 2, 4, 4, 4, 4), nlim=100000, tlim=TL[nd], cour=0.4 if not P else 0.3, problem=prob)
            rc, out = sim.run_serial(ctx.exes[case["cfg"]], c.dir, inp, mode=2, dump="d%d" % m, timeout=200)
            ctx.trace()
            if rc:
                return ctx.fail("run", "run failed (%d): %s" % (rc, out[-300:]))
            s = sim.read_dump(c.path("d%d" % m))[-1]
            ctx.snap(s)
            ctx.step(s.nstep)
            X = s.level()
            W, Fb = D(m, 1)
            dR, dp, ri, pi = cyl.mesh(n, BOX)
            k = np.abs(0.5 * (ri[1:] + ri[:-1]) - 1.5) < 0.2
            e = [np.abs(X["U"][v] - W[v])[..., k].mean() for v in range(ph.nv)]
            if ph.mhd:
                for a in range(3):
                    g = np.abs(X["B"][a] - Fb[a])
                    e.append(g[..., k].mean() if a else g[..., 1:][..., k].mean())
            errs += e
            tot.append(sum(e[:ph.nv]))
    if not np.isfinite(errs).all():
        return ctx.fail("nonfinite", "non-finite state")
    if golden.calibrating():
        golden.record(PID, case, errs)
        if os.environ.get("VP_SHOW"):
            print(case, "%.2f %.3g %.3g" % (tot[0] / tot[1], tot[0], tot[1]), " ".join("%.2g/%.2g" % x for x in zip(errs[:len(errs) // 2], errs[len(errs) // 2:])))
        return
    if not tot[0] / tot[1] > 1.9:
        return ctx.fail("order", "error falls only by %.2f (from %.3g to %.3g) when the resolution is doubled" % (tot[0] / tot[1], tot[0], tot[1]))
    g = golden.bounds(PID, case)
    if g is None:
        return ctx.fail("golden", "no recorded accuracy for this case")
    for i, (e, b) in enumerate(zip(errs, g)):
        if not e <= 1.03 * b + 1e-6:
            return ctx.fail("error", "error %d is %.4g, the method's is %.4g" % (i, e, b))
BOUNDS = ("26 cylindrical configurations (hydro/MHD, adiabatic/isothermal, both integrators, 2nd and 3rd order, rotating frame, orbital "
          "advection, resistivity) x dimensions 1-3: flows off the axis solved in Cartesian coordinates and mapped onto two resolutions (convergence "
          "and accuracy of every variable); every source term at every radius over one tiny step; totals of localised disturbances over two steps")
ASSUME = ["the Cartesian reference is a spectral solution converged to below the errors judged",
          "accuracy bounds were recorded from the unchanged tree; a change that makes the method more accurate is not reported"]
