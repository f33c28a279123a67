"""C10: smooth flows converge to the solution of the equations: every configuration against an independent spectral solution."""
import fcntl, os
import numpy as np
from vlib import golden, ics, ref, sim, space

BOUNDS = ("25 core solver configurations, 8 diffusive ones, relativity, self-gravity, gravity, cooling x dimensions 1-3 x 5 background flows (both directions, supersonic, strongly and weakly magnetised), two resolutions each; every "
          "variable's error against a spectral reference judged against the recorded accuracy of the method, and its decrease with resolution")
ASSUME = ["reference: pseudo-spectral in space, 4th-order in time, converged to 1e-6 or better", "accuracy bounds (golden/C10.json) are the errors of the method itself, with a margin of 3%",
          "states stay smooth and are short enough that no shocks form"]
CFG = dict(space.CORE, **space.DIFF)
CFG.update({
    "srh": "--enable-special-relativity --with-gas=hydro --with-integrator=vl --with-order=2p --with-flux=hllc",
    "srm": "--enable-special-relativity --with-integrator=vl --with-order=2p --with-flux=hlld",
    "sre": "--enable-special-relativity --with-integrator=vl --with-order=2p --with-flux=hlle",
    "sg": "--with-gravity=fft --enable-fft",
    "sgvl": "--with-gravity=fft --enable-fft --with-gas=hydro --with-integrator=vl --with-order=3p",
    "sgiso": "--with-gravity=fft --enable-fft --with-gas=hydro --with-eos=isothermal",
    "viscm": "--enable-viscosity --enable-conduction", "viscmi": "--enable-viscosity --enable-resistivity --with-eos=isothermal --with-integrator=vl --with-order=2p --with-flux=hlld",
    "mfofc": "--enable-fofc --with-integrator=vl --with-order=2p --with-flux=hlld", "mi-hlld-vl": "--with-eos=isothermal --with-integrator=vl --with-order=3p --with-flux=hlld",
})
GRAV = ("m-ctu-roe-2", "m-ctu-roe-3", "mi-ctu-hlld-2", "h-ctu-roe-2", "h-ctu-hllc-3", "hi-ctu-hlle-2", "m-vl-hlld-2p", "h-vl-hllc-2p", "hi-vl-roe-3p", "mi-vl-hlle-2p", "m-ctu-hlld-3p", "mi-ctu-roe-3", "hi-ctu-exact-3")
COOL = ("m-ctu-roe-2", "m-ctu-roe-3", "h-ctu-roe-2", "h-ctu-hllc-3", "m-ctu-hlld-3p", "h-ctu-force-3p", "m-ctu-hlle-2p")
VAR = {
    "a": dict(), "b": dict(v0=(-0.35, 0.4, -0.25), b0=(-0.4, 0.3, 0.5)), "c": dict(v0=(2.2, 1.8, -2.0), b0=(0.5, -0.4, 0.3)),
    "d": dict(v0=(-0.2, 0.1, 0.15), b0=(1.4, 1.1, -1.2)), "e": dict(v0=(0.3, 0.25, -0.2), b0=(0.06, -0.05, 0.07)),
}
SPROB = {
    "viscm": [dict(nu_iso=0.02, kappa_iso=0.02), dict(nu_aniso=0.03, kappa_aniso=0.03), dict(nu_iso=0.01, nu_aniso=0.02, kappa_iso=0.01, kappa_aniso=0.02)],
    "viscmi": [dict(nu_iso=0.02, eta_O=0.01), dict(nu_iso=0.01, nu_aniso=0.02, eta_O=0.01)],
    "visc": [dict(nu_iso=0.03, kappa_iso=1e-8), dict(nu_iso=1e-8, kappa_iso=0.03)],
    "visciso": [dict(nu_iso=0.03)],
    "resist": [dict(eta_O=0.02, kappa_iso=1e-8), dict(Q_A=0.02, kappa_iso=1e-8), dict(eta_O=0.005, Q_H=0.01, kappa_iso=1e-8), dict(eta_O=1e-8, kappa_iso=0.03), dict(eta_O=1e-8, kappa_aniso=0.04)],
    "resiso": [dict(eta_O=0.02), dict(Q_A=0.02), dict(eta_O=0.005, Q_H=0.01)],
    "ressts": [dict(eta_O=0.02, kappa_iso=1e-8), dict(Q_A=0.02, kappa_aniso=0.03)],
}
SZ = {1: ((32, 1, 1), (64, 1, 1)), 2: ((16, 20, 1), (32, 40, 1)), 3: ((8, 10, 8), (16, 20, 16))}
MR = {1: (48, 1, 1), 2: (36, 36, 1), 3: (24, 24, 24)}
TL = {1: 0.1, 2: 0.08, 3: 0.06}
PID = "C10"


def specs(tier):
    return {k: dict(args=a) for k, a in CFG.items()}


def cases(tier):
    for cfg in CFG:
        ph = ics.Phys(CFG[cfg])
        for nd in (1, 2, 3):
            if cfg in space.DIFF or cfg in SPROB:
                for q, P in enumerate(SPROB[cfg]):
                    if nd == 1 and ("kappa_aniso" in P and "kappa_iso" not in P or "nu_aniso" in P and "nu_iso" not in P):
                        continue
                    yield dict(cfg=cfg, nd=nd, var="a", P=q)
                continue
            for v in VAR:
                if v in "de" and not ph.mhd or v == "c" and ph.sr:
                    continue
                if tier == "quick" and nd == 3 and v in "be":
                    continue
                yield dict(cfg=cfg, nd=nd, var=v)
            if cfg in GRAV:
                yield dict(cfg=cfg, nd=nd, var="a", grav=1)
                yield dict(cfg=cfg, nd=nd, var="b", grav=2)
            if ph.selfg:
                yield dict(cfg=cfg, nd=nd, var="b", G=60.0)
            if cfg in COOL:
                yield dict(cfg=cfg, nd=nd, var="b", cool=1)


def params(case):
    P = {}
    cfg = case["cfg"]
    if "P" in case:
        P.update(SPROB[cfg][case["P"]])
    if case.get("grav"):
        P.update(gpot=6, **(dict(g1=0.2, g2=-0.15, g3=0.1) if case["grav"] == 1 else dict(g1=1.5, g2=-1.2, g3=0.9)))
    if case.get("cool"):
        P.update(cool=0.5)
    if ics.Phys(CFG[cfg]).selfg:
        P.update(four_pi_G=case.get("G", 4.0))
    return P


def reference(case, ctx, ph, P, box):
    """-> (start, end) on the reference grid, computed once per physics and shared between workers"""
    nd = case["nd"]
    R = ref.Ref(ph, MR[nd], box, P if nd > 1 else {k: v for k, v in P.items() if k not in ("kappa_aniso", "nu_aniso")})
    name = "ref-%s" % golden.key([ph.mhd, ph.adi, ph.ns, ph.sr, ph.selfg, nd, case["var"], P])
    f = ctx.tree.dir + "/" + name
    with open(f + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(f + ".npy"):
            q0 = ref.smooth(R, **VAR[case["var"]])
            q1 = R.evolve(q0, TL[nd], 60 if nd < 3 else 30)
            np.save(f + ".t.npy", np.array([q0, q1]))
            os.rename(f + ".t.npy", f + ".npy")
    q0, q1 = np.load(f + ".npy")
    return R, q0, q1


def run(case, ctx):
    ph = ics.Phys(CFG[case["cfg"]])
    nd = case["nd"]
    P = params(case)
    box = [(0.0, 1.0), (0.0, 0.8), (0.0, 1.25)] if not case.get("grav") else [(0.0, 1.0)] * 3
    R, q0, q1 = reference(case, ctx, ph, P, box)
    prob = dict(P)
    if ph.selfg:
        prob["mean_rho"] = float(q0[0].mean())
    errs, tot = [], []
    with ctx.case() as c:
        for n in SZ[nd]:
            U, B = R.cells(q0, n)
            if ph.mhd:
                for a, b in enumerate(ics.bcc(n, B)):
                    U[ph.iB + a] = b
            sim.write_ic(c.path("ic"), [(U, B)])
            inp = sim.athinput(nx=n, box=box, nlim=100000, tlim=TL[nd], cour=0.4 if "P" not in case else 0.3, problem=prob)
            rc, out = sim.run_serial(ctx.exes[case["cfg"]], c.dir, inp, mode=2, dump="d%d" % n[0], timeout=200)
            ctx.trace()
            if rc:
                return ctx.fail("run", "run failed (%d): %s" % (rc, out[-300:]))
            s = sim.read_dump(c.path("d%d" % n[0]))[-1]
            ctx.snap(s)
            ctx.step(s.nstep)
            L = s.level()
            W, F = R.cells(q1, n)
            if abs(s.time - TL[nd]) > 1e-12:
                return ctx.fail("time", "run ended at %.15g" % s.time)
            e = [np.abs(L["U"][v] - W[v]).mean() for v in range(ph.nv)]
            if ph.mhd:
                e += [np.abs(L["B"][a] - F[a]).mean() for a in range(3)]
            errs += e
            tot.append(sum(e[:ph.nv]))
    if not np.isfinite(errs).all():
        return ctx.fail("nonfinite", "non-finite state")
    if golden.calibrating():
        golden.record(PID, case, errs)
        ctx.count("ratio %.1f" % (tot[0] / tot[1]))
        if os.environ.get("VP_SHOW"):
            print(case, "%.2f %.3g %.3g" % (tot[0] / tot[1], tot[0], tot[1]))
        return
    rmin = 1.6 if "-1" in case["cfg"][-2:] else 1.9
    if not tot[0] / tot[1] > rmin:
        return ctx.fail("order", "error falls only by %.2f (from %.3g to %.3g) when the resolution is doubled" % (tot[0] / tot[1], tot[0], tot[1]))
    g = golden.bounds(PID, case)
    if g is None:
        return ctx.fail("golden", "no recorded accuracy for this case")
    for i, (e, b) in enumerate(zip(errs, g)):
        if not e <= 1.03 * b + 2e-7:
            h = len(errs) // 2
            v = i % h
            return ctx.fail("accuracy", "%s: error %.4g, the method's is %.4g (resolution %s)"
                            % ("variable %d" % v if v < ph.nv else "face field %d" % (v - ph.nv + 1), e, b, SZ[nd][i // h]))
