"""C01: the result of a run does not depend on how the mesh is divided among processes, nor on message timing.

Every decomposition and every message-timing policy in the space is executed on the real code under the controlled
MPI scheduler; the oracle is the serial build of the same tree."""
import itertools
from vlib import ics, sim, cmp

TOL = 1e-10
BOUNDS = ("1-3 dimensions; 8..13 zones per decomposed direction; every factorisation of 2..8 ranks into those "
          "directions with >=4 zones per grid; 5 boundary sets; buffered/unbuffered x eager/late sends x rank order; "
          "every wait-any completion order with <=1 deviation from the default (all orders for 2 ranks, 1 step)")
ASSUME = ["ranks interact only through the MPI calls modelled in csrc/mmpi (no wildcards are used by the code)",
          "agreement to 1e-10 relative (reductions may be reassociated)"]
CFG = {
    "mhd": "--with-nscalars=2",
    "hydro": "--with-gas=hydro --with-nscalars=1",
    "mhdvl": "--with-integrator=vl --with-order=3p --with-eos=isothermal --with-flux=hlld",
    "hydiso": "--with-gas=hydro --with-eos=isothermal --with-integrator=vl --with-order=2p --with-flux=hlle",
    "resist": "--enable-resistivity --enable-conduction",
    "visc": "--with-gas=hydro --enable-viscosity --enable-conduction",
    "sts": "--enable-resistivity --enable-sts --with-integrator=vl --with-order=2p",
    "cyl": "--with-coord=cylindrical --with-flux=hlld",
    "cylvl": "--with-coord=cylindrical --with-flux=hllc --with-gas=hydro --with-integrator=vl --with-order=2p --with-nscalars=1",
    "sr": "--enable-special-relativity --with-integrator=vl --with-order=2p --with-flux=hlld",
    "hcor": "--enable-h-correction --with-flux=roe",
    "fofc": "--with-integrator=vl --enable-fofc --with-order=3p --with-flux=hllc --with-gas=hydro",
}
PROB = {"resist": dict(eta_O=0.01, Q_H=0.01, Q_A=0.01, kappa_iso=0.01, kappa_aniso=0.01),
        "visc": dict(nu_iso=0.01, kappa_iso=0.01), "sts": dict(eta_O=0.05),
        "mhd": dict(gpot=2, g1=0.5, g2=-0.3, g3=0.4), "hydro": dict(gpot=1, g1=0.3, g2=0.2, g3=-0.4)}
BCS = {"per": (4,) * 6, "out": (2,) * 6, "ref": (1,) * 6, "mix": (1, 2, 4, 4, 2, 1), "con": (5, 1, 2, 5, 5, 2)}
# (n, decompositions)
DECO = {
    "1d": ((13, 1, 1), [(2, 1, 1), (3, 1, 1)]),
    "2d": ((12, 9, 1), [(3, 1, 1), (1, 2, 1), (2, 2, 1), (3, 2, 1)]),
    "3d": ((9, 8, 8), [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 2)]),
    "3dw": ((4, 12, 12), [(1, 3, 1), (1, 1, 3), (1, 2, 2)]),
    "auto2": ((24, 24, 1), []),
    "auto3": ((12, 12, 12), []),
}
POL = [dict(), dict(sync=1), dict(late=1, cpol=1), dict(sync=1, late=1, cpol=2, order=1)]


def specs(tier):
    s = {}
    for k, a in CFG.items():
        s[k] = dict(args=a)
        s[k + "+mpi"] = dict(args=a, mpi=True)
    return s


def cases(tier):
    for cfg in CFG:
        for g in ("1d", "2d", "3d", "3dw"):
            for b in BCS:
                if b == "con" and not ics.Phys(CFG[cfg]).mhd:
                    continue
                if g.startswith("3d") and cfg not in ("mhd", "hydro", "mhdvl") and b in ("ref", "con") and tier == "quick":
                    continue
                nd = 1 if tier == "quick" else 4
                yield dict(cfg=cfg, cfgs=[cfg + "+mpi"], geo=g, bc=b, pat=1, kind="deco", np=nd)
    # schedules
    for cfg in ("mhd", "hydro", "resist", "cyl"):
        for g in (("2d", "3d", "3dw") if tier == "thorough" or cfg == "mhd" else ("2d",)):
            yield dict(cfg=cfg, cfgs=[cfg + "+mpi"], geo=g, bc="per", pat=2, kind="sched")
    for cfg in ("mhd", "hydro", "mhdvl"):
        yield dict(cfg=cfg, cfgs=[cfg + "+mpi"], geo="1d", bc="per", pat=3, kind="full")
    for n in (2, 3, 4, 6, 8):
        yield dict(cfg="mhd", cfgs=["mhd+mpi"], geo="auto3", bc="mix", pat=1, kind="auto", n=n)
        yield dict(cfg="mhd", cfgs=["mhd+mpi"], geo="auto2", bc="mix", pat=1, kind="auto", n=n)


def compare(ctx, ref, r, snaps, nr, what, guard=None):
    if r.status != "ok" or r.rc != 0:
        ctx.fail("run", "%s: parallel run ended with %s: %s %s" % (what, r.status, r.detail, r.out[-200:]))
        return
    if "unreceived" in r.detail:
        ctx.fail("leftover", "%s: messages left at the end: %s" % (what, r.detail))
    if len(snaps) != len(ref):
        ctx.fail("steps", "%s: %d states recorded, serial %d" % (what, len(snaps), len(ref)))
        return
    for a, b in zip(snaps, ref):
        ctx.snap(a)
        ctx.step()
        if a.ranks != nr:
            ctx.fail("ranks", "%s: only %d ranks recorded a state" % (what, a.ranks))
            return
        if len(set(a.dts)) > 1 or len(set(a.times)) > 1 or len(set(a.steps)) > 1:
            ctx.fail("clock", "%s: ranks disagree on time/timestep: %s %s" % (what, a.times, a.dts))
            return
        d = cmp.snapdiff(a, b) + [("timestep", cmp.maxdiff([a.dt / b.dt], [1.0])), ("time", cmp.maxdiff([a.time], [b.time]))]
        w = cmp.worst(d)
        if not w[1] <= TOL:
            if guard is not None and guard(w[1], a.nstep):
                ctx.count("ill-conditioned")
                return
            ctx.fail("differs", "%s: step %d: %s differs from the serial run by %.3g" % (what, a.nstep, w[0], w[1]))
            return


def setup(case):
    a = CFG[case["cfg"]]
    ph = ics.Phys(a)
    n, decos = DECO[case["geo"]]
    box = ((0.0, 1.0), (-0.5, 0.5), (0.2, 1.2))
    if ph.cyl:
        box = ((1.0, 2.0), (0.0, 1.0), (0.2, 1.2))
    bc = list(BCS[case["bc"]])
    if ph.cyl:
        if bc[0] == 4:
            bc[0] = bc[1] = 2
    return ph, n, decos, box, tuple(bc)


def run(case, ctx):
    ph, n, decos, box, bc = setup(case)
    U, B = ics.lattice(ph, n, box, pat=case["pat"], bc=bc, cyl=ph.cyl, gamma=5. / 3., amp=0.5,
                       bmean=(0.4, 0.3, -0.2))
    exe, mexe = ctx.exes[case["cfg"]], ctx.exes[case["cfg"] + "+mpi"]
    nlim = 1 if case["kind"] == "full" else 2
    kw = dict(nx=n, box=box, bc=bc, nlim=nlim, cour=0.3, problem=PROB.get(case["cfg"]))
    if "--enable-resist" in CFG[case["cfg"]]:
        kw["cour"] = 0.1
    with ctx.case() as c:
        sim.write_ic(c.path("ic"), [(U, B)])
        rc, out = sim.run_serial(exe, c.dir, sim.athinput(**kw), mode=3, dump="ser")
        if rc != 0:
            ctx.fail("serial", "serial run failed: %d %s" % (rc, out[-300:]))
            return
        ref = sim.read_dump(c.path("ser"))
        k = [0]
        guard = sim.conditioning(c, exe, sim.athinput(**kw), (U, B), ref)

        def go(ng, what, nr=None, **pol):
            k[0] += 1
            nr = nr or ng[0] * ng[1] * ng[2]
            kk = dict(kw)
            if ng:
                kk["ngrid"] = ng
            else:
                kk["autoproc"] = nr
            r = sim.run_mpi(ctx.sched, mexe, nr, c.dir, sim.athinput(**kk), mode=3, dump="m%d" % k[0], **pol)
            S = sim.read_dump(c.path("m%d" % k[0]), nr)
            ctx.trace()
            ctx.step(r.ops)
            compare(ctx, ref, r, S, nr, what, guard)
            return r
        kind = case["kind"]
        if kind == "deco":
            for q, ng in enumerate(decos):
                pols = POL if case["np"] > 1 else [POL[(q + len(case["bc"] + case["cfg"])) % len(POL)]]
                for p in pols:
                    go(ng, "grids %s policy %s" % (ng, p), **p)
                if ctx.viol:
                    return
        elif kind == "auto":
            go(None, "automatic decomposition over %d" % case["n"], nr=case["n"])
        elif kind == "sched":
            ng = {"2d": (3, 2, 1), "3d": (2, 2, 2), "3dw": (1, 3, 1)}[case["geo"]]
            for p in POL:
                r = go(ng, "policy %s" % p, **p)
            r = go(ng, "default")
            ch = [(i, a) for i, (rk, na, x) in enumerate(r.dec) for a in range(na) if a != x]
            if ctx.tier == "quick":
                # deviations over the first full set of exchanges (one per rank, dimension and choice)
                ch = ch[:40]
            for i, a in ch:
                go(ng, "deviation at decision %d -> %d" % (i, a), choices="%d:%d" % (i, a))
                if ctx.viol:
                    return
        elif kind == "full":
            for ng in ((2, 1, 1), (3, 1, 1)):
                for sync in (0, 1):
                    for late in (0, 1):
                        # depth-first over all completion orders
                        stack = [[]]
                        while stack:
                            pre = stack.pop()
                            r = go(ng, "order %s sync=%d late=%d" % (pre, sync, late), sync=sync, late=late,
                                   choices=",".join("%d:%d" % (i, x) for i, x in enumerate(pre)))
                            ctx.count("schedules")
                            if ctx.viol:
                                return
                            # siblings: decisions beyond the prefix, flip each in turn
                            for i in range(len(pre), min(len(r.dec), 6 if ctx.tier == "quick" else 12)):
                                base = [x for (_, _, x) in r.dec[:i]]
                                for a in range(r.dec[i][1]):
                                    if a != r.dec[i][2]:
                                        stack.append(base + [a])
