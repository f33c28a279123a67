"""C02: parallel execution of the extended physics (shearing box, orbital advection, self-gravity, particles, static
refinement, cooling, user boundaries, diffusion, cylindrical geometry) gives the serial answer, for every decomposition
and message-timing policy in the space."""
from vlib import cmp, scenes, sim

TOL = 1e-9
BOUNDS = ("all set-ups of vlib/scenes.py that can run in parallel x every listed decomposition x 2-4 message-timing policies x 2 initial "
          "patterns x 3-4 steps; wait-any deviations (bound 1) for 6 set-ups")
ASSUME = ["ranks interact only through the MPI calls modelled in csrc/mmpi", "agreement to 1e-9 relative",
          "grids no narrower than the ghost zones the module needs (one more than the ghost zones for the shearing box)"]
POL = [dict(), dict(sync=1), dict(late=1, cpol=1), dict(sync=1, late=1, cpol=2, order=1)]
# refinement: (root grids, child grids...)
SMR = {
    "smr1": [((2, 1, 1), (1, 1, 1)), ((1, 1, 1), (1, 1, 1)), ((2, 1, 1), (2, 1, 1)), ((1, 1, 1), (2, 1, 1))],
    "smr2": [((2, 2, 1), (2, 2, 1)), ((2, 1, 1), (2, 2, 1)), ((2, 1, 1), (1, 1, 1)), ((1, 2, 1), (2, 1, 1)), ((2, 2, 1), (2, 1, 1)), ((1, 1, 1), (1, 1, 1)), ((2, 1, 1), (2, 1, 1)), ((1, 1, 1), (2, 1, 1))],
    "smrh3": [((2, 1, 1), (1, 1, 1)), ((1, 2, 2), (1, 1, 1)), ((2, 2, 2), (2, 1, 1)), ((1, 1, 2), (1, 2, 2))],
    "smr2n": [((1, 3, 1), (2, 2, 1), (1, 1, 1)), ((3, 3, 1), (2, 2, 1), (1, 1, 1)), ((3, 1, 1), (2, 2, 1), (1, 1, 1)), ((2, 1, 1), (2, 2, 1), (1, 2, 1)), ((1, 1, 1), (2, 2, 1), (1, 1, 1)), ((1, 2, 1), (1, 1, 1), (2, 2, 1))],
    "smr3t": [((3, 1, 1), (1, 2, 2)), ((1, 3, 1), (2, 1, 2)), ((1, 1, 3), (2, 2, 1)), ((3, 1, 1), (1, 1, 1))],
    "smr3o": [((2, 1, 1), (2, 1, 1)), ((1, 2, 1), (1, 2, 1)), ((1, 1, 2), (1, 1, 2)), ((2, 1, 1), (2, 2, 2)), ((1, 1, 2), (2, 1, 2))],
    "smr3": [((2, 1, 1), (1, 1, 1), (1, 1, 1)), ((1, 1, 1), (1, 1, 1), (1, 1, 1)), ((2, 2, 1), (1, 2, 1), (2, 1, 1)), ((2, 1, 1), (2, 1, 1), (2, 1, 1)), ((1, 2, 1), (1, 1, 1), (1, 1, 1))],
}
SCHED = {"sh2": (2, 3, 1), "fg3": (1, 2, 1), "pt2": (2, 2, 1), "sgfft2": (2, 1, 1), "smr2": ((2, 1, 1), (2, 1, 1)), "ptsh3": (2, 1, 1)}
NAMES = [k for k, v in scenes.SCENES.items() if (v["decos"] or k in SMR)]


def specs(tier):
    s = {}
    for k in NAMES:
        s[k] = dict(args=scenes.SCENES[k]["args"])
        s[k + "+mpi"] = dict(args=scenes.SCENES[k]["args"], mpi=True)
    return s


def cases(tier):
    for k in NAMES:
        for q, ng in enumerate(SMR.get(k) or scenes.SCENES[k]["decos"]):
            for pat in (1, 2) if tier == "quick" else range(1, 7):
                case = dict(cfg=k, cfgs=[k + "+mpi"], ng=ng, pat=pat, pol=(q + pat) % 4 if tier == "quick" else -1)
                if k in SMR:
                    # every number of ranks: from each grid on a rank of its own to ranks that hold grids of several levels
                    cnt = [g[0] * g[1] * g[2] for g in ng]
                    for nr in range(max(cnt), sum(cnt) + 1):
                        if sum(cnt) % nr == 0:      # the code asks for this
                            yield dict(case, nr=nr)
                else:
                    yield case
                    if "shearing" in scenes.SCENES[k]["args"] and not scenes.SCENES[k]["prob"].get("shbox_xz"):
                        # the sides of the box slide: every phase of the sliding, in units of the box length, early and late
                        ph = (0.06, 0.19, 0.31, 0.44, 0.57, 0.69, 0.82, 0.94)
                        for f in ph if tier != "quick" else ph[(q + pat) % 3::3]:
                            yield dict(case, shift=f if pat % 2 else f + 3)
    for k, ng in SCHED.items():
        yield dict(cfg=k, cfgs=[k + "+mpi"], ng=ng, pat=3, pol=-2)


def run(case, ctx):
    name = case["cfg"]
    exe, mexe = ctx.exes[name], ctx.exes[name + "+mpi"]
    ng = case["ng"]
    smr = isinstance(ng[0], (list, tuple))
    with ctx.case() as c:
        ph, L, P, kw = scenes.write(c, name, case["pat"])
        if "shift" in case:
            kw["problem"]["tgrid"] = case["shift"] / 1.5
        kw["nlim"] = 2 if case["pol"] == -2 else 3 if kw["nx"][2] > 1 else 4
        rc, out = sim.run_serial(exe, c.dir, sim.athinput(**kw), mode=3, dump="ser")
        if rc != 0:
            ctx.fail("serial", "serial run failed: %d %s" % (rc, out[-300:]))
            return
        ref = sim.read_dump(c.path("ser"))
        km = dict(kw)
        if smr:
            km["ngrid"] = ng[0]
            km["domains"] = [dict(d, ngrid=g) for d, g in zip(kw["domains"], ng[1:])]
            cnt = [g[0] * g[1] * g[2] for g in ng]
            nr = case.get("nr", sum(cnt))
        else:
            km["ngrid"] = ng
            nr = ng[0] * ng[1] * ng[2]
        guard = sim.conditioning(c, exe, sim.athinput(**kw), L[0], ref, levels=L, parts=P)
        k = [0]

        def go(what, **pol):
            k[0] += 1
            r = sim.run_mpi(ctx.sched, mexe, nr, c.dir, sim.athinput(**km), mode=3, dump="m%d" % k[0], **pol)
            S = sim.read_dump(c.path("m%d" % k[0]), nr)
            ctx.trace()
            ctx.step(r.ops)
            judge(ctx, ref, r, S, nr, "grids %s on %d ranks %s" % (ng, nr, what), guard)
            return r
        if case["pol"] == -2:
            r = go("default")
            ch = [(i, a) for i, (rk, na, x) in enumerate(r.dec) for a in range(na) if a != x]
            for i, a in ch[:20 if ctx.tier == "quick" else 400]:
                go("deviation at decision %d -> %d" % (i, a), choices="%d:%d" % (i, a))
                if ctx.viol:
                    return
        else:
            for p in (POL if case["pol"] == -1 else [POL[case["pol"]]]):
                go("policy %s" % p, **p)
                if ctx.viol:
                    return


def judge(ctx, ref, r, S, nr, what, guard):
    if r.status != "ok" or r.rc != 0:
        ctx.fail("run", "%s: parallel run ended with %s: %s %s" % (what, r.status, r.detail, r.out[-300:]))
        return
    if "unreceived" in r.detail:
        ctx.fail("leftover", "%s: messages left at the end: %s" % (what, r.detail))
        return
    if len(S) != len(ref):
        ctx.fail("steps", "%s: %d states recorded, serial %d" % (what, len(S), len(ref)))
        return
    for a, b in zip(S, ref):
        ctx.snap(a)
        ctx.step()
        if len(set(a.dts)) > 1 or len(set(a.times)) > 1 or len(set(a.steps)) > 1:
            ctx.fail("clock", "%s: ranks disagree on time/timestep: %s %s" % (what, a.times, a.dts))
            return
        d = [("timestep", cmp.maxdiff([a.dt / b.dt], [1.0])), ("time", cmp.maxdiff([a.time], [b.time]))]
        for lev in sorted({g.level for g in b.grids}):
            if not any(g.level == lev for g in a.grids):
                ctx.fail("level", "%s: level %d is on no rank" % (what, lev))
                return
            for dm in sorted({g.dom for g in b.grids if g.level == lev}):
                d += [("level %d %s" % (lev, w), x) for w, x in cmp.snapdiff(a, b, lev, dm)]
        w = cmp.worst(d)
        if not w[1] <= TOL:
            if guard(w[1], a.nstep):
                ctx.count("ill-conditioned")
                return
            # root grids that meet the corner of a refined domain at a point: recorded in known_findings.txt
            corner = what.startswith("grids ((3, 3, 1), (2, 2, 1), (1, 1, 1))") and "level 0" in w[0] and w[1] < 0.01
            ctx.fail("smr-corner" if corner else "differs", "%s: step %d: %s differs from the serial run by %.3g" % (what, a.nstep, w[0], w[1]))
            return
