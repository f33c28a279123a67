"""C03: continuing from a restart file gives the run that would have happened without the interruption.

Every cut point of every run in the space is taken (and, for a subset, every pair of cut points: a restart of a
restart), the restarted process is run to the end, and every later state is compared with the uninterrupted run."""
import glob, os, shutil
import numpy as np
from vlib import cmp, ics, scenes, sim

TOL = 1e-11
BOUNDS = ("48 set-ups (all integrators/physics modules, 1-3 dimensions, refinement, particles, gravity, shearing box), 4 steps, every "
          "cut point; every pair of cut points for 12 set-ups; parallel restarts for 10 set-ups; arrays larger than the "
          "restart writer's 256 kB buffer")
ASSUME = ["same executable and same stopping time for the interrupted and uninterrupted runs"]
N = 4
CHAIN = {"mhd2", "mhd3", "hydvl2", "sts2", "cyl2", "sr2", "pt2", "smr2", "fg2", "sgfft2", "cool2", "sh2"}
MPI = {"mhd2": (3, 2, 1), "mhd3": (2, 2, 2), "hydvl2": (2, 2, 1), "pt2": (2, 2, 1), "fg3": (2, 2, 2), "sh3": (2, 3, 1),
       "sgfft3": (2, 2, 2), "cyl2": (2, 2, 1), "sts2": (2, 2, 1), "ptsh3": (2, 1, 1)}
BIG = {"mhd3": (34, 33, 32), "hydvl2": (190, 180, 1), "pt2": (12, 9, 1)}


def specs(tier):
    s = {k: dict(args=v["args"]) for k, v in scenes.SCENES.items()}
    s.update({k + "+mpi": dict(args=scenes.SCENES[k]["args"], mpi=True) for k in MPI})
    return s


def cases(tier):
    for k in scenes.SCENES:
        yield dict(cfg=k, kind="cut", chain=(k in CHAIN or tier == "thorough"), pat=1)
        if tier == "thorough":
            yield dict(cfg=k, kind="cut", chain=False, pat=2)
    for k in MPI:
        yield dict(cfg=k + "+mpi", kind="mpi", pat=1)
    for k in BIG:
        yield dict(cfg=k, kind="big", pat=1)


def rstfiles(d):
    return sorted(glob.glob(d + "/vp.*.rst"))


def compare(ctx, ref, S, what, after):
    """ref, S: snapshot lists (kind 1 per step, 2 final)"""
    R = {(s.kind, s.nstep): s for s in ref}
    if not S or S[-1].kind != 2:
        ctx.fail("end", "%s: run did not reach its end" % what)
        return
    want = [k for k in R if k[0] == 2 or k[1] >= after]
    have = {(s.kind, s.nstep) for s in S}
    if set(want) != have:
        ctx.fail("steps", "%s: steps taken %s, uninterrupted run took %s" % (what, sorted(have), sorted(want)))
        return
    for s in S:
        r = R[(s.kind, s.nstep)]
        ctx.snap(s)
        ctx.step()
        d = [("time", cmp.maxdiff([s.time], [r.time])), ("timestep", cmp.maxdiff([s.dt / r.dt], [1.0]))]
        tol = TOL
        for lev in sorted({g.level for g in r.grids}):
            for dm in sorted({g.dom for g in r.grids if g.level == lev}):
                d += [("level %d %s" % (lev, w), x) for w, x in cmp.snapdiff(s, r, lev, dm)]
        w = cmp.worst(d)
        if not w[1] <= tol:
            # the multigrid solver's single V-cycle starts from the previous potential (known finding, small effect only)
            ctx.fail("multigrid-vcycle" if ctx.mg and w[1] < 0.05 else "differs", "%s: step %d: %s differs from the uninterrupted run by %.3g" % (what, s.nstep, w[0], w[1]))
            return


def run(case, ctx):
    name = case["cfg"].replace("+mpi", "")
    ctx.mg = name == "sgmg3"
    with ctx.case() as c:
        if case["kind"] == "big":
            s = dict(scenes.SCENES[name])
            old = scenes.SCENES[name]
            s["n"] = BIG[name]
            if name == "pt2":
                s["npart"] = 66000
            scenes.SCENES[name] = s
            try:
                ph, L, P, kw = scenes.write(c, name, case["pat"], 0.4)
            finally:
                scenes.SCENES[name] = old
            nlim, cuts = 2, [0, 1, 2]
        else:
            ph, L, P, kw = scenes.write(c, name, case["pat"])
            nlim, cuts = N, list(range(N + 1))
        outs = [dict(n=1, out_fmt="rst", dt=1e-9), dict(n=2, out_fmt="hst", dt=1e-9)]
        inp = sim.athinput(nlim=nlim, outputs=outs, **kw)
        exe = ctx.exes[case["cfg"]]
        if case["kind"] == "mpi":
            return run_mpi(case, ctx, c, exe, name, kw, outs)
        rc, out = sim.run_serial(exe, c.dir, inp, mode=3, dump="ref")
        ctx.trace()
        if rc != 0:
            ctx.fail("run", "uninterrupted run failed: %d %s" % (rc, out[-300:]))
            return
        ref = sim.read_dump(c.path("ref"))
        files = rstfiles(c.dir)
        # files: step 0 (twice: forced at start, and due at once), each step, forced at the end
        # restart file k is identified by the step stored in it
        by = {}
        for f in files:
            by[step_of(f)] = f
        if sorted(by) != list(range(nlim + 1)):
            ctx.fail("files", "restart files hold steps %s" % sorted(by))
            return
        mode = 3
        for k in cuts:
            d = c.path("r%d" % k)
            os.mkdir(d)
            rc, out = sim.run_serial(exe, c.dir, None, args=["-r", by[k], "-d", d], mode=mode, dump="r%d.dump" % k)
            ctx.trace()
            if rc != 0:
                ctx.fail("restart", "restart from step %d failed: %d %s" % (k, rc, out[-300:]))
                return
            compare(ctx, ref, sim.read_dump(c.path("r%d.dump" % k)), "restart from step %d" % k, k)
            if ctx.viol:
                return
            if not case.get("chain"):
                continue
            by2 = {step_of(f): f for f in rstfiles(d)}
            for k2 in range(k + 1, nlim + 1):
                if k2 not in by2:
                    ctx.fail("files", "run restarted from step %d wrote no restart file at step %d" % (k, k2))
                    return
                dd = c.path("q%d_%d" % (k, k2))
                os.mkdir(dd)
                rc, out = sim.run_serial(exe, c.dir, None, args=["-r", by2[k2], "-d", dd], mode=mode, dump="q%d_%d.dump" % (k, k2))
                ctx.trace()
                if rc != 0:
                    ctx.fail("restart", "second restart (%d then %d) failed: %d %s" % (k, k2, rc, out[-300:]))
                    return
                compare(ctx, ref, sim.read_dump(c.path("q%d_%d.dump" % (k, k2))), "restart from step %d then %d" % (k, k2), k2)
                if ctx.viol:
                    return


def step_of(f):
    b = open(f, "rb").read()
    i = b.index(b"\nN_STEP\n") + 8
    return int(np.frombuffer(b[i:i + 4], "<i4")[0])


def run_mpi(case, ctx, c, exe, name, kw, outs):
    ng = MPI[name]
    nr = ng[0] * ng[1] * ng[2]
    inp = sim.athinput(nlim=N, outputs=outs, ngrid=ng, **kw)
    r = sim.run_mpi(ctx.sched, exe, nr, c.dir, inp, mode=3, dump="ref")
    ctx.trace()
    if r.status != "ok" or r.rc:
        ctx.fail("run", "uninterrupted parallel run failed: %s %s %s" % (r.status, r.detail, r.out[-200:]))
        return
    ref = sim.read_dump(c.path("ref"), nr)
    by = {step_of(f): f for f in rstfiles(c.path("id0"))}
    for k in range(N + 1):
        # all ranks' files in one directory, as the manual asks
        d = c.path("rst%d" % k)
        os.mkdir(d)
        num = os.path.basename(by[k]).split(".")[1]
        for q in range(nr):
            src = c.path("id%d" % q) + ("/vp.%s.rst" % num if q == 0 else "/vp-id%d.%s.rst" % (q, num))
            if not os.path.exists(src):
                ctx.fail("files", "rank %d wrote no restart file %s" % (q, num))
                return
            shutil.copy(src, d)
        r = sim.run_mpi(ctx.sched, exe, nr, c.dir, None, args=["-r", d + "/vp.%s.rst" % num, "-d", c.path("m%d" % k)], mode=3,
                        dump="m%d.dump" % k, sync=k & 1, late=(k >> 1) & 1)
        ctx.trace()
        if r.status != "ok" or r.rc:
            ctx.fail("restart", "parallel restart from step %d failed: %s %s %s" % (k, r.status, r.detail, r.out[-200:]))
            return
        compare(ctx, ref, sim.read_dump(c.path("m%d.dump" % k), nr), "parallel restart from step %d" % k, k)
        if ctx.viol:
            return
