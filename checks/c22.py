"""C22: a run never touches memory it does not own and its result never depends on memory nobody has set.

Every configuration of vlib/scenes.py x extreme grid shapes (long in each direction in turn, as narrow as allowed in the
others) x serial and decomposed, with all output formats and a restart, is executed twice: in a build in which every load and
store, index, shift and conversion is monitored and fresh memory and variables are filled with a pattern, and in a plain build in
which they are filled otherwise.  No monitor may trip and both must give the same state, bit for bit."""
import glob, os, shutil
import numpy as np
from vlib import cmp, scenes, sim

BOUNDS = ("51 configurations x 2-4 grid shapes (long along each axis in turn) x serial and decomposed x 2 steps with every output format, a restart and "
          "another step, in an address- and undefined-behaviour-monitored build and a plain one with other fill patterns")
ASSUME = ["monitors: gcc's address and undefined-behaviour sanitizers; memory that is written before it is read by accident of the fill patterns is not seen"]
ASAN = ("-O0", "-g1", "-fsanitize=address,bounds,shift,integer-divide-by-zero,signed-integer-overflow,float-cast-overflow,null,return", "-fno-sanitize-recover=undefined", "-ftrivial-auto-var-init=pattern")
PLAIN = ("-O0", "-ftrivial-auto-var-init=zero")
AENV = dict(ASAN_OPTIONS="detect_leaks=0:malloc_fill_byte=171:max_malloc_fill_size=1000000000:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0:exitcode=99",
            UBSAN_OPTIONS="print_stacktrace=1:exitcode=99")
PENV = dict(MALLOC_PERTURB_="85")
SC = scenes.SCENES
MPIQ = ("mhd1", "mhd2", "mhd3", "hydvl2", "ubc3", "diff3", "sts2", "visc3", "cyl3", "cylfg3", "sr3", "sgfft3", "sh3", "shi3", "sh2", "fg3", "fg2", "pt2", "pt3", "ptsh3", "ptxz2")


def specs(tier):
    s = {}
    for k, v in SC.items():
        s[k + "-a"] = dict(args=v["args"], opt=ASAN)
        s[k + "-p"] = dict(args=v["args"], opt=PLAIN)
        s[k + "-a+mpi"] = dict(args=v["args"], opt=ASAN, mpi=True)
    return s


def shapes(k):
    s = SC[k]
    n = s["n"]
    if s.get("dom"):
        return [n]
    nd = sum(x > 1 for x in n)
    lo = [5, 5, 5]
    a = s["args"]
    if "shearing" in a or "fargo" in a:
        lo = [6, 10, 6]
    if "particles" in a:
        lo = [max(x, 6) for x in lo]
    if "gravity" in a:
        lo = [4 if "multigrid" not in a else 8] * 3
        if "multigrid" in a:
            return [n]
    hi = [16, 22, 18]
    if "gravity" in a:
        hi = [16, 24, 18]
    out = [n]
    for ax in range(nd):
        if nd > 1 or ax == 0:
            out.append(tuple((hi[i] if i == ax else lo[i]) if i < nd else 1 for i in range(3)))
    return out


def cases(tier):
    for k in SC:
        for i, n in enumerate(shapes(k)):
            if tier == "quick" and i == 0 and not SC[k].get("dom"):
                continue
            yield dict(cfg=k + "-a", cfgs=[k + "-p"], n=list(n))
    for k in MPIQ if tier == "quick" else [k for k in SC if SC[k]["decos"]]:
        for ng in SC[k]["decos"][:1] if tier == "quick" else SC[k]["decos"]:
            if not isinstance(ng[0], int):
                continue
            yield dict(cfg=k + "-a+mpi", n=list(SC[k]["n"]), ng=list(ng))


def outs(ph, n):
    o = [dict(x) for x in scenes.outputs(ph.part)]
    o = [x for x in o if n[1] > 1 or x["out_fmt"] not in ("pgm", "ppm", "vtk") or not x.get("out")]
    return o


def report(out):
    for k in (b"runtime error", b"AddressSanitizer"):
        i = out.find(k)
        if i >= 0:
            return out[max(0, i - 150):i + 900].decode("latin1")
    return None


def run(case, ctx):
    name = case["cfg"].split("-a")[0]
    n = tuple(case["n"])
    with ctx.case() as c:
        ph, L, P, kw = scenes.write(c, name, 1, n=n)
        oo = outs(ph, n)
        for q, o in enumerate(oo):
            o["n"] = q + 1
            if n[2] > 1 and o["out_fmt"] in ("pgm", "ppm"):
                o["x3"] = "%.9g" % (kw["box"][2][0] + (kw["box"][2][1] - kw["box"][2][0]) * (0.5 + int(n[2] / 2)) / n[2])
        if case.get("ng"):
            return mpi(case, ctx, c, ph, kw, oo)
        inp = sim.athinput(nlim=2, outputs=oo, **kw)
        res = {}
        for b, env in (("a", AENV), ("p", PENV)):
            d = c.path(b)
            os.mkdir(d)
            for part in (0, 1):
                args = ["-d", b] if not part else ["-r", sorted(glob.glob(d + "/vp.*.rst"))[1], "-d", b]
                rc, out = sim.run_serial(ctx.exes[name + "-" + b], c.dir, inp if not part else None, args=args, mode=3, dump="dump-%s%d" % (b, part), env=env, timeout=120)
                ctx.trace()
                what = "grid %s, %s" % (n, "restart" if part else "run")
                r = report(out)
                if r:
                    return ctx.fail("monitor", "%s: %s" % (what, r))
                if rc:
                    return ctx.fail("run", "%s ended with status %d: %s" % (what, rc, out[-300:]))
                S = sim.read_dump(c.path("dump-%s%d" % (b, part)))
                res[b, part] = S
                if b == "a":
                    for s in S:
                        ctx.snap(s)
                        ctx.step()
            res[b, "f"] = sim.listing(d)
        for part in (0, 1):
            if len(res["a", part]) != len(res["p", part]):
                return ctx.fail("uninit", "grid %s: the number of steps depends on the contents of unset memory" % (n,))
            for s, r in zip(res["a", part], res["p", part]):
                for lev in sorted({g.level for g in r.grids}):
                    w = cmp.worst(cmp.snapdiff(s, r, lev))
                    if w[1] > (1e-9 if ph.selfg else 0):                # FFTW chooses its algorithm by timing
                        return ctx.fail("uninit", "grid %s: step %d: %s depends on the contents of unset memory (by %.3g)" % (n, s.nstep, w[0], w[1]))
        for f, x in res["a", "f"].items():
            if not ph.selfg and res["p", "f"].get(f) != x:
                return ctx.fail("uninit", "grid %s: file %s depends on the contents of unset memory" % (n, f))


def mpi(case, ctx, c, ph, kw, oo):
    ng = tuple(case["ng"])
    nr = ng[0] * ng[1] * ng[2]
    inp = sim.athinput(nlim=2, outputs=oo, ngrid=ng, **kw)
    x = sim.run_mpi(ctx.sched, ctx.exes[case["cfg"]], nr, c.dir, inp, mode=3, env=AENV, timeout=120)
    ctx.trace()
    r = report(x.out)
    if r:
        return ctx.fail("monitor", "grids %s: %s" % (ng, r))
    if x.rc:
        return ctx.fail("run", "grids %s: %s %s %s" % (ng, x.status, x.detail, x.out[-200:]))
    for s in sim.read_dump(c.path("dump"), nr):
        ctx.snap(s)
    ctx.step(2)
