"""C21: a restart file that is damaged or could not be written is never mistaken for a good one, and no failing file brings
the program down in any other way than by an error message.

Fault model, each enumerated completely: the writer stops after any byte of the file (every prefix of a real restart file is
given to the program; in parallel, of any one rank's file); the disk is full after any byte (every file size limit); any one
of the files a run writes cannot be created; a file written by another configuration is given; the parameter file ends after
any byte."""
import glob, os, resource, shutil, signal, subprocess
import numpy as np
from vlib import build, scenes, sim

BOUNDS = ("10 configurations; every prefix length of a restart file (2-8 kB), every file size limit for the writer, every file of a run with all "
          "output formats made uncreatable, every ordered pair of 9 configurations, every prefix of the parameter file; parallel: every "
          "prefix of either rank's file; every single allocation of runs of 14 configurations with all outputs, and of restarts")
ASSUME = ["a file that holds all data except its final line end is complete"]
NS = 24
H = "--with-gas=hydro "
TORN = {"mhd1": (7, 1, 1), "mhd2": (6, 5, 1), "hydvl2": (6, 5, 1), "sts2": (6, 5, 1), "pt2": (6, 5, 1), "smr1t": None, "sgfft2": (8, 4, 1),
        "fg2": None, "cyl2": (6, 5, 1), "sr1": (7, 1, 1)}
QUICK = ("mhd1", "mhd2", "pt2", "smr1t", "sts2")
FULL = {"mhd1": (7, 1, 1), "mhd2": (6, 5, 1), "pt2": (6, 5, 1), "smr1t": None, "big": (40, 33, 1)}
# configurations by what their restart files hold
FMT = {"h": H, "hi": H + "--with-eos=isothermal", "m": "--with-gas=mhd", "mi": "--with-eos=isothermal --with-flux=hlld", "h1": H + "--with-nscalars=1",
       "h2": H + "--with-nscalars=2", "m1": "--with-nscalars=1", "p": H + "--with-particles=passive", "pf": H + "--with-eos=isothermal --with-particles=feedback"}
OPEN = {"m2": "--with-nscalars=1", "smr": "--enable-smr --with-gas=hydro", "pt": H + "--with-particles=passive"}
S = scenes.SCENES
S["smr1t"] = scenes.S("--enable-smr --with-gas=hydro", (12, 1, 1), dom=[dict(level=1, nx=(8, 1, 1), disp=(8, 0, 0))])
for _k, _v in FMT.items():
    S["x" + _k] = scenes.S(_v, (6, 5, 1), **(dict(npart=6) if "particles" in _v else {}))
for _k, _v in OPEN.items():
    S["o" + _k] = scenes.S(_v, (16, 16, 1) if _k == "smr" else (6, 5, 1), dom=[dict(level=1, nx=(16, 12, 1), disp=(8, 10, 0))] if _k == "smr" else (), **(dict(npart=6) if "particles" in _v else {}))
MEM = ("mhd2", "pt2", "smr1", "mhd3", "sgfft3", "fg3", "visc3", "cyl3", "sr2", "sgobc3", "sgdisk3", "sgmg3", "diff3", "hydvl2")
MEMQ = ("mhd2", "pt2", "smr1", "sgfft3", "fg3", "cyl3")
MP = {"mhd1+mpi": (2, 1, 1), "mhd2+mpi": (1, 2, 1)}


def specs(tier):
    s = {k: dict(args=scenes.SCENES[k]["args"]) for k in TORN}
    s.update({k: dict(args=scenes.SCENES[k]["args"]) for k in (MEM if tier == "thorough" else MEMQ)})
    s["big"] = dict(args=scenes.SCENES["mhd2"]["args"])
    s.update({"x" + k: dict(args=v) for k, v in FMT.items()})
    s.update({"o" + k: dict(args=v) for k, v in OPEN.items()})
    s.update({k: dict(args=scenes.SCENES[k[:-4]]["args"], mpi=True) for k in MP})
    return s


def cases(tier):
    full = tier == "thorough"
    for k in TORN if full else QUICK:
        for s in range(NS):
            yield dict(cfg=k, kind="torn", s=s)
    for k in FULL if full else ("mhd1", "pt2"):
        for s in range(NS):
            yield dict(cfg=k, kind="full", s=s)
    if not full:
        yield dict(cfg="big", kind="full", s=0, step=97)
    for k in MEM if full else MEMQ:
        for rst in (0, 1):
            for s in range(NS):
                yield dict(cfg=k, kind="mem", rst=rst, s=s)
    for a in FMT:
        yield dict(cfg="x" + a, cfgs=["x" + b for b in FMT], kind="foreign")
    for k in OPEN:
        for s in range(8):
            yield dict(cfg="o" + k, kind="open", s=s)
    for k in ("xm", "xp"):
        for s in range(NS):
            yield dict(cfg=k, kind="par", s=s)
    for k in MP:
        for r in (0, 1):
            for s in range(NS):
                yield dict(cfg=k, kind="mpi", r=r, s=s, step=1 if full else 9)


def verdict(rc, out):
    """None if the run ended as a run or with a reported error"""
    if rc == -999:
        return "hang", "does not end"
    if rc < 0 or rc > 125:
        return "crash", "ended by signal %d" % (-rc if rc < 0 else rc)
    if rc and not out.strip():
        return "silent", "ended with status %d without a message" % rc
    return None


def same(a, b):
    return open(a, "rb").read() == open(b, "rb").read()


def run(case, ctx):
    globals()["k_" + case["kind"]](case, ctx)


RST = dict(n=1, out_fmt="rst", dt=1e-9)


NU = dict(VP_NOUSER="1")                                              # no user data: the file ends with the library's own part


def k_torn(case, ctx):
    exe = ctx.exes[case["cfg"]]
    with ctx.case() as c:
        ph, L, P, kw = scenes.write(c, case["cfg"], 1, n=TORN[case["cfg"]])
        rc, out = sim.run_serial(exe, c.dir, sim.athinput(nlim=2, outputs=[RST], **kw), mode=0, env=NU)
        ctx.trace()
        if rc:
            return ctx.fail("run", "run failed: %d %s" % (rc, out[-300:]))
        f = sorted(glob.glob(c.dir + "/vp.*.rst"))[1]
        data = open(f, "rb").read()
        os.mkdir(c.path("d"))
        rc, out = sim.run_serial(exe, c.dir, None, args=["-r", f, "-d", "d"], mode=2, dump="ref", env=NU)
        if rc:
            return ctx.fail("run", "restart failed: %d %s" % (rc, out[-300:]))
        for n in range(case["s"], len(data), NS):
            with open(c.path("torn.rst"), "wb") as g:
                g.write(data[:n])
            if os.path.exists(c.path("dump.0")):
                os.remove(c.path("dump.0"))
            rc, out = sim.run_serial(exe, c.dir, None, args=["-r", "torn.rst", "-d", "d"], mode=2, timeout=20, env=NU)
            ctx.trace()
            ctx.state(data[:n][-64:] + bytes([n & 255, n >> 8]))
            v = verdict(rc, out)
            if v:
                return ctx.fail(v[0], "restart from the first %d of %d bytes of a restart file %s: %s" % (n, len(data), v[1], out[-200:]))
            if rc == 0 and not (os.path.exists(c.path("dump.0")) and same(c.path("dump.0"), c.path("ref.0"))):
                return ctx.fail("accepted", "restart from the first %d of %d bytes of a restart file runs, and not as from the whole file" % (n, len(data)))
        ctx.step(len(data) // NS)


def limited(cmd, cwd, env, n, timeout=20):
    def pre():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=pre)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return -999, x.stdout or b""


def k_full(case, ctx):
    name = "mhd2" if case["cfg"] == "big" else case["cfg"]
    exe = ctx.exes[case["cfg"]]
    with ctx.case() as c:
        ph, L, P, kw = scenes.write(c, name, 1, n=FULL[case["cfg"]])
        inp = sim.athinput(nlim=1, outputs=[RST], **kw)
        os.mkdir(c.path("d"))
        rc, out = sim.run_serial(exe, c.dir, inp, args=["-d", "d"], mode=0)
        ctx.trace()
        if rc:
            return ctx.fail("run", "run failed: %d %s" % (rc, out[-300:]))
        ref = {f: open(f, "rb").read() for f in glob.glob(c.dir + "/d/vp.*.rst")}
        size = max(len(x) for x in ref.values())
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "VP_IC": c.path("ic"), "VP_DUMP": c.path("dump"), "VP_DUMP_MODE": "0"}
        for n in range(case["s"], size + 2, case.get("step", NS)):
            shutil.rmtree(c.path("d"))
            os.mkdir(c.path("d"))
            rc, out = limited([exe, "-i", "athinput", "-d", "d"], c.dir, env, n)
            ctx.trace()
            ctx.state([n, size, rc, len(out)])
            v = verdict(rc, out)
            if v:
                return ctx.fail(v[0], "disk full after %d bytes: the run %s: %s" % (n, v[1], out[-200:]))
            if rc:
                continue
            for f, x in ref.items():
                if not os.path.exists(f) or open(f, "rb").read() != x:
                    return ctx.fail("lost", "disk full after %d bytes: the run ends as if nothing happened, but %s is incomplete (%d of %d bytes)"
                                    % (n, os.path.basename(f), os.path.getsize(f) if os.path.exists(f) else 0, len(x)))
            if n < size:
                return ctx.fail("limit", "the file size limit has no effect")     # would be an error of this check
        ctx.step(size // NS)


def k_foreign(case, ctx):
    """restart files of every configuration are given to this one"""
    me = case["cfg"][1:]
    with ctx.case() as c:
        for b in FMT:
            os.mkdir(c.path(b))
            ph, L, P, kw = scenes.write(c, "x" + b, 1)
            inp = sim.athinput(nlim=2, outputs=[RST], **kw)
            rc, out = sim.run_serial(ctx.exes["x" + b], c.dir, inp, args=["-d", b], mode=0)
            ctx.trace()
            if rc:
                return ctx.fail("run", "run failed: %d %s" % (rc, out[-300:]))
            f = sorted(glob.glob(c.path(b) + "/vp.*.rst"))[1]
            os.mkdir(c.path("d" + b))
            rc, out = sim.run_serial(ctx.exes["x" + me], c.dir, None, args=["-r", f, "-d", "d" + b], mode=0, timeout=20)
            ctx.trace()
            ctx.step()
            ctx.state([me, b, rc])
            v = verdict(rc, out)
            if v:
                return ctx.fail(v[0], "%s program given a restart file of a %s one %s: %s" % (FMT[me], FMT[b], v[1], out[-200:]))
            if (rc == 0) != (me == b):
                return ctx.fail("foreign", "%s program given a restart file of a %s one: %s" % (FMT[me], FMT[b], "refused: %s" % out[-200:] if rc else "accepted"))




def prepare(tree, exes, tier):
    global LIB
    LIB = tree.dir + "/failmem.so"
    build.run(["gcc", "-O1", "-shared", "-fPIC", "-o", LIB, build.CSRC + "/failmem.c", "-ldl"])


def k_mem(case, ctx):
    """any one allocation of the program fails"""
    exe = ctx.exes[case["cfg"]]
    with ctx.case() as c:
        ph, L, P, kw = scenes.write(c, case["cfg"], 1)
        n = kw["nx"]
        outs = [o for o in scenes.outputs(ph.part) if n[1] > 1 or o["out_fmt"] not in ("pgm", "ppm", "vtk") or not o.get("out")]
        for q, o in enumerate(outs):
            o["n"] = q + 1
            if n[2] > 1 and o["out_fmt"] in ("pgm", "ppm"):
                o["x3"] = "%g" % (0.5 * sum(kw["box"][2]))
        inp = sim.athinput(nlim=2, outputs=outs, **kw)
        os.mkdir(c.path("d"))
        args = ["-i", "athinput", "-d", "d"]
        if case["rst"]:
            rc, out = sim.run_serial(exe, c.dir, inp, args=["-d", "d"], mode=0)
            if rc:
                return ctx.fail("run", "run failed: %d %s" % (rc, out[-300:]))
            args = ["-r", sorted(glob.glob(c.path("d") + "/vp.*.rst"))[1], "-d", "d"]
        else:
            open(c.path("athinput"), "w").write(inp)
        rc, out = sim.run_serial(exe, c.dir, None, args=args, mode=0, env=dict(LD_PRELOAD=LIB, VP_COUNT=c.path("count")))
        ctx.trace()
        if rc:
            return ctx.fail("run", "run failed: %d %s" % (rc, out[-300:]))
        cnt = int(open(c.path("count")).read())
        for k in range(1 + case["s"], cnt + 1, NS):
            rc, out = sim.run_serial(exe, c.dir, None, args=args, mode=0, env=dict(LD_PRELOAD=LIB, VP_FAIL=str(k)), timeout=20)
            ctx.trace()
            ctx.state([case["cfg"], case["rst"], k, rc])
            v = verdict(rc, out)
            if v:
                return ctx.fail(v[0], "when allocation %d of %d fails the run %s: %s" % (k, cnt, v[1], out[-200:]))
            if not out.strip():
                return ctx.fail("silent", "allocation %d of %d fails, and the run says nothing" % (k, cnt))
        ctx.step(cnt // NS)


def k_open(case, ctx):
    """each file the run writes, in turn, cannot be created (a directory of that name is in the way)"""
    exe = ctx.exes[case["cfg"]]
    with ctx.case() as c:
        ph, L, P, kw = scenes.write(c, case["cfg"], 1)
        inp = sim.athinput(nlim=2, outputs=scenes.outputs(ph.part), **kw)
        os.mkdir(c.path("d"))
        rc, out = sim.run_serial(exe, c.dir, inp, args=["-d", "d"], mode=0)
        ctx.trace()
        if rc:
            return ctx.fail("run", "run failed: %d %s" % (rc, out[-300:]))
        ref = sim.listing(c.path("d"))
        dirs = [os.path.relpath(os.path.join(a, f), c.path("d")) for a, fs, _ in os.walk(c.path("d")) for f in fs]
        for q, name in enumerate(sorted(ref)):
            if q % 8 != case["s"]:
                continue
            shutil.rmtree(c.path("d"))
            os.makedirs(c.path("d") + "/" + name)
            for x in dirs:
                os.makedirs(c.path("d") + "/" + x, exist_ok=True)
            rc, out = sim.run_serial(exe, c.dir, inp, args=["-d", "d"], mode=0, timeout=20)
            ctx.trace()
            ctx.step()
            ctx.state([name, rc, len(out)])
            v = verdict(rc, out)
            if v:
                return ctx.fail(v[0], "when %s cannot be created the run %s: %s" % (name, v[1], out[-200:]))
            if rc:
                if b"rror" not in out:
                    return ctx.fail("silent", "when %s cannot be created the run ends with status %d but says only: %s" % (name, rc, out[-200:]))
                continue
            if b"rror" not in out and b"nable" not in out:
                return ctx.fail("silent", "%s cannot be created, and the run says nothing" % name)
            have = sim.listing(c.path("d"))
            for f, x in ref.items():
                if f != name and have.get(f) != x and not f.endswith(".rst"):
                    return ctx.fail("other", "when %s cannot be created the run goes on, but %s is not the file it should be" % (name, f))


def k_par(case, ctx):
    """the parameter file ends after any byte"""
    exe = ctx.exes[case["cfg"]]
    with ctx.case() as c:
        ph, L, P, kw = scenes.write(c, case["cfg"], 1)
        inp = sim.athinput(nlim=1, outputs=[RST], **kw)
        os.mkdir(c.path("d"))
        for n in range(case["s"], len(inp) + 1, NS):
            rc, out = sim.run_serial(exe, c.dir, inp[:n], args=["-d", "d", "time/nlim=1"], mode=0, timeout=20)
            ctx.trace()
            ctx.state([n, rc])
            v = verdict(rc, out)
            if v:
                return ctx.fail(v[0], "with the first %d of %d characters of a parameter file the run %s: %s" % (n, len(inp), v[1], out[-200:]))
        ctx.step(len(inp) // NS)


def k_mpi(case, ctx):
    name = case["cfg"][:-4]
    ng = MP[case["cfg"]]
    exe = ctx.exes[case["cfg"]]
    with ctx.case() as c:
        ph, L, P, kw = scenes.write(c, name, 1, n=(13, 1, 1) if name == "mhd1" else (5, 9, 1))
        inp = sim.athinput(nlim=2, outputs=[RST], ngrid=ng, **kw)
        r = sim.run_mpi(ctx.sched, exe, 2, c.dir, inp, mode=0, env=NU)
        ctx.trace()
        if r.rc:
            return ctx.fail("run", "parallel run failed: %s %s" % (r.status, r.detail))
        fs = sorted(glob.glob(c.dir + "/**/*.0001.rst", recursive=True))
        if len(fs) != 2:
            return ctx.fail("files", "restart files %s" % fs)
        os.mkdir(c.path("r"))
        for f in fs:
            shutil.copy(f, c.path("r"))
        mine = [f for f in os.listdir(c.path("r")) if ("id%d" % case["r"] in f) or (case["r"] == 0 and "id" not in f)][0]
        first = [f for f in os.listdir(c.path("r")) if "id" not in f or "id0" in f][0]
        data = open(c.path("r") + "/" + mine, "rb").read()
        os.mkdir(c.path("d"))
        rr = sim.run_mpi(ctx.sched, exe, 2, c.dir, None, args=["-r", "r/" + first, "-d", "d"], mode=2, dump="ref", env=NU)
        if rr.rc:
            return ctx.fail("run", "parallel restart failed: %s %s" % (rr.status, rr.detail))
        refs = {k: open(c.path(k), "rb").read() for k in os.listdir(c.dir) if k.startswith("ref")}
        for n in range(case["s"], len(data), NS * case["step"]):
            with open(c.path("r") + "/" + mine, "wb") as g:
                g.write(data[:n])
            for k in refs:
                if os.path.exists(c.path("dump" + k[3:])):
                    os.remove(c.path("dump" + k[3:]))
            x = sim.run_mpi(ctx.sched, exe, 2, c.dir, None, args=["-r", "r/" + first, "-d", "d"], mode=2, timeout=20, env=NU)
            ctx.trace()
            ctx.state([n, case["r"], x.status])
            what = "parallel restart with the first %d of %d bytes of the file of process %d" % (n, len(data), case["r"])
            if x.status == "exit0" or x.rc == 0:
                if any(not os.path.exists(c.path("dump" + k[3:])) or open(c.path("dump" + k[3:]), "rb").read() != b for k, b in refs.items()):
                    return ctx.fail("accepted", what + " runs, and not as from the whole file")
            elif os.environ.get("VP_SHOW"):
                print(n, x.rc, x.status, x.detail[:100])
        ctx.step(len(data) // NS)
