"""C04: outputs are written when and under the names they should be, and runs stop when they should.

A reference model of the output schedule (start, each due time, end; numbers; restart continuation; stop on time limit,
step limit or termination signal) is explored over all schedules x stop conditions x cut points of the bounded space;
every execution of the real program is compared with the model: complete list of files, calls and times."""
import glob, itertools, os, re, shutil, struct
import numpy as np
from vlib import ics, sim

BOUNDS = ("output intervals {0.3,1,2.5,100} steps x first output {at once, 0.5, 2.2, 50 steps} x start number {0,7,9999}, 14 simultaneous "
          "outputs of every format; stop on every step limit 0-5, 7 time limits, a termination signal in every step and rank; "
          "restart from every restart file with old and new limits; 1-4 ranks; 1-3 levels")
ASSUME = ["the simulation times of the steps are taken from the run itself (C13 judges the timestep)"]
CFG = dict(h1="--with-gas=hydro", m2="", smr="--with-gas=hydro --enable-smr", pt="--with-gas=hydro --with-eos=isothermal --with-particles=passive --with-order=2")
NMAX = 6


def specs(tier):
    s = {k: dict(args=v) for k, v in CFG.items()}
    s.update({k + "+mpi": dict(args=v, mpi=True) for k, v in CFG.items() if k in ("h1", "smr")})
    return s


INT = [0.3, 1.0, 2.5, 100.0]
FIRST = [None, 0.5, 2.2, 50.0]
NUM = [None, 7, 9999]


def cases(tier):
    full = tier == "thorough"
    # every schedule combination, at once per run: one note output per (interval, first) pair
    for num in NUM:
        for n in range(0, NMAX):
            yield dict(cfg="h1", kind="sched", num=num, nlim=n, tl=None)
        for tl in (0.0, 0.4, 1.0, 1.7, 2.6, 4.5):
            yield dict(cfg="h1", kind="sched", num=num, nlim=-1, tl=tl)
            yield dict(cfg="h1", kind="sched", num=num, nlim=3, tl=tl)
    for k in range(0, 5):
        yield dict(cfg="h1", kind="sched", num=None, nlim=NMAX, tl=None, kill="0:%d:15" % k)
        yield dict(cfg="m2", kind="fmt", num=None, nlim=NMAX, tl=None, kill="0:%d:15" % k)
    for cfg in ("h1", "m2", "smr", "pt"):
        for num in (None, 7):
            for n in (0, 1, 3):
                yield dict(cfg=cfg, kind="fmt", num=num, nlim=n, tl=None)
            yield dict(cfg=cfg, kind="fmt", num=num, nlim=-1, tl=2.4)
    yield dict(cfg="h1", kind="sched", num=None, nlim=4, tl=None, many=1)
    # restart from every file, with unchanged and extended limits
    for cfg in ("h1", "m2", "smr"):
        for ext in (0, 2):
            for rdt in (0.3, 1.0, 2.5):
                yield dict(cfg=cfg, kind="rst", nlim=4, ext=ext, rdt=rdt, num=None)
    yield dict(cfg="h1", kind="rst", nlim=4, ext=2, rdt=1.0, num=7)
    # parallel
    for nr in (2, 3, 4):
        for n in (0, 1, 3):
            yield dict(cfg="h1+mpi", kind="fmt", num=None, nlim=n, tl=None, nr=nr)
        for r in range(nr):
            for k in (0, 1, 3):
                yield dict(cfg="h1+mpi", kind="sched", num=None, nlim=NMAX, tl=None, nr=nr, kill="%d:%d:15" % (r, k))
        yield dict(cfg="h1+mpi", kind="sched", num=None, nlim=NMAX, tl=None, nr=nr, wall=True)
        yield dict(cfg="h1+mpi", kind="sched", num=None, nlim=-1, tl=2.4, nr=nr)
    for n in (0, 2):
        yield dict(cfg="smr+mpi", kind="fmt", num=None, nlim=n, tl=None, nr=2)


class Out:
    def __init__(s, n, fmt, t, dt, num, ident=None, single=False):
        s.n, s.fmt, s.t, s.dt, s.num, s.id, s.single = n, fmt, t, dt, num, ident, single


class Model:
    """the documented behaviour of the output schedule"""
    def __init__(s, outs):
        s.outs = outs
        s.ev = []
        s.rstate = {}

    def call(s, step, time, forced):
        due = {}
        for o in s.outs:
            due[o.n] = forced
            if time >= o.t:
                o.t += o.dt
                due[o.n] = True
        for o in s.outs:
            if o.fmt == "rst" and due[o.n]:
                s.rstate[o.num] = (step, {q.n: (q.num + (1 if due[q.n] else 0), q.t) for q in s.outs})
        for o in s.outs:
            if due[o.n]:
                s.ev.append((o.n, o.num, step, time, o.t))
                o.num += 1

    def run(s, T, restart, first=0):
        """T: times of steps first..last (the last is where the run stopped)"""
        if not restart:
            s.call(first, T[0], True)
        for k in range(len(T) - 1):
            s.call(first + k, T[k], False)
        s.call(first + len(T) - 1, T[-1], True)


EXT = dict(rst="rst", bin="bin", tab="tab", vtk="vtk", pgm="pgm", ppm="ppm", pdf="prb", note=None, hst="hst", lis="lis", phst="phst")


def names(o, num, doms, base="vp"):
    """files written by output o with this number"""
    if o.fmt == "note":
        return []
    if o.fmt == "rst":
        return ["%s.%04d.rst" % (base, num)]
    L = []
    for lev, dm in doms:
        b = base + ("-lev%d" % lev if lev else "") + ("-dom%d" % dm if dm else "")
        d = "lev%d/" % lev if lev else ""
        if o.fmt == "hst":
            L.append(d + b + ".hst")
        elif o.fmt == "phst":
            L.append(d + b + ".phst")
        elif o.fmt == "lis":
            L.append("%s%s.%04d.%s.lis" % (d, b, num, o.id))
        else:
            L.append("%s%s.%04d%s.%s" % (d, b, num, "." + o.id if o.single else "", EXT[o.fmt]))
            if o.fmt == "pdf":
                L.append("%s%s.prb_stat.%s.tab" % (d, b, o.id))
    return L


def listing(d):
    L = []
    for r, _, fs in os.walk(d):
        for f in fs:
            L.append(os.path.relpath(r + "/" + f, d))
    return sorted(L)


def run(case, ctx):
    cfg = case["cfg"].replace("+mpi", "")
    nr = case.get("nr", 1)
    ph = ics.Phys(CFG[cfg])
    n = {"h1": (8, 1, 1), "m2": (8, 6, 1), "smr": (16, 16, 1), "pt": (8, 6, 1)}[cfg]
    if nr > 1 and cfg == "h1":
        n = (24, 1, 1)
    doms, domains = [(0, 0)], []
    if cfg == "smr":
        domains = [dict(level=1, nx=(12, 8, 1), disp=(4, 4, 0)), dict(level=1, nx=(8, 8, 1), disp=(20, 20, 0)), dict(level=2, nx=(8, 8, 1), disp=(16, 12, 0))]
        doms = [(0, 0), (1, 0), (1, 1), (2, 0)]
        if nr > 1:
            domains = domains[:1]
            doms = doms[:2]
    box = ((0., 1.), (0., 1.), (0., 1.))
    with ctx.case() as c:
        # smooth gentle flow: the timestep is nearly constant
        levels = []
        for lev in range(1 + max([l for l, _ in doms])):
            f = 2 ** lev
            m = [n[d] * f if n[d] > 1 else 1 for d in range(3)]
            sh = (m[2], m[1], m[0])
            xx = (np.arange(m[0]) + 0.5) / m[0]
            B = bc = None
            if ph.mhd:
                B = [np.full((m[2], m[1], m[0] + 1), 0.3), np.full((m[2], m[1] + (m[1] > 1), m[0]), 0.2), np.full((m[2] + (m[2] > 1), m[1], m[0]), 0.1)]
                bc = ics.bcc(m, B)
            U = ics.cons(ph, np.ones(sh) * (1 + 0.2 * np.sin(2 * np.pi * xx)), [np.full(sh, v) for v in (0.3, -0.2, 0.1)], np.full(sh, 0.6), bc)
            levels.append((U, B))
        parts = [(0, i, 0.1 + 0.07 * i, 0.2 + 0.05 * i, 0.5, 0.1, 0.2, 0.0) for i in range(6)] if cfg == "pt" else []
        sim.write_ic(c.path("ic"), levels, parts)
        exe = ctx.exes[case["cfg"]]
        kw = dict(nx=n, box=box, domains=domains, cour=0.4)
        if cfg == "pt":
            kw["particle"] = dict(partypes=1, parnumcell=1, interp=1, integrator=1, tsmode=3)
        if nr > 1:
            if cfg == "smr":
                domains[0]["ngrid"] = (2, 1, 1)
                kw["ngrid"] = (2, 1, 1)
            else:
                kw["ngrid"] = (nr, 1, 1)

        def execute(tag, inp, args=(), env=None):
            d = c.path(tag)
            os.mkdir(d)
            e = dict(env or {}, VP_NOTE=c.path(tag + ".note"))
            args = list(args) + ["-d", d]
            if nr > 1:
                r = sim.run_mpi(ctx.sched, exe, nr, c.dir, inp, args=args, env=e, mode=3, dump=tag + ".dump")
                rc, out = (0 if r.status == "ok" else 99), r.out + r.detail.encode()
            else:
                rc, out = sim.run_serial(exe, c.dir, inp, args=args, env=e, mode=3, dump=tag + ".dump")
            ctx.trace()
            if rc != 0:
                ctx.fail("run", "%s: run ended abnormally (%s): %s" % (tag, rc, out[-300:].decode("latin1")))
                return None
            S = sim.read_dump(c.path(tag + ".dump"), nr)
            for s in S:
                ctx.snap(s)
            notes = []
            for r in range(nr):
                L = []
                try:
                    for l in open(c.path(tag + ".note.%d" % r)):
                        w = l.split()
                        L.append((int(w[0]), int(w[1]), int(w[2]), float(w[3]), float(w[4])))
                except OSError:
                    pass
                notes.append(L)
            return d, S, notes, out

        # calibrate the step size (one step)
        inp = sim.athinput(nlim=1, **kw)
        r = execute("cal", inp)
        if r is None:
            return
        h = [s.dt for s in r[1] if s.kind == 1][0]
        tl = None
        tlim = 1e9
        if case.get("tl") is not None:
            tlim = case["tl"] * h
        outs = []
        k = 1
        if case["kind"] == "sched":
            for a in INT:
                for b in FIRST:
                    outs.append(dict(n=k, name="vpnote", dt=a * h, **({} if b is None else dict(time=b * h))))
                    k += 1
            if case.get("many"):
                for q in range(60):
                    outs.append(dict(n=k, name="vpnote", dt=(0.3 + 0.1 * q) * h))
                    k += 1
            # outputs need not be numbered consecutively
            outs[5]["n"] = k + 2
            outs.append(dict(n=k, out_fmt="hst", dt=0.9 * h))
            k += 3
        else:
            fm = ["tab", "bin", "vtk", "hst", "note", "tabP", "note2"]
            fm += ["tab1", "pdf1"]
            if cfg in ("m2", "smr"):
                fm += ["vtk1", "pgm1", "ppm1"]
            if cfg == "pt":
                fm += ["lis", "phst"]
            if case["kind"] == "rst":
                fm = ["rst"] + fm
            else:
                fm = fm[:4] + ["rst"] + fm[4:]
            for q, f in enumerate(fm):
                o = dict(n=k, dt=[0.7, 1.0, 1.6, 2.5, 0.2][q % 5] * h)
                if f in ("note", "note2"):
                    o["name"] = "vpnote"
                elif f in ("vtk1", "tab1", "pdf1", "pgm1", "ppm1"):
                    o.update(out_fmt=f[:3], out="d" if q % 2 else "V1")
                    if q % 3 == 0:
                        o["id"] = "my%d" % q
                elif f == "tabP":
                    o.update(out_fmt="bin", out="prim")
                else:
                    o["out_fmt"] = f
                if f == "tabP":
                    o["n"] = k + 20 - 20
                if f == "rst" and case["kind"] == "rst":
                    o["dt"] = case["rdt"] * h
                outs.append(o)
                k += 1
            # dump formats that share names (bin/bin): separate the numbers
            for o in outs:
                if o.get("out") == "prim":
                    o["num"] = 5000
        if case.get("num") is not None:
            for o in outs:
                if o.get("out") != "prim":
                    o["num"] = case["num"]
        inp = sim.athinput(nlim=case["nlim"], tlim=tlim, outputs=outs, maxout=max(o["n"] for o in outs) + 1,
                           log=dict(out_level=0, err_level=0), **kw)
        env = dict(VP_KILL=case["kill"]) if case.get("kill") else {}
        args = ["-t", "00:00:00"] if case.get("wall") else []
        r = execute("a", inp, args=args, env=env)
        if r is None:
            return

        def judge(tag, r, mod, restart, first, nlim, tlim, kill=None, t0=0.0):
            d, S, notes, out = r
            T = [t0]
            st = [s for s in S if s.kind == 1]
            fin = [s for s in S if s.kind == 2]
            if len(fin) != 1:
                ctx.fail("end", "%s: run did not finish (%d final states)" % (tag, len(fin)))
                return None
            for s in st:
                if abs(s.time - T[-1]) > 1e-13 * (1e-3 + abs(T[-1])):
                    ctx.fail("time", "%s: step %d starts at %.17g, previous step ended at %.17g" % (tag, s.nstep, s.time, T[-1]))
                    return None
                T.append(s.time + s.dt)
            f = fin[0]
            if f.nstep != first + len(st) or f.time != T[-1]:
                ctx.fail("count", "%s: %d steps taken from step %d, final state says step %d time %.17g (expected %.17g)"
                         % (tag, len(st), first, f.nstep, f.time, T[-1]))
                return None
            # when to stop
            last = first + len(st)
            for i, t in enumerate(T[:-1]):
                if t >= tlim or (nlim >= 0 and first + i >= nlim):
                    ctx.fail("stop", "%s: did not stop at step %d time %.9g (limits: %d steps, time %.9g)" % (tag, first + i, t, nlim, tlim))
                    return None
            ended = T[-1] >= tlim or (nlim >= 0 and last >= nlim)
            if kill is not None:
                if not ended and last != kill + 1:
                    ctx.fail("signal", "%s: signal in step %d, run stopped after step %d" % (tag, kill, last))
                    return None
                if len(st) and last > kill + 1:
                    ctx.fail("signal", "%s: signal in step %d, run went on to step %d" % (tag, kill, last))
                    return None
            elif not ended:
                ctx.fail("stop", "%s: stopped early at step %d time %.9g (limits: %d steps, time %.9g)" % (tag, last, T[-1], nlim, tlim))
                return None
            if T[-1] > tlim * (1 + 1e-12) and len(st):
                ctx.fail("overrun", "%s: final time %.15g beyond the limit %.15g" % (tag, T[-1], tlim))
                return None
            txt = out.decode("latin1")
            if kill is None and T[-1] < tlim and "terminating on cycle limit" not in txt:
                ctx.fail("message", "%s: stop on cycle limit not reported" % tag)
            if kill is None and (nlim < 0 or last < nlim) and "terminating on time limit" not in txt:
                ctx.fail("message", "%s: stop on time limit not reported" % tag)
            mod.run(T, restart, first)
            # calls
            note_n = {o.n for o in mod.outs if o.fmt == "note"}
            want = [e for e in mod.ev if e[0] in note_n]
            for rk in range(nr):
                got = notes[rk]
                ctx.step(len(got))
                bad = None
                if len(got) != len(want):
                    miss = [w for w in want if (w[0], w[1], w[2]) not in {(g[0], g[1], g[2]) for g in got}]
                    extra = [g for g in got if (g[0], g[1], g[2]) not in {(w[0], w[1], w[2]) for w in want}]
                    bad = "missing %s, unexpected %s (output, number, step, time, next)" % (miss[:3], extra[:3])
                else:
                    for g, w in zip(sorted(got), sorted(want)):
                        if g[:3] != w[:3] or abs(g[3] - w[3]) > 1e-14 * (1e-9 + abs(w[3])) or abs(g[4] - w[4]) > 1e-12 * abs(w[4]) + 1e-15:
                            bad = "output (output, number, step, time, next) is %s, should be %s" % (g, w)
                            break
                if bad:
                    ctx.fail("schedule", "%s: rank %d: %s" % (tag, rk, bad))
                    return None
            # files
            exp = {}
            for (on, num, step, time, nx) in mod.ev:
                o = [q for q in mod.outs if q.n == on][0]
                for rk in range(nr):
                    if rk and o.fmt in ("hst", "pdf"):
                        continue
                    dd = doms
                    base = "vp" if rk == 0 else "vp-id%d" % rk
                    for f in names(o, num, dd, base):
                        f = ("id%d/" % rk if nr > 1 else "") + f
                        exp.setdefault(f, []).append((o, step, time))
            have = listing(d)
            if sorted(exp) != have:
                ctx.fail("files", "%s: files missing %s, unexpected %s" % (tag, sorted(set(exp) - set(have))[:4], sorted(set(have) - set(exp))[:4]))
                return None
            for f, L in exp.items():
                ctx.step()
                b = open(d + "/" + f, "rb").read()
                o = L[0][0]
                t = None
                if o.fmt == "vtk":
                    m = re.search(rb"time= *([-+.0-9eE]+)", b[:300])
                    t, tol = float(m[1]), 1e-5
                elif o.fmt == "bin":
                    nn = struct.unpack_from("<7i", b, 4)
                    t, dt = struct.unpack_from("<dd", b, 4 * (1 + 3 + 4) + 16)
                    tol = 1e-14
                elif o.fmt == "rst":
                    i = b.index(b"\nTIME\n") + 6
                    t, tol = struct.unpack_from("<d", b, i)[0], 1e-14
                    i = b.index(b"\nN_STEP\n") + 8
                    if struct.unpack_from("<i", b, i)[0] != L[-1][1]:
                        ctx.fail("content", "%s: %s holds step %d, written at step %d" % (tag, f, struct.unpack_from("<i", b, i)[0], L[-1][1]))
                elif o.fmt == "hst":
                    rows = [l.split() for l in b.decode().splitlines() if l and not l.startswith("#")]
                    tt = [float(w[0]) for w in rows]
                    if len(tt) != len(L) or any(abs(a - x[2]) > 1e-5 * abs(x[2]) + 1e-12 for a, x in zip(tt, L)):
                        ctx.fail("content", "%s: %s has entries at times %s, expected %s" % (tag, f, tt, [x[2] for x in L]))
                if t is not None and abs(t - L[-1][2]) > tol * abs(L[-1][2]) + 1e-12 * h:
                    ctx.fail("content", "%s: %s is labelled time %.15g, written at %.15g" % (tag, f, t, L[-1][2]))
            return d, T, last

        def model():
            L = []
            for o in outs:
                f = "note" if o.get("name") else o["out_fmt"]
                single = o.get("out") not in (None, "prim")
                L.append(Out(o["n"], f, o.get("time", 0.0), o["dt"], o.get("num", 0), o.get("id", "out%d" % o["n"]), single))
            return Model(L)

        mod = model()
        kill = int(case["kill"].split(":")[1]) if case.get("kill") else (0 if case.get("wall") else None)
        res = judge("a", r, mod, False, 0, case["nlim"], tlim, kill)
        if res is None or ctx.viol or case["kind"] != "rst":
            return
        d, T, last = res
        for num, (step, st) in sorted(mod.rstate.items()):
            tag = "r%d" % num
            lim = case["nlim"] + case["ext"]
            a = ["-r", "%s/vp.%04d.rst" % (d, num)] + (["time/nlim=%d" % lim] if case["ext"] else [])
            r2 = execute(tag, None, args=a)
            if r2 is None:
                return
            m2 = model()
            for o in m2.outs:
                o.num, o.t = st[o.n]
            judge(tag, r2, m2, True, step, lim, tlim, None, T[step])
            if ctx.viol:
                return
