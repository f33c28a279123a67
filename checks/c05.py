"""C05: what the output files say is what the state of the run is.

Every output format x variable x slice/average form x dimension x physics configuration of the bounded space is written
by the real program next to a raw dump of the same state; an independent reader decodes each file and every number in it
is compared with the value computed from the raw state."""
import itertools, os, re, struct, subprocess
import numpy as np
from vlib import build, ics, sim

BOUNDS = ("14 physics configurations x dimensions 1-3 x {tab, bin, vtk of conserved and primitive variables; tab, vtk, pgm, ppm, pdf of every "
          "named variable and user expressions; history with user columns} x slices/averages over every axis and pair of axes in 5 "
          "notations x levels/domains (3 levels, several domains) x 1-8 ranks, two states each")
ASSUME = ["the raw dump of the state is taken in the same output call (user output function)"]
CFG = {
    "h": "--with-gas=hydro --with-nscalars=2",
    "hi": "--with-gas=hydro --with-eos=isothermal --with-nscalars=1",
    "m": "--with-nscalars=1",
    "mi": "--with-eos=isothermal",
    "srh": "--with-gas=hydro --enable-special-relativity --with-integrator=vl --with-order=2p --with-flux=hllc",
    "srm": "--enable-special-relativity --with-integrator=vl --with-order=2p --with-flux=hlld",
    "cyl": "--with-coord=cylindrical --with-flux=hlld --with-nscalars=1",
    "cylh": "--with-coord=cylindrical --with-flux=hllc --with-gas=hydro",
    "sg": "--with-gravity=fft --enable-fft --with-nscalars=2",
    "ghost": "--enable-ghost",
    "smr": "--enable-smr --with-gas=hydro --with-nscalars=1",
    "smrm": "--enable-smr",
}
MPI = ("h", "m", "smr", "cyl", "sg", "srm")
SZ = {1: (11, 1, 1), 2: (10, 7, 1), 3: (8, 6, 5)}
GAM = 1.4


def specs(tier):
    s = {k: dict(args=v) for k, v in CFG.items()}
    s.update({k + "+mpi": dict(args=CFG[k], mpi=True) for k in MPI})
    return s


def cases(tier):
    pats = (1,) if tier == "quick" else (1, 2, 3)
    for cfg in CFG:
        for nd in (1, 2, 3):
            for p in pats:
                yield dict(cfg=cfg, nd=nd, pat=p, set="dump")
                for k in range(4 if nd > 1 else 1):
                    yield dict(cfg=cfg, nd=nd, pat=p, set="single", part=k)
    for cfg in MPI:
        if cfg == "smr":
            for nd, ng, ng1 in ((1, (2, 1, 1), (2, 1, 1)), (2, (2, 2, 1), (2, 2, 1)), (2, (3, 1, 1), (3, 1, 1)), (3, (2, 1, 1), (1, 2, 1))):
                yield dict(cfg="smr+mpi", nd=nd, pat=1, set="dump", ng=ng, ng1=ng1)
                yield dict(cfg="smr+mpi", nd=nd, pat=1, set="single", part=0, ng=ng, ng1=ng1)
            for st in ("dump", "single"):
                yield dict(cfg="smr+mpi", nd=2, pat=1, set=st, part=0, ng=(2, 1, 1), ng1=(2, 2, 1), ng2=(1, 2, 1), nr=4)
                yield dict(cfg="smr+mpi", nd=2, pat=1, set=st, part=0, ng=(3, 1, 1), ng1=(2, 2, 1), ng2=(1, 1, 1), nr=4)
            continue
        for nd, ng in ((1, (2, 1, 1)), (2, (2, 2, 1)), (2, (1, 3, 1)), (3, (2, 2, 2))):
            if cfg == "sg" and (nd == 1 or 3 in ng):
                continue
            yield dict(cfg=cfg + "+mpi", nd=nd, pat=1, set="dump", ng=ng)
            yield dict(cfg=cfg + "+mpi", nd=nd, pat=1, set="single", part=0, ng=ng)


def prepare(tree, exes, tier):
    src = tree.dir + "/pal.c"
    open(src, "w").write('#include <stdio.h>\n#include <string.h>\n#include "palette.h"\nint main(){int i,k;for(i=0;rgb[i].name&&rgb[i].rgb;i++)'
                         '{printf("%s",rgb[i].name);for(k=0;k<768;k++)printf(" %.9g",rgb[i].rgb[k]);printf("\\n");}return 0;}\n')
    p = subprocess.run(["gcc", "-w", "-I" + tree.src, "-o", tree.dir + "/pal", src], capture_output=True)
    if p.returncode == 0:
        t = subprocess.run([tree.dir + "/pal"], capture_output=True, text=True).stdout
        open(tree.dir + "/pal.txt", "w").write(t)


def palettes(ctx):
    P = {}
    try:
        for l in open(ctx.tree.dir + "/pal.txt"):
            w = l.split()
            P[w[0]] = np.array(w[1:], np.float32).reshape(256, 3)
    except OSError:
        pass
    return P


# ---- readers ---------------------------------------------------------------------------------------------------
def read_vtk(b):
    pos = 0

    def line():
        nonlocal pos
        e = b.index(b"\n", pos)
        l = b[pos:e].decode("latin1")
        pos = e + 1
        return l
    assert line().startswith("# vtk")
    head = line()
    r = dict(head=head, data={})
    assert line() == "BINARY"
    assert line() == "DATASET STRUCTURED_POINTS"
    r["dim"] = [int(x) for x in line().split()[1:]]
    r["org"] = [float(x) for x in line().split()[1:]]
    r["sp"] = [float(x) for x in line().split()[1:]]
    n = int(line().split()[1])
    r["n"] = n
    while pos < len(b):
        l = line()
        if l == "":
            continue
        w = l.split()
        if w[0] == "SCALARS":
            assert line().startswith("LOOKUP_TABLE")
            r["data"][w[1]] = np.frombuffer(b, ">f4", n, pos)
            pos += 4 * n
        elif w[0] == "VECTORS":
            r["data"][w[1]] = np.frombuffer(b, ">f4", 3 * n, pos).reshape(n, 3).T
            pos += 12 * n
        else:
            raise ValueError("unexpected vtk line " + l)
    return r


def read_bin(b):
    cs, n1, n2, n3, nv, ns, sg, pt = struct.unpack_from("<8i", b, 0)
    o = 32
    g1, cs0, t, dt = struct.unpack_from("<4d", b, o)
    o += 32
    r = dict(coord=cs, n=(n1, n2, n3), nv=nv, ns=ns, sg=sg, pt=pt, g1=g1, cs=cs0, time=t, dt=dt)
    for k, m in (("x1", n1), ("x2", n2), ("x3", n3)):
        r[k] = np.frombuffer(b, "<f8", m, o)
        o += 8 * m
    c = n1 * n2 * n3
    r["V"] = np.frombuffer(b, "<f8", c * nv, o).reshape(nv, n3, n2, n1)
    o += 8 * c * nv
    if sg:
        r["Phi"] = np.frombuffer(b, "<f8", c, o).reshape(n3, n2, n1)
        o += 8 * c
    r["rest"] = len(b) - o
    return r


def read_tab(b):
    head, rows = [], []
    for l in b.decode().splitlines():
        if l.startswith("#"):
            head.append(l)
        elif l.strip():
            rows.append([float(x) for x in l.split()])
    return head, np.array(rows)


class State:
    """one grid of one raw dump, as values the output files should contain"""
    def __init__(s, ph, g, box, root, ghost):
        s.ph = ph
        f = 2 ** g.level
        dx = [(box[d][1] - box[d][0]) / root[d] / (f if root[d] > 1 else 1) for d in range(3)]
        s.dx = dx
        gl = g.gl
        keep = tuple(slice(None) if ghost else slice(gl[d], gl[d] + g.nx[d]) for d in (2, 1, 0))
        s.U = g.U[(slice(None),) + keep]
        s.Phi = g.Phi[keep] if g.Phi is not None else None
        e = [gl[d] if ghost else 0 for d in range(3)]
        s.n = [g.nx[d] + 2 * e[d] for d in range(3)]
        s.off = e
        s.nin = g.nx
        s.min = [box[d][0] + dx[d] * g.disp[d] for d in range(3)]
        s.lo = [s.min[d] - e[d] * dx[d] for d in range(3)]
        s.max = [s.min[d] + dx[d] * g.nx[d] for d in range(3)]
        s.x = [s.lo[d] + (np.arange(s.n[d]) + 0.5) * dx[d] for d in range(3)]
        inn = tuple(slice(gl[d], gl[d] + g.nx[d]) for d in (2, 1, 0))
        s.Uin = g.U[(slice(None),) + inn]
        s.Phiin = g.Phi[inn] if g.Phi is not None else None
        s.xin = [s.min[d] + (np.arange(g.nx[d]) + 0.5) * dx[d] for d in range(3)]
        s.prim = primitive(ph, s.U)

    def expr(s, name, inner=False):
        U = s.Uin if inner else s.U
        ph = s.ph
        c = {"d": 0, "M1": 1, "M2": 2, "M3": 3}
        if name in c:
            return U[c[name]]
        if name == "E":
            return U[4]
        if name[0] == "B" and name[2:] == "c":
            return U[ph.iB + int(name[1]) - 1]
        if name == "ME":
            return 0.5 * sum(U[ph.iB + q] ** 2 for q in range(3))
        W = primitive(ph, U)
        if name in ("V1", "V2", "V3"):
            return W[int(name[1])]
        if name == "P":
            return W[4] if ph.adi else CS * CS * U[0]
        if name == "cs2":
            return GAM * W[4] / (W[0] + GAM / (GAM - 1) * W[4]) if ph.sr else GAM * W[4] / W[0]
        if name == "S":
            return W[4] / W[0] ** GAM
        if name == "G":
            return 1 / np.sqrt(1 - W[1] ** 2 - W[2] ** 2 - W[3] ** 2)
        x = s.xin if inner else s.x
        if name == "ud":
            return 100 + U[0]
        if name == "ux":
            return x[0][None, None, :] + 10 * x[1][None, :, None] + 100 * x[2][:, None, None] + 0 * U[0]
        raise KeyError(name)

    def reduce(s, name, sl):
        """slices: {axis: (l,u)} -> array with reduced axes averaged, or None if out of range"""
        a = s.expr(name)
        if np.ndim(a) == 0:
            a = np.full(s.U[0].shape, a)
        for d in sorted(sl):
            l, u = sl[d]
            if u < s.min[d] or l >= s.max[d]:
                return None
            fl = s.lo[d] + np.arange(s.n[d] + 1) * s.dx[d]
            k0 = max([k for k in range(s.n[d]) if fl[k] <= l] or [0])
            k1 = max([k for k in range(s.n[d]) if fl[k] <= u] or [0])
            ax = 2 - d
            idx = [slice(None)] * 3
            idx[ax] = slice(k0, k1 + 1)
            a = np.mean(a[tuple(idx)], axis=ax, keepdims=True)
        return a


CS = 0.7


def primitive(ph, U):
    if not ph.sr:
        d, v, p = ics.prim(ph, U, GAM)
        L = [d] + v + ([p] if ph.adi else [])
        if ph.mhd:
            L += [U[ph.iB + q] for q in range(3)]
        L += [U[ph.iS + q] / d for q in range(ph.ns)]
        return L
    return srprim(ph, U)


def srprim(ph, U):
    """invert by bisection on W = rho h Gamma^2 (independent of the code's solver)"""
    D, M, E = U[0], U[1:4], U[4]
    B = U[5:8] if ph.mhd else np.zeros_like(M)
    B2 = (B * B).sum(0)
    M2 = (M * M).sum(0)
    MB = (M * B).sum(0)
    gg = GAM / (GAM - 1)

    def f(W):
        v2 = (M2 * W * W + MB * MB * (2 * W + B2)) / (W * W * (W + B2) ** 2)
        v2 = np.minimum(v2, 1 - 1e-14)
        g = 1 / np.sqrt(1 - v2)
        p = (W / g ** 2 - D / g) / gg
        return W - p + B2 * (1 - 0.5 / g ** 2) - 0.5 * MB * MB / W ** 2 - E, v2, g, p
    lo, hi = 0.5 * D, 10 * (E + D) + 1
    # f is increasing on the physical branch; make sure lo is below the root
    for _ in range(200):
        m = 0.5 * (lo + hi)
        r = f(m)[0]
        lo = np.where(r < 0, m, lo)
        hi = np.where(r < 0, hi, m)
    W = 0.5 * (lo + hi)
    _, v2, g, p = f(W)
    v = [(M[q] + MB / W * B[q]) / (W + B2) for q in range(3)]
    L = [D / g] + v + [p]
    if ph.mhd:
        L += [B[q] for q in range(3)]
    return L


def exprs(ph):
    L = ["d", "M1", "M2", "M3", "V1", "V2", "V3", "P"]
    if ph.adi:
        L += ["E", "cs2", "S"]
    if ph.mhd:
        L += ["B1c", "B2c", "B3c", "ME"]
    if ph.sr:
        L += ["G"]
    return L + ["ud", "ux"]


def slicings(box, n, nd, part, ghost=False):
    """list of {axis: text} covering point/range/open notations over all axes and pairs"""
    def forms(d, k):
        a, b = box[d]
        w = b - a
        h = w / n[d]
        lo, hi = a + 0.27 * w + 0.013 * h, a + 0.71 * w - 0.017 * h
        return [("%.9g" % lo, (lo, lo)), ("%.9g:%.9g" % (lo, hi), (lo, hi)), (":", (a, b)), ("%.9g:" % hi, (hi, b)), (":%.9g" % lo, (a, lo)),
                ("%.9g" % (b - 0.01 * h), (b - 0.01 * h,) * 2), ("%.9g" % (a + 0.01 * h), (a + 0.01 * h,) * 2)][k % 7 if not ghost else (0, 1, 5, 6)[k % 4]]
    out = []
    combos = [c for r in range(1, nd) for c in itertools.combinations(range(nd), r)]
    for q, c in enumerate(combos):
        for k in range(7):
            if (k + q) % 4 != part and len(c) > 1 or (k % 4 != part and len(c) == 1):
                continue
            out.append({d: forms(d, k + 3 * j) for j, d in enumerate(c)})
    return out


def run(case, ctx):
    cfg = case["cfg"].replace("+mpi", "")
    ph = ics.Phys(CFG[cfg])
    nd = case["nd"]
    ghost = cfg == "ghost"
    n = SZ[nd]
    ng = case.get("ng")
    if ng:
        n = tuple((10 if nd == 3 else 12) if d < nd else 1 for d in range(3))
        if cfg == "sg":
            n = tuple(8 if d < nd else 1 for d in range(3))
    doms = []
    if ph.smr:
        n = {1: (16, 1, 1), 2: (16, 16, 1), 3: (10, 10, 10)}[nd]
        if ng:
            n = {1: (16, 1, 1), 2: (18, 16, 1), 3: (10, 10, 10)}[nd]
            sz, dp = {1: ((8, 1, 1), (8, 0, 0)), 2: ((12, 8, 1), (8, 8, 0)), 3: ((8, 8, 8), (6, 6, 6))}[nd]
            doms = [dict(level=1, nx=sz, disp=dp, ngrid=case["ng1"])]
            if "ng2" in case:
                n, doms = (18, 18, 1), [dict(level=1, nx=(16, 16, 1), disp=(8, 8, 0), ngrid=case["ng1"]), dict(level=2, nx=(16, 16, 1), disp=(24, 24, 0), ngrid=case["ng2"])]
        elif nd == 1:
            doms = [dict(level=1, nx=(8, 1, 1), disp=(4, 0, 0)), dict(level=1, nx=(10, 1, 1), disp=(18, 0, 0)), dict(level=2, nx=(8, 1, 1), disp=(44, 0, 0))]
        elif nd == 2:
            doms = [dict(level=1, nx=(8, 10, 1), disp=(4, 4, 0)), dict(level=1, nx=(12, 8, 1), disp=(16, 20, 0)), dict(level=2, nx=(8, 8, 1), disp=(40, 44, 0))]
        else:
            doms = [dict(level=1, nx=(8, 8, 8), disp=(6, 6, 6))]
    box = ((1.0, 2.0), (0.0, 0.9), (0.2, 1.5)) if ph.cyl else ((0.0, 1.0), (-0.5, 0.4), (0.2, 1.5))
    bc = (2, 2, 4, 4, 4, 4) if ph.cyl else (4,) * 6
    with ctx.case() as c:
        levels = []
        for l in range(1 + max([d["level"] for d in doms], default=0)):
            m = tuple(x * 2 ** l if x > 1 else 1 for x in n)
            if ph.mhd and doms:
                U, B = ics.lattice(ph, m, box, pat=case["pat"] + 10 * l, amp=0.4, gamma=GAM, bc=bc, bamp=0.0)
            else:
                U, B = ics.lattice(ph, m, box, pat=case["pat"] + 10 * l, amp=0.4, gamma=GAM, cyl=ph.cyl, bc=bc)
            levels.append((U, B))
        sim.write_ic(c.path("ic"), levels)
        outs = [dict(n=1, name="vpdump", dt=1e-9)]
        meta = {}

        def add(**o):
            k = len(outs) + 1
            sl = o.pop("sl", {})
            for d, (txt, lu) in sl.items():
                o["x%d" % (d + 1)] = txt
            outs.append(dict(o, n=k, dt=1e-9))
            meta[k] = dict(o, sl={d: lu for d, (_, lu) in sl.items()}, id=o.get("id", "out%d" % k))
        E = exprs(ph)
        usr = {"ud", "ux"}
        pal = list(palettes(ctx)) or ["rainbow"]
        if case["set"] == "dump":
            add(out_fmt="tab", dat_fmt="%23.16e")
            add(out_fmt="tab", out="prim", dat_fmt="%23.16e", num=100)
            add(out_fmt="bin")
            add(out_fmt="bin", out="prim", num=100)
            add(out_fmt="vtk")
            add(out_fmt="vtk", out="prim", num=100)
            add(out_fmt="tab", out="cons", num=200)
            add(out_fmt="tab", out="prim", num=300)
            add(out_fmt="hst", dat_fmt="%23.16e")
            if doms:
                for lev, dm in ([(0, -1), (1, 0), (-1, 0)] if ng or nd == 3 else [(0, -1), (1, 1), (2, -1), (-1, 1), (-1, 0)]):
                    for k, f in enumerate(("tab", "bin", "vtk")):
                        o = dict(out_fmt=f, num=1000 + 100 * len(outs))
                        if lev >= 0:
                            o["level"] = lev
                        if dm >= 0:
                            o["domain"] = dm
                        add(**o)
        else:
            part = case["part"]
            if part == 0:
                for e in E:
                    u = dict(usr_expr_flag=1) if e in usr else {}
                    add(out_fmt="tab", out=e, dat_fmt="%23.16e", **u)
                    if nd > 1:
                        add(out_fmt="vtk", out=e, **u)
                    if e in ("d", "V2", "ux", "P"):
                        add(out_fmt="pdf", out=e, dat_fmt="%23.16e", **u)
                if nd == 2:
                    for k, e in enumerate(("d", "M2", "V1", "ux", "P")):
                        u = dict(usr_expr_flag=1) if e in usr else {}
                        lim = [dict(), dict(dmin=0.7), dict(dmax=0.4), dict(dmin=0.1, dmax=1.0), dict(dmin=2.0, dmax=3.0)][k]
                        add(out_fmt="pgm", out=e, **u, **lim)
                        add(out_fmt="ppm", out=e, palette=pal[k % len(pal)], **u, **lim)
                if doms:
                    add(out_fmt="tab", out="d", level=1, dat_fmt="%23.16e")
                    add(out_fmt="pdf", out="d", level=1, dat_fmt="%23.16e")
                    if nd > 1:
                        add(out_fmt="vtk", out="V1", level=0)
            if nd > 1 and (part != 0 or True):
                for k, sl in enumerate(slicings(box, n, nd, part, ghost)):
                    e = E[k % len(E)]
                    u = dict(usr_expr_flag=1) if e in usr else {}
                    add(out_fmt="tab", out=e, sl=sl, dat_fmt="%23.16e", **u)
                    add(out_fmt="tab", out="ux", sl=sl, usr_expr_flag=1)
                    if nd - len(sl) == 2:
                        add(out_fmt="vtk", out=e, sl=sl, **u)
                        add(out_fmt="pgm", out=e, sl=sl, **u)
                        add(out_fmt="ppm", out=e, sl=sl, palette=pal[k % len(pal)], **u)
        nr = case.get("nr") or (ng[0] * ng[1] * ng[2] if ng else 1)
        prob = dict(uhst=1)
        if ph.selfg:
            prob.update(four_pi_G=1.0, mean_rho=float(np.mean(levels[0][0][0])))
        inp = sim.athinput(nx=n, box=box, bc=bc, nlim=1, cour=0.3, gamma=GAM, cs=CS, outputs=outs, ngrid=ng, domains=doms, problem=prob)
        exe = ctx.exes[case["cfg"]]
        if ng:
            r = sim.run_mpi(ctx.sched, exe, nr, c.dir, inp, mode=0)
            if r.status != "ok":
                return ctx.fail("run", "run failed: %s %s" % (r.status, r.out[-300:]))
            out = r.out
        else:
            rc, out = sim.run_serial(exe, c.dir, inp, mode=0)
            if rc != 0:
                return ctx.fail("run", "run failed: %d %s" % (rc, out[-300:]))
        ctx.trace()
        S = sim.read_dump(c.path("dump"), nr)
        # step 0 (start and due again or not), step 1 (end): number k of each output <-> k-th dump
        if len(S) < 2:
            return ctx.fail("run", "too few outputs")
        J = Judge(ctx, c, ph, box, n, nr, ghost, palettes(ctx), case)
        for k, s in enumerate(S):
            ctx.snap(s)
            per = {}
            if nr == 1:
                per[0] = s.grids
            else:
                for r in range(nr):
                    q = sim.read_dump(c.path("dump"), nr) if False else None
                per = J.perrank(k)
            for r in range(nr):
                for g in per[r]:
                    st = State(ph, g, box, n, ghost)
                    for on, m in meta.items():
                        ctx.step()
                        try:
                            J.check(on, m, k, r, g, st, s)
                        except FileNotFoundError as x:
                            ctx.fail("missing", "output %d %s: no file %s" % (on, m["out_fmt"], x.filename))
                        except (ValueError, AssertionError, struct.error, IndexError) as x:
                            ctx.fail("format", "output %d (%s of %s): file cannot be decoded: %s" % (on, m["out_fmt"], m.get("out", "cons"), x))
                        if ctx.viol:
                            return
            for lev, dm in {(g.level, g.dom) for g in s.grids}:
                for on, m in meta.items():
                    if m["out_fmt"] in ("hst", "pdf"):
                        J.check_global(on, m, k, lev, dm, s)
                    if ctx.viol:
                        return


class Judge:
    def __init__(s, ctx, c, ph, box, n, nr, ghost, pal, case):
        s.ctx, s.c, s.ph, s.box, s.n, s.nr, s.ghost, s.pal, s.case = ctx, c, ph, box, n, nr, ghost, pal, case
        s.raw = None
        s.gm = {}

    def perrank(s, k):
        if s.raw is None:
            s.raw = []
            for r in range(s.nr):
                f = s.c.path("dump.%d" % r)
                os.symlink(f, s.c.path("one%d.0" % r))
                s.raw.append(sim.read_dump(s.c.path("one%d" % r), 1))
        return {r: s.raw[r][k].grids for r in range(s.nr)}

    def path(s, r, lev, dm, num, ext, id=None):
        b = ("vp" if r == 0 else "vp-id%d" % r) + ("-lev%d" % lev if lev else "") + ("-dom%d" % dm if dm else "")
        d = ("id%d/" % r if s.nr > 1 else "") + ("lev%d/" % lev if lev else "")
        return s.c.path("%s%s%s%s.%s" % (d, b, ".%04d" % num if num is not None else "", "." + id if id else "", ext))

    def cmp(s, what, a, b, tol):
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape:
            s.ctx.fail("shape", "%s: has shape %s, should be %s" % (what, a.shape, b.shape))
            return
        e = np.max(np.abs(a - b) / (1e-3 * np.max(np.abs(b)) + np.abs(b) + 1e-30)) if a.size else 0
        if not e <= tol:
            i = np.unravel_index(np.argmax(np.abs(a - b)), a.shape)
            s.ctx.fail("value", "%s: value %.15g, state has %.15g (relative difference %.2g)" % (what, a[i], b[i], e))

    def check(s, on, m, k, r, g, st, snap):
        f = m["out_fmt"]
        if f in ("hst", "pdf"):
            return
        num = m.get("num", 0) + k
        single = m.get("out") not in (None, "cons", "prim")
        wrong = (m.get("level", g.level) != g.level) or (m.get("domain", g.dom) != g.dom)
        p = s.path(r, g.level, g.dom, num, f, m["id"] if single else None)
        what = "output %d: %s of %s, level %d domain %d rank %d number %d" % (on, f, m.get("out", "cons"), g.level, g.dom, r, num)
        ph = s.ph
        if wrong:
            if os.path.exists(p):
                s.ctx.fail("unselected", "%s written although another level/domain was selected" % what)
            return
        ptol = 2e-7 if ph.sr else 1e-11
        if not single:
            b = open(p, "rb").read()
            prim = m.get("out") == "prim"
            V = st.prim if prim else [st.U[v] for v in range(ph.nv)]
            nm = ["d"] + (["V1", "V2", "V3"] if prim else ["M1", "M2", "M3"]) + ((["P"] if prim else ["E"]) if ph.adi else [])
            if ph.mhd:
                nm += ["B1c", "B2c", "B3c"]
            act = [d for d in range(3) if s.n[d] > 1]
            tol = ptol if prim else 1e-14
            if f == "tab":
                head, T = read_tab(b)
                if m.get("dat_fmt") is None:
                    tol = max(tol, 2e-8)
                cols = {}
                hl = [h for h in head if "[1]=" in h][0]
                for cno, lab in re.findall(r"\[(\d+)\]=(\S+)", hl):
                    cols[lab] = int(cno) - 1
                K, J, I = np.meshgrid(*[np.arange(st.n[d]) for d in (2, 1, 0)], indexing="ij")
                ns = [x for x in cols]
                want = ["i-zone", "j-zone", "k-zone"][:len(act)] + ["x1", "x2", "x3"][:len(act)] + nm + (["Phi"] if ph.selfg else []) + ["s%d" % q for q in range(ph.ns)]
                if ns != want or T.shape != (I.size, len(want)):
                    return s.ctx.fail("columns", "%s: columns %s, data %s; expected %s" % (what, ns, T.shape, want))
                for d in act:
                    s.cmp(what + " x%d" % (d + 1), T[:, cols["x%d" % (d + 1)]], st.x[d][[I, J, K][d].ravel()], max(tol, 1e-12))
                    z = T[:, cols["ijk"[d] + "-zone"]]
                    s.cmp(what + " zone", z - z.min(), [I, J, K][d].ravel(), 1e-12)
                for q, w in enumerate(nm):
                    s.cmp(what + " " + w, T[:, cols[w]], V[q].ravel(), tol)
                for q in range(ph.ns):
                    s.cmp(what + " s%d" % q, T[:, cols["s%d" % q]], V[len(nm) + q].ravel(), tol)
                if ph.selfg:
                    s.cmp(what + " Phi", T[:, cols["Phi"]], st.Phi.ravel(), tol)
                h = " ".join(head)
                for d in act:
                    mm = re.search(r"Nx%d = (\d+)" % (d + 1), h)
                    xs = re.search(r"x%d-size = (\S+)" % (d + 1), h)
                    if int(mm[1]) != st.n[d] or abs(float(xs[1]) - st.n[d] * st.dx[d]) > 1e-4:
                        s.ctx.fail("header", "%s: header says %s %s" % (what, mm[0], xs[0]))
                mm = re.search(r"Time *= *([-+.\deE]+), level= (\d+), domain= (\d+)", h)
                s.head(what, mm, snap, g)
            elif f == "bin":
                R = read_bin(b)
                exp = dict(coord=-2 if ph.cyl else -1, n=tuple(st.n), nv=ph.nv, ns=ph.ns, sg=int(ph.selfg), pt=0, rest=0)
                for q, v in exp.items():
                    if R[q] != v:
                        s.ctx.fail("header", "%s: header field %s is %s, should be %s" % (what, q, R[q], v))
                for q, v in (("g1", GAM - 1 if ph.adi else 0.0), ("cs", 0.0 if ph.adi else CS), ("time", snap.time), ("dt", snap.dt)):
                    if abs(R[q] - v) > 1e-13 * abs(v) + 1e-15:
                        s.ctx.fail("header", "%s: %s is %.15g, should be %.15g" % (what, q, R[q], v))
                for d in range(3):
                    s.cmp(what + " x%d" % (d + 1), R["x%d" % (d + 1)], st.x[d], 1e-12)
                for q in range(ph.nv):
                    s.cmp(what + " variable %d" % q, R["V"][q], V[q], tol)
                if ph.selfg:
                    s.cmp(what + " Phi", R["Phi"], st.Phi, tol)
            elif f == "vtk":
                R = read_vtk(b)
                D = {"density": V[0], ("velocity" if prim else "momentum"): V[1:4]}
                o = 4
                if ph.adi:
                    D["pressure" if prim else "total_energy"] = V[4]
                    o = 5
                if ph.mhd:
                    D["cell_centered_B"] = V[o:o + 3]
                    o += 3
                if ph.selfg:
                    D["gravitational_potential"] = st.Phi
                for q in range(ph.ns):
                    D[("specific_scalar[%d]" if prim else "scalar[%d]") % q] = V[o + q]
                if list(R["data"]) != list(D) or set(R["data"]) != set(D):
                    if set(R["data"]) != set(D):
                        return s.ctx.fail("columns", "%s: holds %s, expected %s" % (what, list(R["data"]), list(D)))
                for q, v in D.items():
                    v = np.array(v)
                    v = v.reshape(3, -1) if v.ndim == 4 else v.ravel()
                    s.cmp(what + " " + q, R["data"][q], v, 3e-7)
                s.geom(what, R, st, [0, 1, 2])
                s.head(what, re.search(r"time= *([-+.\deE]+), level= (\d+), domain= (\d+)", R["head"]), snap, g)
            return
        # single variable
        e = m["out"]
        a = st.reduce(e, m["sl"])
        if a is None:
            if os.path.exists(p):
                s.ctx.fail("outside", "%s: slice lies outside the grid, yet a file was written" % what)
            return
        keep = [d for d in range(3) if s.n[d] > 1 and d not in m["sl"]]
        shp = [st.n[d] for d in reversed(keep)]
        a = a.reshape(shp)
        b = open(p, "rb").read()
        what += " slice %s" % m["sl"]
        tol = ptol if e in ("V1", "V2", "V3", "P", "cs2", "S", "G") else 1e-11
        if f == "tab":
            _, T = read_tab(b)
            if m.get("dat_fmt") is None:
                tol = max(tol, 2e-8)
            if T.shape != (a.size, len(keep) + 1):
                return s.ctx.fail("shape", "%s: table %s, expected %s" % (what, T.shape, (a.size, len(keep) + 1)))
            idx = np.meshgrid(*[np.arange(x) for x in shp], indexing="ij")
            for q in range(len(keep)):
                s.cmp(what + " index", T[:, q], idx[len(keep) - 1 - q].ravel(), 1e-7)
            s.cmp(what, T[:, -1], a.ravel(), tol)
        elif f == "vtk":
            R = read_vtk(b)
            if list(R["data"]) != [m["id"]]:
                return s.ctx.fail("columns", "%s: holds %s" % (what, list(R["data"])))
            s.cmp(what, R["data"][m["id"]], a.ravel(), 3e-7 if not ph.sr else 1e-6)
            dim = [x + 1 for x in reversed(shp)] + [1] * (3 - len(shp))
            if R["dim"] != dim:
                s.ctx.fail("header", "%s: dimensions %s, should be %s" % (what, R["dim"], dim))
            if not m["sl"]:
                s.geom(what, R, st, [0, 1, 2], False)
            s.head(what, re.search(r"time= *([-+.\deE]+), level= (\d+), domain= (\d+)", R["head"]), snap, g)
        elif f in ("pgm", "ppm"):
            img = b[::1]
            mlen = a.size * (3 if f == "ppm" else 1)
            hd = b[:len(b) - mlen].decode("latin1")
            px = np.frombuffer(b[len(b) - mlen:], np.uint8)
            lines = [l for l in hd.split("\n") if l]
            dims = [l for l in lines if re.match(r"^\d+ \d+$", l)]
            if lines[0] != ("P5" if f == "pgm" else "P6") or dims != ["%d %d" % (shp[1], shp[0])] or lines[-1] != "255":
                return s.ctx.fail("header", "%s: image header %r, expected size %d x %d" % (what, hd, shp[1], shp[0]))
            mn, mx = a.min(), a.max()
            if f == "ppm":
                mm = re.search(r"dmin= (\S+), dmax= (\S+), gmin", hd)
                if mm and (abs(float(mm[1]) - mn) > 1e-5 * (abs(mn) + abs(mx)) or abs(float(mm[2]) - mx) > 1e-5 * (abs(mn) + abs(mx))):
                    s.ctx.fail("header", "%s: header range %s %s, data range %.9g %.9g" % (what, mm[1], mm[2], mn, mx))
            lo, hi = m.get("dmin", mn), m.get("dmax", mx)
            A = a[::-1]
            if f == "pgm":
                if hi - lo > 0:
                    x = 256 * (A - lo) / ((hi - lo) * (1 + 1.2e-7))
                    lo_ = np.clip(np.floor(x - 0.01), 0, 255)
                    hi_ = np.clip(np.floor(x + 0.01), 0, 255)
                    px = px.reshape(A.shape)
                    if ((px < lo_) | (px > hi_)).any():
                        i = np.argmax((px < lo_) | (px > hi_))
                        s.ctx.fail("pixel", "%s: pixel %d is %d, should be %d" % (what, i, px.ravel()[i], lo_.ravel()[i]))
            elif m["palette"] in s.pal and hi > lo:
                rgb = s.pal[m["palette"]].astype(float)
                x = np.clip((A - lo) * 255 / (hi - lo), 0, 255)
                px = px.reshape(A.shape + (3,)).astype(float)
                ok = np.zeros(A.shape, bool)
                for dx in (-0.01, 0.0, 0.01):
                    y = np.clip(x + dx, 0, 255)
                    i = np.minimum(y.astype(int), 254)
                    w = (rgb[i] + (y - i)[..., None] * (rgb[i + 1] - rgb[i])) * 255
                    ok |= (np.abs(px - np.floor(w)) <= 1.01).all(-1)
                if not ok.all():
                    i = np.argmax(~ok)
                    s.ctx.fail("pixel", "%s: colour of pixel %d (value %.6g in %.6g..%.6g) is %s" % (what, i, A.ravel()[i], lo, hi, px.reshape(-1, 3)[i]))

    def head(s, what, mm, snap, g):
        if not mm:
            return s.ctx.fail("header", "%s: no time/level/domain in header" % what)
        if abs(float(mm[1]) - snap.time) > 1e-5 * abs(snap.time) + 1e-12 or int(mm[2]) != g.level or int(mm[3]) != g.dom:
            s.ctx.fail("header", "%s: header says time %s level %s domain %s; state is time %.9g level %d domain %d"
                       % (what, mm[1], mm[2], mm[3], snap.time, g.level, g.dom))

    def geom(s, what, R, st, ax, ghostorg=True):
        dim = [st.n[d] + 1 if s.n[d] > 1 else 1 for d in range(3)]
        if R["dim"] != dim or R["n"] != st.n[0] * st.n[1] * st.n[2]:
            s.ctx.fail("header", "%s: dimensions %s, should be %s" % (what, R["dim"], dim))
        for d in range(3):
            if s.n[d] > 1:
                lo = st.lo[d] if ghostorg else st.min[d]
                if abs(R["org"][d] - lo) > 2e-6 * (1 + abs(lo)) or abs(R["sp"][d] - st.dx[d]) > 2e-6:
                    s.ctx.fail("header", "%s: axis %d origin %g spacing %g, should be %g %g" % (what, d + 1, R["org"][d], R["sp"][d], lo, st.dx[d]))

    def check_global(s, on, m, k, lev, dm, snap):
        ph, ctx = s.ph, s.ctx
        gs = [g for g in snap.grids if g.level == lev and g.dom == dm]
        sts = [State(ph, g, s.box, s.n, s.ghost) for g in gs]
        if m.get("level", lev) != lev or m.get("domain", dm) != dm:
            return
        # written by the first process of the domain, in process 0's directory
        cand = []
        for r in range(s.nr):
            b = ("vp" if r == 0 else "vp-id%d" % r) + ("-lev%d" % lev if lev else "") + ("-dom%d" % dm if dm else "")
            d = ("id0/" if s.nr > 1 else "") + ("lev%d/" % lev if lev else "")
            ext = ".hst" if m["out_fmt"] == "hst" else ".%04d.%s.prb" % (k, m["id"])
            if os.path.exists(s.c.path(d + b + ext)):
                cand.append((r, s.c.path(d + b + ext), s.c.path(d + b + ".prb_stat.%s.tab" % m["id"])))
        what = "output %d: %s of %s, level %d domain %d number %d" % (on, m["out_fmt"], m.get("out", "-"), lev, dm, k)
        if len(cand) != 1:
            return ctx.fail("missing", "%s: %d files found" % (what, len(cand)))
        if m["out_fmt"] == "hst":
            head, T = read_tab(open(cand[0][1], "rb").read())
            nrow = len([1 for l in T])
            vol = wsum = 0.0
            tot = None
            for st in sts:
                w = np.ones(st.Uin[0].shape)
                for d in range(3):
                    if s.n[d] > 1:
                        w = w * st.dx[d]
                if ph.cyl:
                    w = w * st.xin[0][None, None, :]
                U = st.Uin
                W = primitive(ph, U)
                L = [U[0]]
                if ph.adi:
                    L.append(U[4])
                L += [U[1], U[2], U[3]]
                if not ph.sr:
                    L += [0.5 * U[q] ** 2 / U[0] for q in (1, 2, 3)]
                    if ph.mhd:
                        L += [0.5 * U[ph.iB + q] ** 2 for q in range(3)]
                    if ph.selfg:
                        L.append(U[0] * st.Phiin)
                    L += [U[ph.iS + q] for q in range(ph.ns)]
                    if ph.cyl:
                        L.append(st.xin[0][None, None, :] * U[2])
                else:
                    v = W[1:4]
                    g2 = 1 / (1 - sum(x * x for x in v))
                    L += [g2] + [g2 * x * x for x in v] + [W[4]]
                    if ph.mhd:
                        B = [U[5 + q] for q in range(3)]
                        vB = sum(v[q] * B[q] for q in range(3))
                        B2 = sum(x * x for x in B)
                        g = np.sqrt(g2)
                        L.append(g2 * vB * vB)
                        L += [(B[q] / g + g * vB * v[q]) ** 2 for q in range(3)]
                        b2 = B2 / g2 + vB * vB
                        L += [b2, B2 * (1 - 0.5 / g2) - 0.5 * vB * vB]
                L += [U[0] ** 2, U[1] - 2 * U[2]]
                t = np.array([(w * x).sum() for x in L])
                tot = t if tot is None else tot + t
            n1 = [min(st.min[d] for st in sts) for d in range(3)]
            n2 = [max(st.max[d] for st in sts) for d in range(3)]
            V = 0.5 * (n2[0] ** 2 - n1[0] ** 2) if ph.cyl else n2[0] - n1[0]
            for d in (1, 2):
                if s.n[d] > 1:
                    V *= n2[d] - n1[d]
            lab = ["time", "dt", "mass"] + (["total E"] if ph.adi else []) + ["x1 Mom.", "x2 Mom.", "x3 Mom."]
            if ph.sr:
                lab += ["Gamma", "x1-KE", "x2-KE", "x3-KE", "Press"] + (["x0-ME", "x1-ME", "x2-ME", "x3-ME", "bsq", "T^00_EM"] if ph.mhd else [])
            else:
                lab += ["x1-KE", "x2-KE", "x3-KE"] + (["x1-ME", "x2-ME", "x3-ME"] if ph.mhd else []) + (["grav PE"] if ph.selfg else [])
                lab += ["scalar %d" % q for q in range(ph.ns)] + (["Ang.Mom."] if ph.cyl else [])
            lab += ["<d2>", "<m>"]
            got = [x.strip() for x in re.split(r"\[\d+\]=", head[1].lstrip("#"))[1:]]
            if got != lab or T.shape[1] != len(lab):
                return ctx.fail("columns", "%s: columns %s (%d), expected %s" % (what, got, T.shape[1], lab))
            if k >= nrow:
                return ctx.fail("rows", "%s: %d rows" % (what, nrow))
            s.cmp(what + " time", [T[k][0]], [snap.time], 1e-13)
            s.cmp(what + " dt", [T[k][1]], [snap.dt], 1e-13)
            ref = tot / V
            scale = np.abs(ref) + 0.05
            e = np.abs(T[k][2:] - ref) / scale
            if not (e < (1e-6 if ph.sr else 1e-11)).all():
                q = int(np.argmax(e))
                ctx.fail("value", "%s: column %s is %.15g, state gives %.15g" % (what, lab[2 + q], T[k][2 + q], ref[q]))
            hv = re.search(r"level=(\d+) domain=(\d+) volume=(\S+)", head[0])
            if int(hv[1]) != lev or int(hv[2]) != dm or abs(float(hv[3]) / V - 1) > 1e-5:
                ctx.fail("header", "%s: %s" % (what, head[0]))
            return
        # pdf: of all the cells of the domain
        X = np.concatenate([np.broadcast_to(st.expr(m["out"], True), st.Uin[0].shape).ravel() for st in sts])
        N = X.size
        head, T = read_tab(open(cand[0][1], "rb").read())
        H = {}
        for l in head:
            w = l[1:].split("=")
            if len(w) == 2:
                H[w[0].strip()] = w[1].strip()
        sd = X.std(ddof=1)
        ref = {"Time": snap.time, "dmin": X.min(), "dmax": X.max(), "mean": X.mean(), "variance": sd ** 2, "std. dev.": sd,
               "avg. dev.": np.abs(X - X.mean()).mean(), "skewness": ((X - X.mean()) ** 3).sum() / N / sd ** 3, "kurtosis": ((X - X.mean()) ** 4).sum() / N / sd ** 4 - 3}
        tol = 1e-6 if ph.sr else 1e-9
        for q, v in ref.items():
            if abs(float(H[q]) - v) > tol * (abs(v) + (0 if q != "skewness" and q != "kurtosis" else 1)) + 1e-14:
                ctx.fail("value", "%s: %s is %s, state gives %.15g" % (what, q, H[q], v))
        nb = int(np.sqrt(N))
        if int(H["Nbin"]) != nb or len(T) != nb:
            return ctx.fail("header", "%s: %s bins, %d rows, expected %d" % (what, H["Nbin"], len(T), nb))
        dl = (X.max() - X.min()) / nb
        s.cmp(what + " bin centres", T[:, 0], X.min() + (np.arange(nb) + 0.5) * dl, 1e-7 if ph.sr else 1e-9)
        z = (X - X.min()) / dl
        cnt = T[:, 1] * N * dl
        if (np.abs(cnt - np.round(cnt)) > 1e-5).any() or abs(cnt.sum() - N) > 1e-5:
            ctx.fail("value", "%s: histogram not normalised" % what)
        amb = np.abs(z - np.round(z)) < 1e-6
        base = np.bincount(np.minimum(z[~amb].astype(int), nb - 1), minlength=nb)
        if (np.round(cnt) < base - 0.5).any() or np.abs(np.round(cnt) - base).sum() > amb.sum() + 0.5:
            ctx.fail("value", "%s: histogram %s, should be %s" % (what, np.round(cnt)[:10], base[:10]))
        _, T2 = read_tab(open(cand[0][2], "rb").read())
        row = T2[k]
        for q, v in zip(row, ref.values()):
            if abs(q - v) > tol * (abs(v) + 1) + 1e-14:
                ctx.fail("value", "%s: statistics table has %.15g, state gives %.15g" % (what, q, v))
