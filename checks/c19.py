"""C19: joining the files of a run in pieces gives the file of the run in one piece (vis/vtk/join_vtk, vis/matlab/join_bin,
vis/particle/join_lis and sort_lis)."""
import itertools, os, struct, subprocess
import numpy as np
from vlib import scenes, sim
from checks import c05

BOUNDS = ("every way of cutting a box into 1-3 (thorough 1-4) pieces of 1-3 zones along each axis in 1, 2 and 3 dimensions x every order of up "
          "to 4 (5) files on the command line (rotations and reversals beyond) x 4 data patterns (all different; bytes that read as "
          "white space; text that reads as header; special values) x fields (scalars, vectors, potential, particle grids); particle "
          "lists of 1-4 files with 0-5 particles in every order of 5 (6) identifiers; dumps of 15 real decomposed runs, joined")
ASSUME = ["the pieces were written by one run at one time", "8-byte reals in bin files (the tool is compiled for these)"]
TOOLS = {"join_vtk": "vtk/join_vtk.c", "join_bin": "matlab/join_bin/join_bin.c", "join_lis": "particle/join_lis.c", "sort_lis": "particle/sort_lis.c"}
RUNS = {"mhd1": 0, "mhd2": 0, "mhd3": 0, "hydvl2": 0, "cyl2": 0, "cyl3": 0, "sr3": 0, "sgfft2": 0, "sgfft3": 0, "fg3": 0, "pt1": 0, "pt2": 0, "pt3": 0, "shi3": 0, "smrh3": 0}


def specs(tier):
    s = {}
    for k in RUNS:
        s[k] = dict(args=scenes.SCENES[k]["args"], always=True)
        s[k + "+mpi"] = dict(args=scenes.SCENES[k]["args"], mpi=True, always=True)
    return s


def prepare(tree, exes, tier):
    for t, f in TOOLS.items():
        for v, opt in (("", ["-O1"]), (".asan", ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])):
            p = subprocess.run(["gcc", "-w"] + opt + ["-o", tree.dir + "/" + t + v, tree.repo + "/vis/" + f, "-lm"], capture_output=True, text=True)
            if p.returncode:
                raise RuntimeError("compile %s: %s" % (f, p.stderr[-500:]))


CUTS = {1: [[1], [2], [3]], 2: [[1, 1], [2, 1], [1, 2], [2, 2], [1, 3]], 3: [[1, 1, 1], [1, 2, 1], [2, 1, 3]], 4: [[1, 2, 1, 1]]}


def cases(tier):
    full = tier != "quick"
    K = 4 if full else 3
    for nd in (1, 2, 3):
        for m in itertools.product(*(range(1, K + 1) if d < nd else (1,) for d in range(3))):
            if np.prod(m) == 1 or (np.prod(m) > 12 and not full) or np.prod(m) > 27:
                continue
            for tool in ("join_vtk", "join_bin"):
                for pat in range(4):
                    yield dict(kind="grid", tool=tool, nd=nd, m=list(m), pat=pat)
    for tool in ("join_vtk", "join_bin"):
        yield dict(kind="bad", tool=tool)
    for np_ in (1, 2, 3, 4):
        for nt in (1, 2, 4):
            yield dict(kind="lis", np=np_, nt=nt)
    for n in range(1, 7 if full else 6):
        for tie in (0, 1):
            yield dict(kind="sort", n=n, tie=tie)
    for s in RUNS:
        for q, dc in enumerate(scenes.SCENES[s]["decos"]):
            for v in ("cons", "prim"):
                yield dict(kind="run", scene=s, deco=list(dc), var=v)


def tool(ctx, c, name, args, asan=False):
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "ASAN_OPTIONS": "detect_leaks=0:exitcode=77"}
    try:
        p = subprocess.run([ctx.tree.dir + "/" + name + (".asan" if asan else "")] + args, cwd=c.dir, env=e, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
    except subprocess.TimeoutExpired:
        return -999, b""
    return p.returncode, p.stderr[-400:]


def orders(k, full):
    if k <= (5 if full else 4):
        return list(itertools.permutations(range(k)))
    r = list(range(k))
    o = [tuple(r), tuple(r[::-1])] + [tuple(r[i:] + r[:i]) for i in range(1, k)] + [tuple(r[::2] + r[1::2]), tuple(r[1::2] + r[::2])]
    return o[:8] + o[-2:]


HEADISH = b"\nSCALARS x float\nLOOKUP_TABLE default\nVECTORS y float\n   \t\r\n\x0b\x0c "


def values(pat, n, size, be, salt):
    """n raw values of `size` bytes"""
    if pat == 0:
        a = (np.arange(n) + 1 + 1000 * salt).astype((">" if be else "<") + "f%d" % size)
        return a.view(np.uint8).reshape(n, size)
    if pat == 1:      # white space everywhere, still all different
        ws = np.frombuffer(b"\n \t\r\x0b\x0c", np.uint8)
        k = (np.arange(n) * 7 + salt)[:, None] // 6 ** np.arange(size)[None, :] % 6
        return ws[k]
    if pat == 2:
        h = np.frombuffer(HEADISH, np.uint8)
        k = (np.arange(n * size) + salt * 3) % len(h)
        return h[k].reshape(n, size)
    sp = np.array([0.0, -0.0, np.inf, -np.inf, np.nan, 5e-39, 3.4e38, -1.0], (">" if be else "<") + "f%d" % size)
    return sp[(np.arange(n) * 5 + salt) % 8].view(np.uint8).reshape(n, size)


def write_vtk(path, head, n, org, dx, fields, nd):
    with open(path, "wb") as f:
        f.write(b"# vtk DataFile Version 2.0\n%s\nBINARY\nDATASET STRUCTURED_POINTS\n" % head.encode())
        f.write(b"DIMENSIONS %d %d %d\n" % tuple(n[d] + 1 if d < nd else 1 for d in range(3)))
        f.write(("ORIGIN %e %e %e \nSPACING %e %e %e \nCELL_DATA %d \n" % (*org, *dx, n[0] * n[1] * n[2])).encode())
        for q, (typ, name, data) in enumerate(fields):
            f.write(("%s%s %s float\n%s" % ("\n" if q else "", typ, name, "LOOKUP_TABLE default\n" if typ == "SCALARS" else "")).encode())
            f.write(data.tobytes())


def run(case, ctx):
    return globals()["run_" + case["kind"]](case, ctx)


def run_grid(case, ctx):
    nd, m, pat, name = case["nd"], case["m"], case["pat"], case["tool"]
    full = ctx.tier != "quick"
    vtk = name == "join_vtk"
    size = 4 if vtk else 8
    with ctx.case() as c:
        sub = 0
        for q, cuts in enumerate(itertools.product(*(CUTS[m[d]] if d < nd else [[1]] for d in range(3)))):
            if not full and np.prod(m) > 2 and q % 3:
                continue
            if np.prod(m) > 4 and q % (2 if full else 6) > 1:
                continue
            sub += 1
            N = [sum(x) for x in cuts]
            off = [np.concatenate([[0], np.cumsum(x)]) for x in cuts]
            lo, dx = (-0.5, 0.25, 1e-3), (0.125, 0.1, 3.0)
            T = N[0] * N[1] * N[2]
            if vtk:
                F = [("SCALARS", "density", 1), ("VECTORS", "momentum", 3), ("SCALARS", "total_energy", 1), ("SCALARS", "scalar[0]", 1)][:2 + (sub + pat) % 3]
                if (sub + pat) % 4 == 1:
                    F = [("VECTORS", "v", 3)]
                G = [values(pat, T * w, 4, True, q + 1).reshape(N[2], N[1], N[0], w * 4) for q, (_, _, w) in enumerate(F)]
            else:
                nv, sg, pt = [(5, 0, 0), (8, 1, 0), (4, 0, 1), (9, 1, 1)][(sub + pat) % 4]
                nf = nv + sg + 4 * pt
                x = [values(0, N[d], 8, False, d).reshape(-1).view("<f8") * dx[d] + lo[d] for d in range(3)]
                G = [values(pat, T, 8, False, q + 1).reshape(N[2], N[1], N[0], 8) for q in range(nf)]
            files = []
            for kk, jj, ii in itertools.product(range(m[2]), range(m[1]), range(m[0])):
                b = [(off[0][ii], off[0][ii + 1]), (off[1][jj], off[1][jj + 1]), (off[2][kk], off[2][kk + 1])]
                sl = tuple(slice(*b[d]) for d in (2, 1, 0))
                nn = [int(b[d][1] - b[d][0]) for d in range(3)]
                f = "p%d.%s" % (len(files), "vtk" if vtk else "bin")
                files.append(f)
                if vtk:
                    write_vtk(c.path(f), "PRIMITIVE vars at time= 1.5e-01, level= 0, domain= 0", nn, [lo[d] + dx[d] * b[d][0] for d in range(3)], dx,
                              [(t, v, np.ascontiguousarray(g[sl])) for (t, v, w), g in zip(F, G)], nd)
                else:
                    with open(c.path(f), "wb") as h:
                        h.write(struct.pack("<8i4d", -1, *nn, nv, 1, sg, pt, 0.4, 0.0, 1.5, 0.01))
                        for d in range(3):
                            h.write(x[d][slice(*b[d])].tobytes())
                        for g in G:
                            h.write(np.ascontiguousarray(g[sl]).tobytes())
            for q, o in enumerate(orders(len(files), full)):
                fl = [files[k] for k in o]
                pos = (q + sub) % (len(fl) + 1) if q % 3 == 2 else 0
                a = fl[:pos] + ["-o", "out"] + fl[pos:]
                if os.path.exists(c.path("out")):
                    os.unlink(c.path("out"))
                rc, err = tool(ctx, c, name, a, asan=(q + sub) % 8 == 0)
                ctx.count("joins")
                ctx.trace(1)
                what = "%s of %s pieces %s in the order %s (data pattern %d)" % (name, "x".join(map(str, m)), cuts, o, pat)
                if rc:
                    return ctx.fail("join", "%s: exit %d %r" % (what, rc, err))
                b = open(c.path("out"), "rb").read()
                if vtk:
                    e = vtk_diff(b, "PRIMITIVE vars at time= 1.5e-01, level= 0, domain= 0", N, lo, dx, [(t, v, g.reshape(-1)) for (t, v, w), g in zip(F, G)])
                else:
                    e = None
                    want = struct.pack("<8i4d", -1, *N, nv, 1, sg, pt, 0.4, 0.0, 1.5, 0.01) + b"".join(y.tobytes() for y in x) + b"".join(g.tobytes() for g in G)
                    if b != want:
                        k = next((i for i in range(min(len(b), len(want))) if b[i] != want[i]), min(len(b), len(want)))
                        e = "%d bytes, expected %d, first difference at %d" % (len(b), len(want), k)
                if e:
                    return ctx.fail("join", "%s: %s" % (what, e))
                ctx.state("%s%s%s%s" % (case, cuts, o, pos))


def vtk_diff(b, head, N, lo, dx, fields):
    pos = 0

    def line():
        nonlocal pos
        e = b.index(b"\n", pos)
        l = b[pos:e].decode("latin1")
        pos = e + 1
        return l.split()
    try:
        if line()[:4] != ["#", "vtk", "DataFile", "Version"] or line() != head.split() or line() != ["BINARY"] or line() != ["DATASET", "STRUCTURED_POINTS"]:
            return "header"
        d = line()
        if [max(1, int(v) - 1) for v in d[1:]] != [int(v) for v in N]:
            return "dimensions %s for %s zones" % (d, N)
        for k, v in (("ORIGIN", lo), ("SPACING", dx)):
            w = line()
            if w[0] != k or any(abs(float(a) - b) > 1e-6 * (abs(b) + 1e-3) for a, b in zip(w[1:], v)):
                return "%s, expected %s" % (w, v)
        if line() != ["CELL_DATA", str(N[0] * N[1] * N[2])]:
            return "CELL_DATA"
        for q, (t, v, g) in enumerate(fields):
            l = line()
            if not l and q:
                l = line()
            if l != [t, v, "float"] or (t == "SCALARS" and line() != ["LOOKUP_TABLE", "default"]):
                return "field line %s for %s" % (l, v)
            w = g.tobytes()
            if b[pos:pos + len(w)] != w:
                return "data of %s" % v
            pos += len(w)
        if b[pos:].strip():
            return "%d bytes too many" % (len(b) - pos)
    except ValueError:
        return "short file"


def run_bad(case, ctx):
    """pieces that do not make up one box at one time are refused, not joined"""
    vtk = case["tool"] == "join_vtk"
    base = dict(n=[2, 2, 1], org=[[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0]], nv=[5] * 4, t=[1.5] * 4, dt=[.01] * 4, g=[.4] * 4, cs=[0.] * 4, sg=[0] * 4, pt=[0] * 4, co=[-1] * 4, ns=[0] * 4,
                names=["density"] * 4, trunc=None)
    with ctx.case() as c:
        var = []
        if vtk:
            var += [("names", v) for v in (["a", "a", "b", "a"], ["a", "b", "a", "a"])] + [("trunc", k) for k in range(4)]
        else:
            for key, alt in (("nv", 4), ("t", 1.6), ("dt", .02), ("g", .5), ("cs", 1.), ("sg", 1), ("pt", 1), ("co", -2), ("ns", 1)):
                for k in range(4):
                    v = list(base[key])
                    v[k] = alt
                    var.append((key, v))
            var += [("trunc", k) for k in range(4)]
        var += [("drop", k) for k in range(4)] + [("none", k) for k in range(4)]
        for key, val in var:
            s = dict(base)
            s[key] = val
            files = []
            for k in range(4):
                f = "p%d" % k
                if key == "none" and k == val:
                    files.append(f)
                    if os.path.exists(c.path(f)):
                        os.unlink(c.path(f))
                    continue
                if vtk:
                    write_vtk(c.path(f), "x", [2, 2, 1], [float(v) for v in s["org"][k]], (.5, .5, .5), [("SCALARS", s["names"][k], values(0, 4, 4, True, k)), ("VECTORS", "v", values(0, 12, 4, True, k))], 2)
                else:
                    with open(c.path(f), "wb") as h:
                        h.write(struct.pack("<8i4d", s["co"][k], 2, 2, 1, s["nv"][k], s["ns"][k], s["sg"][k], s["pt"][k], s["g"][k], s["cs"][k], s["t"][k], s["dt"][k]))
                        for d in range(3):
                            h.write(np.array([s["org"][k][d] + .25, s["org"][k][d] + .75][:2 if d < 2 else 1]).tobytes())
                        h.write(values(0, 4 * (s["nv"][k] + s["sg"][k] + 4 * s["pt"][k]), 8, False, k).tobytes())
                if key == "trunc" and k == val:
                    b = open(c.path(f), "rb").read()
                    open(c.path(f), "wb").write(b[:-5])
                if not (key == "drop" and k == val):
                    files.append(f)
            rc, err = tool(ctx, c, case["tool"], ["-o", "out"] + files)
            ctx.count("joins")
            ctx.trace(1)
            if rc == 0:
                return ctx.fail("refuse", "%s joins without complaint pieces that do not match: %s=%s" % (case["tool"], key, val))
            if rc != 1:
                return ctx.fail("refuse", "%s ends with %d on pieces that do not match: %s=%s" % (case["tool"], rc, key, val))
            ctx.state("%s%s%s" % (case, key, val))


def lis(b, nt):
    h = struct.unpack_from("<12fi%df2fq" % nt, b, 0)
    o = struct.calcsize("<12fi%df2fq" % nt)
    return h, [b[o + 44 * k:o + 44 * k + 44] for k in range((len(b) - o) // 44)], (len(b) - o) % 44


def run_lis(case, ctx):
    P, nt = case["np"], case["nt"]
    dom = [-.5, .5, 0., 1., .25, 2.]
    with ctx.case() as c:
        for P_ in range(P):
            os.makedirs(c.path("id%d" % P_), exist_ok=True)
        for q, ns in enumerate(itertools.product((0, 1, 3), repeat=P)):
            for fr, nums in (("0", [0]), ("3:6", [3, 4, 5, 6]), ("2:7:3", [2, 5]), ("9998:10001", [9998, 9999, 10000, 10001]))[:4 if q % 7 == 0 else 1]:
                want = {}
                for i in nums:
                    recs = []
                    for p in range(P):
                        r = [struct.pack("<7fiqi", *(np.arange(7) + 10 * k + 100 * p + 1000 * i), k % nt, 10 ** 10 + k if k == 1 else k, p) for k in range(ns[p])]
                        h = struct.pack("<12fi%df2fq" % nt, *[p + .5] * 6, *dom, nt, *[.1 * t + .3 for t in range(nt)], .7 + i, .01, len(r))
                        f = "id0/vp.%04d.ds.lis" % i if p == 0 else "id%d/vp-id%d.%04d.ds.lis" % (p, p, i)
                        open(c.path(f), "wb").write(h + b"".join(r))
                        recs += r
                    want[i] = struct.pack("<12fi%df2fq" % nt, *dom, *dom, nt, *[.1 * t + .3 for t in range(nt)], .7 + i, .01, len(recs)) + b"".join(recs)
                for opt, od, ob in (([], "comb_lis", "vp"), (["-o", "all"], "comb_lis", "all"), (["-d", "dd", "-o", "q"], "dd", "q"))[:1 if q % 5 else 3]:
                    rc, err = tool(ctx, c, "join_lis", ["-p", str(P), "-i", "vp", "-s", "ds"] + (["-f", fr] if fr != "0" else []) + opt, asan=(q % 3 == 0))
                    ctx.count("joins")
                    ctx.trace(1)
                    what = "join_lis of %s particles in %d files, numbers %s" % (ns, P, fr)
                    if rc:
                        return ctx.fail("lis", "%s: exit %d %r" % (what, rc, err))
                    for i in nums:
                        try:
                            b = open(c.path("%s/%s.%04d.ds.lis" % (od, ob, i)), "rb").read()
                        except OSError:
                            return ctx.fail("lis", "%s: no file %d" % (what, i))
                        if b != want[i]:
                            hb, lb, rest = lis(b, nt)
                            hw, lw, _ = lis(want[i], nt)
                            if hb != hw or sorted(lb) != sorted(lw) or rest:
                                return ctx.fail("lis", "%s: file %d holds %s and %d particles, expected %s and %d" % (what, i, hb, len(lb), hw, len(lw)))
                    ctx.state("%s%s%s%s" % (case, ns, fr, opt))


def run_sort(case, ctx):
    n, tie = case["n"], case["tie"]
    keys = [(k // 2, (k * 7) % 5 + 10 ** 10 * (k % 2)) for k in range(n)] if tie else [(k % 3, 5 - k // 3) for k in range(n)]
    with ctx.case() as c:
        perms = list(itertools.permutations(range(n)))
        # the files of one call share a range of numbers: up to 30 per call
        for z in range(0, len(perms), 30):
            blk = perms[z:z + 30]
            for i, o in enumerate(blk):
                r = [struct.pack("<7fiqi", *(np.arange(7) + 10 * k), k, keys[k][1], keys[k][0]) for k in o]
                open(c.path("vp.%04d.ds.lis" % i), "wb").write(struct.pack("<12fi1f2fq", *range(12), 1, .5, .25 + i, .01, n) + b"".join(r))
            rc, err = tool(ctx, c, "sort_lis", ["-i", "vp", "-s", "ds", "-f", "0:%d" % (len(blk) - 1)] + (["-d", "."] if z else []), asan=z == 0)
            ctx.count("joins")
            ctx.trace(1)
            if rc:
                return ctx.fail("sort", "sort_lis of %d particles: exit %d %r" % (n, rc, err))
            for i, o in enumerate(blk):
                if len(blk) == 1 and i:
                    break
                b = open(c.path("vp.%04d.ds.lis" % i), "rb").read()
                w = sorted(range(n), key=lambda k: keys[k])
                want = struct.pack("<12fi1f2fq", *range(12), 1, .5, .25 + i, .01, n) + b"".join(struct.pack("<7fiqi", *(np.arange(7) + 10 * k), k, keys[k][1], keys[k][0]) for k in w)
                if b != want:
                    return ctx.fail("sort", "sort_lis of %d particles given in the order %s" % (n, o))
                ctx.state("%s%s" % (case, o))


def run_run(case, ctx):
    s = case["scene"]
    ph, levels, parts, kw = scenes.make(s)
    v = case["var"]
    outs = [dict(n=1, out_fmt="vtk", out=v, dt=1e9, pargrid=1), dict(n=2, out_fmt="bin", out=v, dt=1e9, pargrid=1)]
    if ph.part:
        outs.append(dict(n=3, out_fmt="lis", out="cons", id="ds", dt=1e9))
    kw = dict(kw, nlim=0, outputs=outs)
    dc = tuple(case["deco"])
    P = int(np.prod(dc))
    with ctx.case() as c, ctx.case() as d:
        sim.write_ic(c.path("ic"), levels, parts)
        r = sim.run_serial(ctx.exes[s], c.dir, sim.athinput(**kw), mode=0)
        if r[0]:
            return ctx.fail("run", "%s: serial run: exit %d %r" % (s, r[0], r[1][-200:]))
        dom = [dict(x, ngrid=dc) for x in kw.get("domains", ())]
        r = sim.run_mpi(ctx.sched, ctx.exes[s + "+mpi"], P, d.dir, sim.athinput(**dict(kw, ngrid=dc, domains=dom)), ic=c.path("ic"), mode=0)
        if r.rc:
            return ctx.fail("run", "%s in %s grids: %s %s %r" % (s, dc, r.status, r.detail, r.out[-200:]))
        ctx.step(2)
        lev = 1 + len(dom)
        for l in range(lev):
            for f in ("%s.0000.vtk", "%s.0000.bin"):
                L = "-lev%d" % l if l else ""
                sub = "lev%d/" % l if l else ""
                pcs = ["id%d/%s" % (k, sub) + f % (("vp-id%d" % k if k else "vp") + L) for k in range(P)]
                pcs = [x for x in pcs if os.path.exists(d.path(x))]
                if len(pcs) != P:
                    return ctx.fail("run", "%s in %s grids: only the pieces %s" % (s, dc, pcs))
                t = "join_bin" if f.endswith("bin") else "join_vtk"
                for o in (pcs, pcs[::-1]):
                    rc, err = tool(ctx, d, t, ["-o", "out"] + o)
                    ctx.count("joins")
                    ctx.trace(1)
                    if rc:
                        return ctx.fail("run", "%s in %s grids: %s %s: exit %d %r" % (s, dc, t, f, rc, err))
                    e = same(open(d.path("out"), "rb").read(), open(c.path(sub + f % ("vp" + L)), "rb").read(), t)
                    if e:
                        return ctx.fail("run", "%s in %s grids: joined %s differs from that of the run in one grid: %s" % (s, dc, f, e))
        if ph.part:
            rc, err = tool(ctx, d, "join_lis", ["-p", str(P), "-i", "vp", "-s", "ds"])
            rc2, err2 = tool(ctx, d, "sort_lis", ["-d", "comb_lis", "-i", "vp", "-s", "ds"])
            if rc or rc2:
                return ctx.fail("run", "%s in %s grids: join_lis, sort_lis: exit %d %d %r" % (s, dc, rc, rc2, err + err2))
            b = open(d.path("comb_lis/vp.0000.ds.lis"), "rb").read()
            w = open(c.path("vp.0000.ds.lis"), "rb").read()
            nt = struct.unpack_from("<i", w, 48)[0]
            (h, l, rest), (h2, l2, _) = lis(b, nt), lis(w, nt)
            if h != h2 or len(l) != len(l2) or rest:
                return ctx.fail("run", "%s in %s grids: joined list has header %s and %d particles, not %s and %d" % (s, dc, h, len(l), h2, len(l2)))
            u = [struct.unpack("<7fiqi", x) for x in l]
            if any((a[9], a[8]) > (b_[9], b_[8]) for a, b_ in zip(u, u[1:])):
                return ctx.fail("run", "%s in %s grids: joined list not sorted" % (s, dc))
            key = lambda x: x[:6] + x[7:8]
            u, v = sorted(u, key=key), sorted((struct.unpack("<7fiqi", x) for x in l2), key=key)
            if any(key(a) != key(b_) or abs(a[6] - b_[6]) > 1e-5 * (1 + abs(b_[6])) for a, b_ in zip(u, v)):
                return ctx.fail("run", "%s in %s grids: joined list holds other particles than the list of the run in one grid" % (s, dc))
        ctx.state(str(case))


def same(b, w, t):
    if t == "join_bin":
        if len(b) != len(w):
            return "%d bytes, not %d" % (len(b), len(w))
        if b[:32] != w[:32]:
            return "header"
        x, y = np.frombuffer(b[32:], "<f8"), np.frombuffer(w[32:], "<f8")
        e = np.abs(x - y) > 1e-9 * (1e-3 + np.abs(y).max())
        return "value %d is %.10g, not %.10g" % (e.argmax(), x[e.argmax()], y[e.argmax()]) if e.any() else None
    x, y = c05.read_vtk(b), c05.read_vtk(w)
    if x["head"].split() != y["head"].split() or [max(1, v - 1) for v in x["dim"]] != [max(1, v - 1) for v in y["dim"]] or x["n"] != y["n"]:
        return "header"
    if any(abs(p - q) > 2e-6 * (1 + abs(q)) for k in ("org", "sp") for p, q in zip(x[k], y[k])):
        return "origin or spacing"
    if list(x["data"]) != list(y["data"]):
        return "fields %s, not %s" % (list(x["data"]), list(y["data"]))
    for k in y["data"]:
        p, q = x["data"][k].astype(float), y["data"][k].astype(float)
        if p.shape != q.shape or np.abs(p - q).max() > 1e-6 * (1e-3 + np.abs(q).max()):
            return k
