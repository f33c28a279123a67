"""C20: the shipped problems (src/prob with the inputs in tst): the same run in one piece, in pieces and stopped and restarted."""
import os, re, shutil, struct
import numpy as np
from vlib import sim
from checks import c05

H, SR, CY, SB, PT = "--with-gas=hydro ", "--enable-special-relativity --with-integrator=vl --with-order=2p ", "--with-coord=cylindrical ", "--enable-shearing-box ", "--with-eos=isothermal --with-gas=hydro "
ISO = "--with-eos=isothermal "
CH, CM = CY + H + "--with-flux=hllc --enable-hllallwave", CY + "--with-flux=hlld --enable-hllallwave"
T = {}


def P(key, file, prob, args, nx, deco, det=None, **ov):
    """det: overrides that make a problem with random perturbations the same however it is cut (None: it is)"""
    T[key] = dict(file=file, prob=prob, args=args, nx=nx, deco=deco, det=det, ov=ov)


D1, D2, D3 = (2, 1, 1), (2, 2, 1), (2, 2, 2)
P("sod", "1D-hydro/athinput.sod", "shkset1d", H, (32, 1, 1), D1)
P("noh1", "1D-hydro/athinput.noh", "shkset1d", H, (32, 1, 1), D1)
P("rj2a", "1D-mhd/athinput.rj2a", "shkset1d", "", (32, 1, 1), D1)
P("lw1", "1D-hydro/athinput.linear_wave1d", "linear_wave", H, (32, 1, 1), D1)
P("lw1m", "1D-mhd/athinput.linear_wave1d", "linear_wave", "", (32, 1, 1), D1)
P("lw2", "2D-hydro/athinput.linear_wave2d", "linear_wave", H + "--with-nscalars=1", (16, 8, 1), D2)
P("lw2m", "2D-mhd/athinput.linear_wave2d", "linear_wave", "--with-nscalars=1", (16, 8, 1), D2)
P("lw3", "3D-hydro/athinput.linear_wave3d", "linear_wave", H + "--with-nscalars=1", (16, 8, 8), D3)
P("lw3m", "3D-mhd/athinput.linear_wave3d", "linear_wave", "--with-nscalars=1", (16, 8, 8), D3)
P("shu", "1D-hydro/athinput.shu-osher", "shu-osher", H, (40, 1, 1), D1)
P("ibw", "1D-hydro/athinput.twoibw", "twoibw", H, (40, 1, 1), D1)
P("cpaw1", "1D-mhd/athinput.cpaw1d", "cpaw", "", (32, 1, 1), D1)
P("cpaw2", "2D-mhd/athinput.cpaw2d", "cpaw", "", (16, 8, 1), D2)
P("cpaw3", "3D-mhd/athinput.cpaw3d", "cpaw", "", (16, 8, 8), D3)
P("csh", "1D-mhd/athinput.cshock1d", "cshock1d", ISO + "--enable-resistivity", (48, 1, 1), D1)
P("mb1", "1D-sr-hydro/athinput.mb1", "shkset1d", H + SR + "--with-flux=hllc", (40, 1, 1), D1)
P("mub1", "1D-sr-mhd/athinput.mub1", "shkset1d", SR + "--with-flux=hlld", (40, 1, 1), D1)
P("blast2", "2D-hydro/athinput.blast", "blast", H, (20, 30, 1), D2)
P("blast2m", "2D-mhd/athinput.blast_B1", "blast", "", (20, 30, 1), D2)
P("blast2sr", "2D-sr-mhd/athinput.blast", "blast", SR + "--with-flux=hlld", (20, 20, 1), D2)
P("blast2srh", "2D-sr-hydro/athinput.blast", "blast", H + SR + "--with-flux=hllc", (20, 20, 1), D2)
P("blast3", "3D-mhd/athinput.blast_B10", "blast", "", (10, 12, 10), D3)
P("carb2", "2D-hydro/athinput.carbuncle", "carbuncle", H, (32, 10, 1), D2)
P("dmr", "2D-hydro/athinput.dmr", "dmr", H, (26, 12, 1), D2)
P("jeans1", "2D-hydro/athinput.jeans", "jeans", "--with-gravity=fft --enable-fft", (16, 1, 1), (1, 1, 1))
P("jeans2", "2D-hydro/athinput.jeans", "jeans", "--with-gravity=fft --enable-fft", (16, 8, 1), (2, 1, 1))
P("kh1", "2D-hydro/athinput.kh", "kh", H, (16, 16, 1), D2, det=dict(iprob=2))
P("kh2", "2D-mhd/athinput.kh", "kh", "--with-order=3 --with-flux=hlld --with-nscalars=1", (16, 16, 1), D2, det=dict(iprob=2))
P("impl", "2D-hydro/athinput.lw_implode", "lw_implode", H, (20, 20, 1), D2)
P("nlsw2", "2D-hydro/athinput.nl-shwave", "hgb", H + ISO + SB + "--with-order=3p --with-flux=hllc --enable-fargo", (12, 20, 1), D2)
P("noh2", "2D-hydro/athinput.noh", "noh", H + "--enable-h-correction --with-flux=roe", (16, 16, 1), D2)
P("noh3", "3D-hydro/athinput.noh", "noh", H + "--enable-h-correction --with-flux=roe", (10, 10, 10), D3)
P("rt2", "2D-hydro/athinput.rt", "rt", H, (12, 16, 1), D2, det=dict(iprob=1))
P("rt2m", "2D-mhd/athinput.rt", "rt", "--with-order=3 --with-flux=hlld", (12, 16, 1), D2, det=dict(iprob=1))
P("rt3m", "3D-mhd/athinput.rt", "rt", "--with-flux=hlld", (8, 8, 12), D3, det="random")
P("shkc2", "2D-hydro/athinput.shk_cloud", "shk_cloud", H + "--with-nscalars=1", (16, 12, 1), D2)
P("shkc3", "3D-hydro/athinput.shk_cloud", "shk_cloud", H + "--with-nscalars=1", (12, 8, 8), D3)
P("loop2", "2D-mhd/athinput.field_loop", "field_loop", "", (16, 8, 1), D2)
P("loop3", "3D-mhd/athinput.field_loop", "field_loop", "", (16, 8, 8), D3)
P("loop4", "3D-mhd/athinput.field_loop4", "field_loop", "", (10, 10, 10), D3)
P("hall", "2D-mhd/athinput.hall_drift", "hall_drift", "--enable-resistivity", (16, 16, 1), D2)
P("hb3", "2D-mhd/athinput.hb3", "hb3", ISO + SB, (16, 12, 1), D2, det=dict(amp=0.0), pres=1e-5)
P("ot", "2D-mhd/athinput.orszag-tang", "orszag-tang", "", (16, 16, 1), D2)
P("rotor", "2D-mhd/athinput.rotor", "rotor", "", (20, 20, 1), D2)
P("jet2", "2D-sr-hydro/athinput.jet", "jet", H + SR + "--with-flux=hllc", (24, 20, 1), D2)
P("jet2m", "2D-sr-mhd/athinput.jet", "jet", SR + "--with-flux=hlld", (24, 20, 1), D2)
P("jet3", "3D-sr-hydro/athinput.jet", "jet", H + SR + "--with-flux=hllc", (12, 10, 10), D3)
P("sheet", "2D-sr-mhd/athinput.current-sheet", "current_sheet", SR + "--with-flux=hlld", (16, 16, 1), D2)
P("shw", "3D-hydro/athinput.shwave", "hgb", H + ISO + SB, (12, 12, 8), D3)
P("hgb", "3D-mhd/athinput.hgb", "hgb", ISO + SB, (10, 12, 8), D3, det=dict(amp=0.0))
P("hgbf", "3D-mhd/athinput.hgb", "hgb", ISO + SB + "--enable-fargo", (10, 20, 8), D3, det=dict(amp=0.0))
P("strat", "3D-mhd/athinput.strat", "strat", ISO + SB, (8, 12, 12), D3, det=dict(amp=0.0))
P("msa", "3D-mhd/athinput.msa", "msa", SB + "--with-gravity=fft --enable-fft", (8, 16, 8), (1, 2, 2))
P("ti", "3D-hydro/athinput.ti_test", "ti_test", H + "--enable-conduction --enable-cooling", (8, 8, 8), D3, det=dict(iprob=1))
P("cadv2", "cylindrical/athinput.cyladvect-2D", "cyladvect", CM, (12, 16, 1), D2)
P("cadv3", "cylindrical/athinput.cyladvect-3D", "cyladvect", CM, (12, 10, 8), D3)
P("cbl2", "cylindrical/athinput.cylblast_B0-2D", "cylblast", CH, (20, 16, 1), D2)
P("cbl3", "cylindrical/athinput.cylblast_B1-3D", "cylblast", CM, (12, 12, 10), D3)
P("cbp1", "cylindrical/athinput.cylbphi-1D", "cylbphi", CM, (24, 1, 1), D1)
P("cbp3", "cylindrical/athinput.cylbphi-3D", "cylbphi", CM, (12, 8, 8), D3)
P("cbr2", "cylindrical/athinput.cylbr-2D", "cylbr", CM, (16, 16, 1), D2)
P("cbr3", "cylindrical/athinput.cylbr-3D", "cylbr", CM, (12, 10, 8), D3)
P("cfl2", "cylindrical/athinput.cylfieldloop-2D", "cylfieldloop", CM, (16, 16, 1), D2)
P("cfl3", "cylindrical/athinput.cylfieldloop-3D", "cylfieldloop", CM, (12, 10, 8), D3, det="random")
P("cnmri", "cylindrical/athinput.cylnewtmri", "cylnewtmri", CM + " --with-eos=isothermal --enable-fargo", (10, 24, 8), (2, 2, 1), det=dict(Amp=0.0))
P("cray2", "cylindrical/athinput.cylrayleigh-2D", "cylrayleigh", CH, (16, 16, 1), D2, det=dict(noise_level=0.0))
P("cray3", "cylindrical/athinput.cylrayleigh-3D", "cylrayleigh", CH, (12, 10, 8), D3, det=dict(noise_level=0.0))
P("cspi", "cylindrical/athinput.cylspiral-2D", "cylspiral", CY + H + ISO + "--with-integrator=vl --with-order=2p --enable-fofc --with-flux=roe --enable-fargo", (16, 20, 1), D2)
P("cw1", "cylindrical/athinput.cylwind-1D", "cylwind", CH, (24, 1, 1), D1)
P("cw3", "cylindrical/athinput.cylwind-3D", "cylwind", CH, (12, 8, 8), D3)
P("cwr1", "cylindrical/athinput.cylwindrot-1D", "cylwindrot", CH, (100, 1, 1), D1)
P("cwr2", "cylindrical/athinput.cylwindrot-2D", "cylwindrot", CH, (100, 8, 1), D2)
P("cwrb1", "cylindrical/athinput.cylwindrotb-1D", "cylwindrotb", CM, (24, 1, 1), D1)
P("cwrb3", "cylindrical/athinput.cylwindrotb-3D", "cylwindrotb", CM, (12, 8, 8), D3)
P("pcol", "particle/athinput.par_collision", "par_collision", PT + "--with-particles=feedback", (16, 12, 1), D2)
P("pepi", "particle/athinput.par_epicycle", "par_epicycle", PT + SB + "--enable-fargo --with-particles=passive", (10, 10, 10), D3)
P("ps2", "particle/athinput.par_strat2d", "par_strat2d", PT + SB + "--enable-fargo --with-particles=feedback --with-order=3p", (12, 24, 1), D2, det="random")
P("ps3", "particle/athinput.par_strat3d", "par_strat3d", PT + SB + "--enable-fargo --with-particles=feedback --with-order=3p", (10, 12, 20), (2, 2, 2), det="random")
P("st2m", "particle/athinput.streaming2d_multi", "streaming2d_multi", PT + SB + "--enable-fargo --with-particles=feedback --with-order=3p", (12, 12, 1), D2, det="random")
P("st2s", "particle/athinput.streaming2d_single", "streaming2d_single", PT + SB + "--enable-fargo --with-particles=feedback --with-order=3p", (12, 12, 1), D2)
P("st3m", "particle/athinput.streaming3d_multi", "streaming3d_multi", PT + SB + "--enable-fargo --with-particles=feedback --with-order=3p", (10, 12, 10), D3, det="random")
P("st3s", "particle/athinput.streaming3d_single", "streaming3d_single", PT + SB + "--enable-fargo --with-particles=feedback --with-order=3p", (10, 12, 10), D3)


def specs(tier):
    s = {}
    for k, t in T.items():
        s[k] = dict(args=t["args"], prob=t["prob"], mpi=True, always=True)
    return s


def cases(tier):
    for k, t in T.items():
        for st in ((2,) if tier == "quick" else (1, 2, 3)):
            yield dict(prob=k, stop=st)


def parse(txt):
    B, cur = [], None
    for l in txt.splitlines():
        l = l.split("#")[0].strip()
        m = re.match(r"<(.*)>", l)
        if m:
            cur = [m.group(1).strip(), {}]
            B.append(cur)
        elif "=" in l and cur:
            a, b = l.split("=", 1)
            cur[1][a.strip()] = b.strip()
    return B


def inputs(repo, t, deco, nlim, det):
    B = parse(open(repo + "/tst/" + t["file"]).read())
    out = []
    for name, kv in B:
        if name.startswith("output") or (name.startswith("domain") and name != "domain1") or name in ("comment", "log", "job", "time"):
            if name == "time":
                cour = kv.get("cour_no", "0.4")
            continue
        kv = dict(kv)
        if name == "domain1":
            kv["level"] = 0
            kv = {k: v for k, v in kv.items() if not re.match(r"(NGrid|AutoWith)", k)}
            for d in range(3):
                kv["Nx%d" % (d + 1)] = t["nx"][d]
                kv["NGrid_x%d" % (d + 1)] = deco[d]
        if name == "problem":
            kv.update(t["ov"])
            if det:
                kv.update({k: v for k, v in t["det"].items() if k in kv})
        if name == "particle" and "parnumgrid" in kv:
            kv["parnumgrid"] = 60
        out.append((name, kv))
    out.insert(0, ("job", dict(problem_id="vp", maxout=4 if "particles" in t["args"] else 3, num_domains=1)))
    out.insert(1, ("log", dict(out_level=-1, err_level=-1, child_out_level=-1, child_err_level=-1)))
    if t["nx"][2] > 1:
        cour = "0.4"
    out.insert(2, ("time", dict(cour_no=cour, nlim=nlim, tlim=1e30)))
    outs = [("output1", dict(out_fmt="bin", out="cons", dt=1e30)), ("output2", dict(out_fmt="hst", dt=1e-30, dat_fmt="%23.16e")), ("output3", dict(out_fmt="rst", dt=1e30))]
    if "particles" in t["args"]:
        outs += [("output4", dict(out_fmt="lis", out="cons", id="ds", dt=1e30))]
    return "\n".join("<%s>\n%s\n" % (n, "\n".join("%s = %s" % (k, v) for k, v in kv.items())) for n, kv in out + outs)


def gather(c, n, num):
    """the state written by n ranks: coordinates and whole arrays"""
    L = []
    for r in range(n):
        L.append(c05.read_bin(open(c.path("id%d/vp%s.%04d.bin" % (r, "-id%d" % r if r else "", num)), "rb").read()))
    x = [np.unique(np.concatenate([p["x%d" % (d + 1)] for p in L]).round(12)) for d in range(3)]
    A = np.full((L[0]["nv"] + L[0]["sg"],) + tuple(len(x[d]) for d in (2, 1, 0)), np.nan)
    for p in L:
        i = [np.searchsorted(x[d], p["x%d" % (d + 1)][0] - 1e-9) for d in range(3)]
        V = np.concatenate([p["V"], p["Phi"][None]]) if p["sg"] else p["V"]
        A[:, i[2]:i[2] + p["n"][2], i[1]:i[1] + p["n"][1], i[0]:i[0] + p["n"][0]] = V
    return L[0]["time"], L[0]["dt"], x, A


def parts(c, n, num):
    out = []
    for r in range(n):
        b = open(c.path("id%d/vp%s.%04d.ds.lis" % (r, "-id%d" % r if r else "", num)), "rb").read()
        nt = struct.unpack_from("<i", b, 48)[0]
        f = "<12fi%df2fq" % nt
        h, o = struct.unpack_from(f, b, 0), struct.calcsize(f)
        out += [struct.unpack_from("<7fiqi", b, o + 44 * q) for q in range(h[-1])]
    return np.array(sorted(x[7:8] + x[:7] for x in out)) if out else np.zeros((0, 8))


def hist(c):
    return np.array([[float(z) for z in l.split()] for l in open(c.path("id0/vp.hst")) if l.strip() and l[0] != "#"])


def lastnum(c):
    return max(int(re.search(r"\.(\d{4})\.bin", f).group(1)) for f in os.listdir(c.path("id0")) if f.endswith(".bin"))


def run(case, ctx):
    t = T[case["prob"]]
    exe = ctx.exes[case["prob"]]
    st, N = case["stop"], 4
    n = int(np.prod(t["deco"]))
    one = (1, 1, 1)

    sig = ["run"]

    def go(c, nr, nlim, deco, det, rst=None):
        if rst:
            r = sim.run_mpi(ctx.sched, exe, nr, c.dir, None, args=["-r", rst, "time/nlim=%d" % nlim], mode=0, timeout=100)
        else:
            r = sim.run_mpi(ctx.sched, exe, nr, c.dir, inputs(ctx.tree.repo, t, deco, nlim, det), mode=0, timeout=100)
        ctx.step(nlim)
        ctx.trace()
        if r.rc:
            ctx.fail(sig[0], "%s (%s) in %s grids, %d steps%s: %s %s %r" % (case["prob"], t["prob"], deco, nlim, " from restart" if rst else "", r.status, r.detail, r.out[-300:]))
            return None
        return r

    def differ(what, a, b, na, nb, tol, skip=0):
        ta, da, xa, A = gather(a, na, lastnum(a))
        tb, db, xb, B = gather(b, nb, lastnum(b))
        if not np.isfinite(B).all():
            return ctx.fail(sig[0], "%s: not finite" % what)
        if A.shape != B.shape or any(np.abs(p - q).max() > 1e-10 * (1 + np.abs(q).max()) for p, q in zip(xa, xb)):
            return ctx.fail(sig[0], "%s: different zones" % what)
        if abs(ta - tb) > tol * tb or abs(da - db) > 10 * tol * db:
            return ctx.fail(sig[0], "%s: time, step %.15g %.15g, not %.15g %.15g" % (what, ta, da, tb, db))
        sc = np.abs(B).reshape(len(B), -1).max(axis=1)
        sc[1:4] = sc[1:4].max()
        if len(sc) > 7:
            sc[-3:] = sc[-3:].max()
        e = np.abs(A - B).reshape(len(B), -1).max(axis=1) / (sc + 1e-3 * sc.max())
        if ctx_show:
            print("SHOW", what, "err %.3g" % e.max())
        if e.max() > tol:
            w = int(e.argmax())
            z = np.unravel_index(np.abs(A - B)[w].argmax(), A.shape[1:])
            return ctx.fail(sig[0], "%s: variable %d of zone %s is %.12g, not %.12g (%.3g relative)" % (what, w, tuple(int(v) for v in z[::-1]), A[w][z], B[w][z], e.max()))
        if "particles" in t["args"]:
            p, q = parts(a, na, lastnum(a)), parts(b, nb, lastnum(b))
            if p.shape != q.shape or len(p) and np.abs(p - q)[:, :7].max() > 1e-5 * (1 + np.abs(q).max()):
                return ctx.fail(sig[0], "%s: other particles" % what)
        h, g = hist(a), hist(b)
        if skip:
            g = g[-len(h):]
        if h.shape != g.shape:
            return ctx.fail(sig[0], "%s: history of %s entries, not %s" % (what, h.shape, g.shape))
        s = np.abs(g).max(axis=0)
        e = np.abs(h - g).max(axis=0) / (s + 1e-4 * s.max())
        if e.max() > max(tol * 100, 1e-8):
            w = int(e.argmax())
            return ctx.fail(sig[0], "%s: history column %d is %s, not %s" % (what, w + 1, h[:, w], g[:, w]))
        return True

    ctx_show = os.environ.get("VP_SHOW")
    with ctx.case() as a, ctx.case() as b, ctx.case() as d, ctx.case() as e, ctx.case() as f, ctx.case() as g:
        # as shipped: stopped and restarted, in one piece and in pieces
        for (x, y, z), nr, dc in (((a, b, g), 1, one),) + ((((d, e, f), n, t["deco"]),) if n > 1 else ()):
            if not go(x, nr, N, dc, False) or not go(y, nr, st, dc, False):
                return
            num = max(int(q.split(".")[1]) for q in os.listdir(y.path("id0")) if q.endswith(".rst"))
            for r in range(nr):
                os.makedirs(z.path("in"), exist_ok=True)
                shutil.copy(y.path("id%d/vp%s.%04d.rst" % (r, "-id%d" % r if r else "", num)), z.path("in"))
            sig[0] = "restart-" + t["prob"]
            if go(z, nr, N, dc, False, "in/vp.%04d.rst" % num):
                differ("%s (%s) in %s grids stopped after %d steps and restarted" % (case["prob"], t["prob"], dc, st), z, x, nr, nr, 1e-12, skip=1)
            sig[0] = "run"
        if n > 1:
            sig[0] = "deco-" + t["prob"]
            if t["det"] == "random":
                return ctx.state(str(case))
            if t["det"] is not None:
                for c_ in (a, d):
                    shutil.rmtree(c_.dir)
                    os.makedirs(c_.dir)
                if not go(a, 1, N, one, True) or not go(d, n, N, t["deco"], True):
                    return
            if not differ("%s (%s) in %s grids" % (case["prob"], t["prob"], t["deco"]), d, a, n, 1, 1e-9):
                return
        ctx.state(str(case))


BOUNDS = ("%d set-ups of 45 problem generators with their shipped inputs, on small grids, 4 steps: in one grid, in 2-8 grids, each stopped after 2 "
          "(thorough 1, 2, 3) steps and restarted; state, particles and history compared" % len(T))
ASSUME = ["problems that place random perturbations or particles per process are compared across decompositions with the perturbation switched off, or not at all",
          "problems written for one grid only (pgflow, shkset2d, shkset3d, cyldiff, and those that read data files) are left out"]
