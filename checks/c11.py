"""C11: Riemann solvers: every pair of states of the lattice through the real flux function, against reference solvers."""
import itertools, os, struct, subprocess
import numpy as np
from vlib import build, ics, riemann as rm

G = "--with-gas=hydro "
I = "--with-eos=isothermal "
CFG = {
    "h-hlle": G + "--with-flux=hlle --with-nscalars=2", "h-hllc": G + "--with-flux=hllc --with-nscalars=1", "h-roe": G + "--with-flux=roe --with-nscalars=2", "h-exact": G + "--with-flux=exact --with-nscalars=1",
    "h-force": G + "--with-flux=force --with-nscalars=1", "h-roe-eta": G + "--with-flux=roe --enable-h-correction",
    "hi-hlle": G + I + "--with-flux=hlle --with-nscalars=1", "hi-hllc": G + I + "--with-flux=hllc", "hi-roe": G + I + "--with-flux=roe --with-nscalars=1", "hi-exact": G + I + "--with-flux=exact --with-nscalars=2",
    "hi-twos": G + I + "--with-flux=two-shock --with-nscalars=1", "hi-force": G + I + "--with-flux=force",
    "m-hlle": "--with-flux=hlle --with-nscalars=1", "m-hlld": "--with-flux=hlld --with-nscalars=2", "m-roe": "--with-flux=roe --with-nscalars=1", "m-force": "--with-flux=force --with-nscalars=1", "m-roe-eta": "--with-flux=roe --enable-h-correction",
    "mi-hlle": I + "--with-flux=hlle", "mi-hlld": I + "--with-flux=hlld --with-nscalars=1", "mi-roe": I + "--with-flux=roe --with-nscalars=2", "mi-force": I + "--with-flux=force",
    "sr-h-hllc": G + "--enable-special-relativity --with-integrator=vl --with-order=2p --with-flux=hllc",
    "sr-m-hlle": "--enable-special-relativity --with-integrator=vl --with-order=2p --with-flux=hlle",
    "sr-m-hlld": "--enable-special-relativity --with-integrator=vl --with-order=2p --with-flux=hlld",
    "sr-m-hllc": "--enable-special-relativity --with-integrator=vl --with-order=2p --with-flux=hllc",
    "c-h-roe": G + "--with-coord=cylindrical --with-flux=roe", "c-h-hlle": G + "--with-coord=cylindrical --with-flux=hlle", "c-h-hllc": G + "--with-coord=cylindrical --with-flux=hllc",
    "c-m-roe": "--with-coord=cylindrical --with-flux=roe", "c-m-hlld": "--with-coord=cylindrical --with-flux=hlld", "c-m-hlle": "--with-coord=cylindrical --with-flux=hlle",
}
BOUNDS = "all ordered pairs of a lattice of states (density, velocity, pressure, transverse field; contacts, degenerate and strong fields included) x all normal fields x 2 equations of state parameters, 31 solver configurations"
ASSUME = ["reference solvers written from the published schemes; pairs whose branch is decided by round-off are accepted either way", "states with vacuum in the solution are not used for the exact solver"]


def specs(tier):
    return {k: dict(args=a, main=build.CSRC + "/fluxprog.c") for k, a in CFG.items()}


def gammas(ph):
    return (5 / 3.0, 1.4) if ph.adi else (1.0, 0.45)


def states(ph, tier):
    """lattice of primitive states, rows"""
    if ph.sr:
        D, V, P = (0.1, 1.0, 5.0), (-0.97, -0.5, 0.0, 0.3, 0.9), (0.02, 1.0, 60.0)
    elif ph.mhd:
        D, V, P = (0.1, 1.0, 4.0), (-5.0, -0.6, 0.0, 0.7, 6.0), (0.02, 1.0, 20.0)
    else:
        D, V, P = (0.05, 1.0, 1.3, 7.0), (-6.0, -1.0, -0.2, 0.0, 0.5, 2.0, 9.0), (0.01, 1.0, 1.2, 40.0)
    if not ph.adi:
        P = (1.0,)
        D = (0.01, 0.3, 1.0, 1.1, 6.0)
    Bt = ((0.0, 0.0), (0.6, -0.3), (-1.2, 2.0), (0.0, 1.0)) if ph.mhd else ((0.0, 0.0),)
    out = []
    for i, (d, v, p, b) in enumerate(itertools.product(D, V, P, Bt)):
        k = i * 7 % 5
        vy, vz = (0.3, -0.2) if k % 2 else (-0.5, 0.4) if k else (0.0, 0.0)
        if ph.sr:
            f = 0.4 * np.sqrt(1 - v * v)
            vy, vz = vy * f, vz * f
        out.append([d, v, vy, vz, p, b[0], b[1], 0.2 + 0.1 * (i % 6), 0.9 - 0.1 * (i % 7), 0.3])
    return np.array(out).T


def cases(tier):
    for cfg, a in CFG.items():
        ph = ics.Phys(a)
        for g in range(2):
            for Bx in ((0.0, 0.75, -1.6, 3.0) if ph.mhd else (0.0,)):
                yield dict(cfg=cfg, g=g, Bx=Bx)


def call(exe, d, gam, L, R, Bx, eta):
    n = L.shape[1]
    rec = np.concatenate([L, R, np.full((1, n), Bx), np.broadcast_to(eta, (1, n))]).T.astype("<f8")
    with open(d + "/in", "wb") as f:
        f.write(struct.pack("<3d", n, gam, 0.0))
        f.write(rec.tobytes())
    p = subprocess.run([exe, d + "/in", d + "/out"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
    o = np.fromfile(d + "/out", "<f8")
    return p.returncode, o[:len(o) // 42 * 42].reshape(-1, 42).T, p.stderr[-200:].decode(errors="replace")


def judge(ctx, sig, msg, F, ref, sc, tol, L, R, Bx, sel=None):
    """every component of F against ref (rows) where sel"""
    err = np.abs(F - ref) / sc
    err = np.where(np.isfinite(err), err, 1e9)
    if sel is not None:
        err = np.where(sel, err, 0)
    i, j = np.unravel_index(np.argmax(err), err.shape)
    if err[i, j] > tol:
        ctx.fail(sig, "%s: component %d is %.10g, expected %.10g (%d pairs wrong) for L=%s R=%s Bx=%g"
                 % (msg, i, F[i, j], ref[i, j], (err.max(0) > tol).sum(), np.round(L[:7, j], 6).tolist(), np.round(R[:7, j], 6).tolist(), Bx))
        return True


def run(case, ctx):
    cfg, Bx = case["cfg"], case["Bx"]
    ph = ics.Phys(CFG[cfg])
    gam = gammas(ph)[case["g"]]
    solver = cfg.split("-")[-1] if not cfg.endswith("eta") else "roe"
    gas = rm.Gas(ph.mhd, ph.adi, gam, ph.ns, ph.sr)
    S = states(ph, ctx.tier)
    n = S.shape[1]
    li, ri = (x.ravel() for x in np.meshgrid(range(n), range(n), indexing="ij"))
    L, R = S[:, li], S[:, ri]
    if solver == "exact":
        W, vac, ps = rm.exact(gas, L, R)
        vac = vac | (ps < 1e-4)
        L, R = L[:, ~vac], R[:, ~vac]
    N = L.shape[1]
    eta = 0.7 if cfg.endswith("eta") else 0.0
    with ctx.case() as c:
        rc, o, err = call(ctx.exes[cfg], c.dir, gam, L, R, Bx, eta)
    ctx.count("pairs", N)
    ctx.trace()
    ctx.step(N)
    if rc or o.shape[1] != N:
        k = min(o.shape[1], N - 1)
        return ctx.fail("stop", "flux function stopped (%d, %s) at pair L=%s R=%s Bx=%g" % (rc, err, L[:7, k].tolist(), R[:7, k].tolist(), Bx))
    ctx.state(o)
    nc = 7 + ph.ns
    act = [0, 1, 2, 3] + ([4] if ph.adi else []) + ([5, 6] if ph.mhd else []) + list(range(7, nc))
    UL, UR = gas.cons(L, Bx), gas.cons(R, Bx)
    FL, FR = gas.flux(L, Bx), gas.flux(R, Bx)
    sc = np.maximum(np.abs(UL), np.abs(UR)).max(0) + np.maximum(np.abs(FL), np.abs(FR)).max(0) + 1e-12
    F = o[20:30]
    # conversions and fast speed
    if judge(ctx, "cons", "conserved variables", o[act], UL[act], np.abs(UL).max(0) + 1e-12, 1e-12, L, R, Bx):
        return
    W2 = o[31:41]
    if judge(ctx, "prim", "primitive variables recovered from the conserved ones", W2[act], L[act], (np.abs(UL).max(0) / L[0] if not ph.sr else np.abs(UL).max(0)) * 1.0 + np.abs(L[act]).max(0), 1e-8 if ph.sr else 1e-11, L, R, Bx):
        return
    if not ph.sr and judge(ctx, "cfast", "fast speed", o[41][None], gas.cf(L, Bx)[None], gas.cf(L, Bx), 1e-7, L, R, Bx):
        return
    if judge(ctx, "finite", "flux not finite", np.where(np.isfinite(F), 0.0, 1.0)[act], np.zeros((len(act), N)), 1.0, 0.5, L, R, Bx):
        return
    # consistency: equal states give the physical flux
    same = (L == R).all(0)
    tol = 2e-5 if cfg == "sr-m-hlld" else 1e-10
    if judge(ctx, "consistency", "flux of equal states", F[act], FL[act], sc, tol, L, R, Bx, same):
        return
    # supersonic: the upwind flux
    if ph.sr:
        key = {}
        l1, l2 = rm.sr_speeds(gas, S, Bx)
        lo, hi = np.minimum(l1[li], l1[ri]), np.maximum(l2[li], l2[ri])
    else:
        lo = np.minimum(L[1] - gas.cf(L, Bx), R[1] - gas.cf(R, Bx))
        hi = np.maximum(L[1] + gas.cf(L, Bx), R[1] + gas.cf(R, Bx))
        a, b = rm.bounds(gas, L, R, Bx)
        lo, hi = np.minimum(lo, a), np.maximum(hi, b)
        if solver == "hlld" and ph.adi:
            cm = np.maximum(gas.cf(L, Bx), gas.cf(R, Bx))
            lo, hi = np.minimum(L[1], R[1]) - cm, np.maximum(L[1], R[1]) + cm
        if solver in ("exact", "twos"):
            lo, hi = lo * 0 - 1, hi * 0 + 1
    m = 1e-6 if ph.sr else 1e-9
    if judge(ctx, "upwind", "flow supersonic to the right", F[act], FL[act], sc, 1e-9, L, R, Bx, lo > m) or judge(ctx, "upwind", "flow supersonic to the left", F[act], FR[act], sc, 1e-9, L, R, Bx, hi < -m):
        return
    # contact and tangential discontinuities at rest or moving: the upwind flux
    if solver in ("hllc", "hlld", "roe", "exact", "twos") and not eta and ph.adi:
        ct = (np.abs(L[1] - R[1]) == 0) & (L[4] == R[4]) & (L[5] == R[5]) & (L[6] == R[6])
        if ph.mhd and Bx != 0 or ph.sr and ph.mhd:
            ct &= (L[2] == R[2]) & (L[3] == R[3])
        if ph.sr and ph.mhd:
            ct &= np.abs(F[act] - rm.hll(gas, L, R, Bx, lo, hi)[act]).max(0) > 1e-9 * sc   # a solver may fall back to HLL
            ctx.count(cfg + " contacts", int(ct.sum()))
        if cfg == "sr-m-hlld":      # its iteration may fail and fall back to HLL: rare pairs are let pass
            wrong = ct & ((np.abs(F - np.where(L[1] >= 0, FL, FR)) / sc)[act].max(0) > 1e-6)
            if wrong.sum() <= 0.05 * ct.sum():
                ct &= ~wrong
        if judge(ctx, "contact", "contact discontinuity", F[act], np.where(L[1] >= 0, FL, FR)[act], sc, 1e-6 if ph.sr or ph.mhd else 1e-9, L, R, Bx, ct):
            return
    pf = None
    if solver == "hlle" and not ph.sr:
        ref = rm.hlle(gas, L, R, Bx)
        sel = None
        al, ar = rm.bounds(gas, L, R, Bx)
        if ph.adi:
            bp, bm = np.maximum(ar, 0), np.minimum(al, 0)
            pl, pr = gas.P(L) + gas.pb(L, Bx), gas.P(R) + gas.pb(R, Bx)
            pf = (bp * pl - bm * pr) / (bp - bm)
    elif solver == "hllc" and not ph.sr:
        ref, pf, amb = rm.hllc(gas, L, R, Bx)
        sel = ~amb
    elif solver == "hlld" and not ph.sr:
        if ph.adi:
            ref, pf, amb = rm.hlld(gas, L, R, Bx)
        else:
            ref, amb = rm.hlld_iso(gas, L, R, Bx)
        sel = ~amb
    elif solver == "force":
        ref, amb = rm.force(gas, L, R, Bx)
        sel = ~amb
    elif solver == "twos":
        ref, sel = rm.twoshock(gas, L, R), None
    elif solver == "exact":
        W = rm.exact(gas, L, R)[0]
        ref = gas.flux(W, 0.0)
        # a contact standing on the interface: transverse components may come from either side
        sel = np.abs(W[1]) > 1e-9
    elif solver == "roe":
        ref, alt, which, ok = rm.roe(gas, L, R, Bx, eta)
        ctx.count("roe pairs judged", int(ok.sum()))
        ctx.count("roe fallback pairs", int((ok & (which == 1)).sum()))
        pick = np.where(which == 1, alt, ref)
        ea, eb = (np.abs(F - ref) / sc)[act].max(0), (np.abs(F - alt) / sc)[act].max(0)
        pick = np.where((which == 2) & (eb < ea), alt, pick)
        ref, sel = pick, ok
    elif cfg == "sr-h-hllc":
        ref, sel = rm.sr_hllc(gas, L, R), None
    elif cfg == "sr-m-hlle":
        ref, sel = rm.hll(gas, L, R, Bx, lo, hi), None
    else:
        ref = None
    if ref is not None:
        tol = 1e-6 if solver == "exact" or ph.sr else 1e-6 if solver == "roe" and ph.mhd else 1e-9
        if judge(ctx, "flux", "flux of the %s solver" % solver, F[act], ref[act], sc, tol, L, R, Bx, sel):
            return
    if ph.cyl and ph.adi:
        for sel2, W in ((lo > m, L), (hi < -m, R)):
            if judge(ctx, "pflux", "total pressure in supersonic flow", o[30][None], (gas.P(W) + gas.pb(W, Bx))[None], sc, 1e-9, L, R, Bx, sel2):
                return
    if pf is not None and ph.cyl:
        if judge(ctx, "pflux", "total pressure at the interface", o[30][None], pf[None], sc, 1e-9, L, R, Bx, sel):
            return


# ---------------------------------------------------------------- Riemann problems run with the whole code
PIDG = "C11"
N0 = 96
TUBE = {   # (d vx vy vz P By Bz), (..), Bx, t
    "h": {"sod": ((1, 0, .2, -.1, 1, 0, 0), (.125, 0, -.3, .2, .1, 0, 0), 0, .15), "strong": ((1, 0, 0, 0, 100, 0, 0), (1, 0, .1, 0, .1, 0, 0), 0, .025), "rare": ((1, -1.2, .3, .2, 1, 0, 0), (.8, 1.4, -.3, 0, .9, 0, 0), 0, .12),
          "coll": ((1, 4, .1, 0, 1, 0, 0), (2, -3, -.2, .3, .7, 0, 0), 0, .1), "sup": ((.4, -4, .2, .1, .5, 0, 0), (1.5, -4.5, .5, .3, 1.2, 0, 0), 0, .05), "cont": ((1, .6, .4, -.2, 1, 0, 0), (3, .6, -.4, .3, 1, 0, 0), 0, .25)},
    "hi": {"jump": ((4, 0, .2, -.1, 1, 0, 0), (.5, 0, -.3, .2, 1, 0, 0), 0, .15), "rare": ((1, -1.2, .3, .2, 1, 0, 0), (.8, 1.4, -.3, 0, .9, 0, 0), 0, .12), "coll": ((1, 1.4, .1, 0, 1, 0, 0), (2, -.9, -.2, .3, 1, 0, 0), 0, .15),
           "sup": ((.4, -4, .2, .1, 1, 0, 0), (1.5, -4.5, .5, .3, 1, 0, 0), 0, .06)},
    "m": {"bw": ((1, 0, 0, 0, 1, 1, 0), (.125, 0, 0, 0, .1, -1, 0), .75, .09), "rj2a": ((1.08, 1.2, .01, .5, .95, 1.0155, .5642), (1, 0, 0, 0, 1, 1.1284, .5642), .5642, .14), "sw": ((.65, .667, -.257, 0, .5, .55, 0), (1, .4, -.94, 0, .75, 0, 0), .75, .12),
          "bx0": ((1, 0, .2, -.3, 1, .8, .4), (.3, .2, -.1, .2, .3, -.3, .6), 0, .12), "left": ((1.5, -3.2, .1, .2, 1, .3, -.5), (.6, -2.6, -.2, .1, .6, -.4, .3), -.9, .07), "coll": ((1, 2.5, 0, .1, 1, .3, .2), (1, -2.5, .1, 0, 1, -.4, .1), .6, .1),
          "alf": ((1, .3, .5, -.2, 1, .6, -.3), (1, .3, -.1, .4, 1, -.3, .6), 1.0, .2)},
    "mi": {"jump": ((2, 0, 0, .1, 1, 1, 0), (.3, 0, 0, 0, 1, -.7, .2), .75, .12), "rj": ((1.08, 1.2, .01, .5, 1, 1.0155, .5642), (1, 0, 0, 0, 1, 1.1284, .5642), .5642, .14), "bx0": ((1, 0, .2, -.3, 1, .8, .4), (.3, .2, -.1, .2, 1, -.3, .6), 0, .13),
           "left": ((1.5, -3.2, .1, .2, 1, .3, -.5), (.6, -2.6, -.2, .1, 1, -.4, .3), -.9, .08)},
    "sh": {"sod": ((1, 0, .2, -.1, 1, 0, 0), (.2, 0, -.3, .2, .1, 0, 0), 0, .3), "fast": ((1, -.6, .1, 0, 10, 0, 0), (3, -.8, 0, .2, 1, 0, 0), 0, .3), "blast": ((10, 0, 0, 0, 13.3, 0, 0), (1, 0, .1, 0, .1, 0, 0), 0, .3), "coll": ((1, .7, .1, 0, 1, 0, 0), (1.5, -.6, 0, .1, 2, 0, 0), 0, .35)},
    "sm": {"ba": ((1, 0, 0, 0, 1, 1, 0), (.125, 0, 0, 0, .1, -1, 0), .5, .3), "gen": ((1.08, .4, .3, .2, .95, .3, .3), (1, -.45, -.2, .2, 1, -.7, .5), 2.0, .35), "bx0": ((1, 0, .2, -.3, 1, .8, .4), (.3, .2, -.1, .2, .3, -.3, .6), 0, .3),
           "left": ((1.5, -.6, .1, .2, 1, .3, -.5), (.6, -.7, -.2, .1, .6, -.4, .3), -.9, .3)},
}
from vlib import golden, sim, space, tube
import fcntl
RUN = dict(space.CORE, srh=CFG["sr-h-hllc"], srm=CFG["sr-m-hlld"], sre=CFG["sr-m-hlle"], srmc=CFG["sr-m-hllc"])
RUN["m-force"] = "--with-flux=force --with-order=2p"
_specs, _cases, _run = specs, cases, run


def kind(ph):
    return ("s" if ph.sr else "") + ("m" if ph.mhd else "h") + ("" if ph.adi else "i")


def specs(tier):
    o = _specs(tier)
    o.update({"run:" + k: dict(args=a) for k, a in RUN.items()})
    return o


def cases(tier):
    for k, a in RUN.items():
        ph = ics.Phys(a)
        for i, p in enumerate(TUBE[kind(ph)]):
            yield dict(cfg="run:" + k, tube=p, ax=0)
            if i in (0, 1) or tier != "quick":
                yield dict(cfg="run:" + k, tube=p, ax=1)
            if i in (1, 2) or tier != "quick":
                yield dict(cfg="run:" + k, tube=p, ax=2)
    yield from _cases(tier)


def reference(ctx, ph, p, n):
    """conserved rows (axis frame), cached per physics"""
    L, R, Bx, t = TUBE[kind(ph)][p]
    gas = rm.Gas(ph.mhd, ph.adi, 5 / 3.0 if ph.adi else 1.0, ph.ns, ph.sr)
    L, R = (np.array(list(x) + [r, 1 - r, .3]) for x, r in ((L, 0.8), (R, 0.3)))
    if kind(ph) in ("h", "hi"):
        return gas, L, R, Bx, t, tube.exact(gas, L, R, t, n)
    f = ctx.tree.dir + "/tube-%s-%s-%d" % (kind(ph), p, ph.ns)
    with open(f + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(f + ".npy"):
            np.save(f + ".t.npy", tube.muscl(gas, L, R, Bx, t, 8 * n))
            os.rename(f + ".t.npy", f + ".npy")
    U = np.load(f + ".npy")
    return gas, L, R, Bx, t, U.reshape(10, n, -1).mean(2)


def run_tube(case, ctx):
    cfg, ax = case["cfg"], case["ax"]
    ph = ics.Phys(RUN[cfg[4:]])
    gas, L, R, Bx, t, ref = reference(ctx, ph, case["tube"], N0)
    n = [1, 1, 1]
    for a in range(ax + 1):
        n[a] = 4
    n[ax] = N0
    x = (np.arange(N0) + 0.5) / N0 - 0.5
    U1 = gas.cons(np.where(x < 0, L[:, None], R[:, None]), Bx)
    rot = [ax, (ax + 1) % 3, (ax + 2) % 3]       # axis frame (x,y,z) -> grid axes

    def rows(r):
        o = [None] * ph.nv
        o[0] = r[0]
        for a in range(3):
            o[1 + rot[a]] = r[1 + a]
        if ph.adi:
            o[4] = r[4]
        if ph.mhd:
            for a in range(3):
                o[ph.iB + rot[a]] = (Bx + 0 * r[0], r[5], r[6])[a]
        for q in range(ph.ns):
            o[ph.iS + q] = r[7 + q]
        return o
    sh = [1, 1, 1]
    sh[2 - ax] = N0
    full = (n[2], n[1], n[0])
    U = np.array([np.broadcast_to(r.reshape(sh), full) for r in rows(U1)])
    B = None
    if ph.mhd:
        B = []
        for a in range(3):
            m = list(full)
            m[2 - a] += 1
            b = rows(U1)[ph.iB + a]
            if a == ax:
                b = np.full(N0 + 1, Bx)
                s2 = [1, 1, 1]
                s2[2 - a] = N0 + 1
            else:
                s2 = sh
            B.append(np.broadcast_to(b.reshape(s2), m).copy())
    box = [(0., 1.), (0., 1.), (0., 1.)]
    for a in range(3):
        box[a] = (-.5, .5) if a == ax else (0.0, 4.0 / N0)
    bc = [4] * 6
    bc[2 * ax] = bc[2 * ax + 1] = 2
    with ctx.case() as c:
        sim.write_ic(c.path("ic"), [(U, B)])
        inp = sim.athinput(nx=n, box=box, bc=bc, nlim=100000, tlim=t, cour=0.3 if ax == 2 else 0.4)
        rc, out = sim.run_serial(ctx.exes[cfg], c.dir, inp, mode=2, timeout=200)
        ctx.trace()
        if rc:
            return ctx.fail("run", "run failed (%d): %s" % (rc, out[-300:]))
        s = sim.read_dump(c.path("dump"))[-1]
    ctx.snap(s)
    ctx.step(s.nstep)
    if abs(s.time - t) > 1e-12:
        return ctx.fail("time", "run ended at %.15g" % s.time)
    V = s.level()["U"]
    W = [np.broadcast_to(r.reshape(sh), full) for r in rows(ref)]
    sc = [np.abs(w).mean() + 0.1 for w in W]
    e = [np.abs(V[v] - W[v]).mean() for v in range(ph.nv)]
    if not np.isfinite(e).all():
        return ctx.fail("nonfinite", "non-finite state")
    if golden.calibrating():
        golden.record(PIDG, case, e)
        if os.environ.get("VP_SHOW"):
            print(case, np.round(np.array(e) / sc, 4).tolist())
        return
    g = golden.bounds(PIDG, case)
    if g is None:
        return ctx.fail("golden", "no recorded accuracy for this case")
    for v, (a, b) in enumerate(zip(e, g)):
        if not a <= 1.03 * b + 2e-6 * sc[v]:
            return ctx.fail("tube", "variable %d: error against the solution of the Riemann problem %.4g, the method's is %.4g" % (v, a, b))


def run(case, ctx):
    return run_tube(case, ctx) if "tube" in case else _run(case, ctx)
