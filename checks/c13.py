"""C13: the timestep: CFL limit over every cell, direction, level and particle, diffusive limits, growth limit, exact end time."""
import glob
import numpy as np
from vlib import ics, sim, space

BOUNDS = ("16 configurations; the limiting cell at every position of a mesh (1-3 dimensions, every level of a refined mesh) x 9 ways of being the fastest, the limiting particle in every direction; lattices stepped 4 times with every "
          "(state, dt) pair judged; 10 end times x 3 step limits; growth limit after every Courant number change; diffusive limits for every coefficient and dimension")
ASSUME = ["the fast speed is evaluated with the larger of the cell-centred and left-face fields, as the code does",
          "diffusive limits: C dx^2/(4,8,6) for 1,2,3 dimensions over the largest coefficient"]
CFG = {
    "h": "--with-gas=hydro", "hi": "--with-gas=hydro --with-eos=isothermal --with-order=3", "m": "", "mi": "--with-eos=isothermal", "mvl": "--with-integrator=vl --with-order=2p --with-flux=hlld",
    "hcyl": "--with-gas=hydro --with-coord=cylindrical", "mcyl": "--with-coord=cylindrical",
    "sr": "--enable-special-relativity --with-gas=hydro --with-integrator=vl --with-order=2p --with-flux=hllc",
    "part": "--with-particles=passive --with-gas=hydro --with-eos=isothermal",
    "smrh": "--enable-smr --with-gas=hydro", "smrm": "--enable-smr",
    "visc": "--with-gas=hydro --enable-viscosity --enable-conduction", "res": "--enable-resistivity --enable-conduction", "smrres": "--enable-smr --enable-resistivity",
    "smrvisc": "--enable-smr --with-gas=hydro --enable-viscosity", "resi": "--enable-resistivity --with-eos=isothermal", "sts": "--enable-resistivity --enable-sts --enable-conduction",
}
HOT = ["v1+", "v1-", "v2+", "v2-", "v3+", "v3-", "p", "d", "d-"]
SZ = {1: (8, 1, 1), 2: (5, 6, 1), 3: (4, 5, 4)}
DXS = (0.11, 0.08, 0.13)
RATIO = [1.00000000, 3.08215298, 6.88968591, 12.22069494, 19.07497343, 27.45247186, 37.35317345, 48.77707124, 61.72416193, 76.19444378, 92.18791578, 109.7045774]


def specs(tier):
    return {k: dict(args=a) for k, a in CFG.items()}


def cases(tier):
    for cfg in CFG:
        ph = ics.Phys(CFG[cfg])
        if cfg == "sr":
            for nd in (1, 2, 3):
                for sc in range(3):
                    yield dict(cfg=cfg, kind="lat", nd=nd, pat=1, sc=sc)
            continue
        if cfg in ("visc", "res", "smrres", "smrvisc", "resi", "sts"):
            P = {"visc": ["nu_iso", "kappa_iso", "kappa_aniso"][:2], "res": ["eta_O", "Q_H", "Q_A", "kappa_iso", "kappa_aniso"], "smrres": ["eta_O", "Q_H", "Q_A"], "smrvisc": ["nu_iso"],
                 "resi": ["eta_O", "Q_H", "Q_A"], "sts": ["eta_O", "Q_A", "kappa_iso", "kappa_aniso"]}[cfg]
            for nd in (1, 2, 3):
                for p in P:
                    if p == "kappa_aniso" and nd == 1:
                        continue
                    for val in (0.001, 0.3, 3.0, 40.0):
                        if cfg != "sts" and val > 1:
                            continue
                        for sc in range(3):
                            yield dict(cfg=cfg, kind="lat", nd=nd, pat=1, prob={p: val}, smr=cfg.startswith("smr"), sc=sc)
                if len(P) > 1:
                    yield dict(cfg=cfg, kind="lat", nd=nd, pat=2, prob={p: 0.1 + 0.1 * q for q, p in enumerate(P) if nd > 1 or p != "kappa_aniso"}, smr=cfg.startswith("smr"), sc=0)
            continue
        for nd in (1, 2, 3):
            smr = cfg.startswith("smr")
            for q in range(4 if tier == "quick" else 20):
                for sc in range(3):
                    yield dict(cfg=cfg, kind="lat", nd=nd, pat=q + 1, smr=smr, sc=sc)
            n = np.prod(SZ[nd])
            if cfg == "part":
                for a in range(nd):
                    for s in (-1, 1):
                        for q in range(6):
                            yield dict(cfg=cfg, kind="hot", nd=nd, hot="par%d%s" % (a, "+" if s > 0 else "-"), pos=q)
                continue
            for hot in HOT:
                if hot[0] == "v" and int(hot[1]) > nd or hot == "p" and not ph.adi or hot in ("d", "d-") and not (ph.mhd or ph.adi):
                    continue
                lv = (0, 1, 2) if smr else (0,)
                for L in lv:
                    st = 1 if not smr else 5
                    for pos in range(0, n if L == 0 else 64, st if tier == "quick" else 1):
                        yield dict(cfg=cfg, kind="hot", nd=nd, hot=hot, pos=pos, smr=smr, lev=L)
        for nd in (1, 2, 3):
            for t in (0.3, 0.999999, 1.0, 1.000001, 1.5, 1.9, 2.7, 5.2, 1e-9, 3e-14):
                for nl in (-1, 1, 3):
                    if cfg in ("h", "mi", "smrm", "part"):
                        yield dict(cfg=cfg, kind="tlim", nd=nd, t=t, nlim=nl, smr=cfg.startswith("smr"), pat=1)
            if cfg in ("h", "mi", "smrm", "part"):
                for c1 in (0.02, 0.1, 0.3):
                    for c2 in (0.02, 0.15, 0.45):
                        yield dict(cfg=cfg, kind="grow", nd=nd, c1=c1, c2=c2, smr=cfg.startswith("smr"), pat=1)


def doms(nd):
    n = [x * 2 if x > 1 else 1 for x in SZ[nd]]
    n = {1: (16, 1, 1), 2: (12, 14, 1), 3: (8, 10, 8)}[nd]
    a = [max(2, n[d] // 2 // 2 * 2) * 1 if n[d] > 1 else 0 for d in range(3)]
    d1 = dict(level=1, nx=tuple(8 if x > 1 else 1 for x in n), disp=tuple(4 if x > 1 else 0 for x in n))
    d2 = dict(level=2, nx=tuple(8 if x > 1 else 1 for x in n), disp=tuple(12 if x > 1 else 0 for x in n))
    return n, [d1, d2]


SC = [(1, 1, 1), (1, 2.5, 0.6), (1, 0.4, 2.2)]


def setup(case, ph):
    nd = case["nd"]
    n, dd = (SZ[nd], []) if not case.get("smr") else doms(nd)
    sc = SC[case.get("sc", 0)]
    lo = [0.2, 0.3, 0.4]
    if ph.cyl:
        lo[0] = 1.0
    box = [(lo[d], lo[d] + DXS[d] * sc[d] * n[d]) for d in range(3)]
    return n, dd, box


def start(case, ph, n, dd, box):
    nl = 1 + max([d["level"] for d in dd], default=0)
    L = []
    for l in range(nl):
        m = tuple(x * 2 ** l if x > 1 else 1 for x in n)
        dx = [(box[d][1] - box[d][0]) / m[d] for d in range(3)]
        pat = case.get("pat", 1)
        U, B = ics.lattice(ph, m, box, pat=pat + 5 * l, amp=0.5, cyl=ph.cyl)
        L.append([U, B])
    if ph.mhd and nl > 1:
        from vlib import scenes
        for l in range(nl - 2, -1, -1):
            m = tuple(x * 2 ** l if x > 1 else 1 for x in n)
            f = scenes.restrict_faces(L[l + 1][1], m)
            L[l] = [scenes.replaceB(ph, L[l][0].copy(), m, f), f]
    return L


def dtref(ph, s, case, box, n, cour, gamma=5. / 3., cs=1.0, prob=None):
    """-> (CFL timestep, diffusive timestep or None) of a snapshot"""
    g1 = gamma - 1
    best, diff = 0.0, 0.0
    prob = prob or {}
    lmax = max(g.level for g in s.grids)
    nd = sum(x > 1 for x in n)
    for g in s.grids:
        lev = 2.0 ** g.level
        dx = [(box[d][1] - box[d][0]) / n[d] / (lev if n[d] > 1 else 1) for d in range(3)]
        sl = tuple(slice(g.gl[d], g.gl[d] + g.nx[d]) for d in (2, 1, 0))
        U = g.U[(slice(None),) + sl]
        if ph.sr:
            best = max(best, max(1.0 / dx[d] for d in range(3) if n[d] > 1))
            continue
        d = U[0]
        v = [U[1 + a] / d for a in range(3)]
        q2 = sum(x * x for x in v)
        if ph.mhd:
            b = []
            for a in range(3):
                bc = U[ph.iB + a]
                b.append(np.abs(bc) + np.abs(g.B[a][sl] - bc))
            b2 = sum(x * x for x in b)
        else:
            b = [0 * d] * 3
            b2 = 0 * d
        a2 = gamma * np.maximum(g1 * (U[4] - 0.5 * d * q2 - 0.5 * b2), 1e-20) / d if ph.adi else cs * cs + 0 * d
        for a in range(3):
            if n[a] == 1:
                continue
            bt = b2 - b[a] ** 2
            cf = np.sqrt(0.5 * (b2 / d + a2 + np.sqrt((b2 / d - a2) ** 2 + 4 * a2 * bt / d)))
            w = (np.abs(v[a]) + cf) / dx[a]
            if ph.cyl and a == 1:
                R = box[0][0] + (g.disp[0] + np.arange(g.nx[0]) + 0.5) * dx[0]
                w = w / R[None, None, :]
            best = max(best, w.max())
            if g.P is not None and len(g.P):
                best = max(best, np.abs(g.P[:, 6 + a]).max() / dx[a])
        dm = min(dx[k] for k in range(3) if n[k] > 1 or k == 0)
        qa = dm * dm / {1: 4.0, 2: 8.0, 3: 6.0}[nd]
        if g.level == lmax:
            for pair in (("kappa_iso", "kappa_aniso"), ("nu_iso", "nu_aniso")):
                diff = max(diff, sum(prob.get(x, 0.0) for x in pair) / qa)
        if ph.mhd:
            B2 = sum(U[ph.iB + a] ** 2 for a in range(3))
            diff = max(diff, ((prob.get("eta_O", 0.0) + prob.get("Q_A", 0.0) * B2 / d) / qa).max(), (prob.get("Q_H", 0.0) * np.sqrt(B2) / qa).max())
    return cour / best, cour / diff if diff else None


def judge(case, ctx, ph, S, box, n, cour, tlim, prob, first=True):
    old, sts = None, "--enable-sts" in CFG[case["cfg"]]
    seen = set()
    for s in S:
        if s.nstep in seen:
            continue
        seen.add(s.nstep)
        ctx.snap(s)
        ctx.step()
        if not all(np.isfinite(g.U).all() for g in s.grids):
            return ctx.fail("nonfinite", "non-finite state")
        if any(g.dt != s.dt or g.time != s.time for g in s.grids):
            return ctx.fail("grids", "step %d: time or timestep of a grid differs from that of the mesh" % s.nstep)
        ref, diff = dtref(ph, s, case, box, n, cour, prob=prob)
        why = "CFL"
        if s.nstep > 0 and old is not None and 2 * old < ref:
            ref, why = 2 * old, "growth"
        if s.nstep > 0 and old is None:
            old = s.dt
            continue
        if s.time < tlim and tlim - s.time < ref:
            ref, why = tlim - s.time, "end time"
        if diff is not None:
            if not sts:
                if diff < ref:
                    ref, why = diff, "diffusion"
            elif ref > RATIO[-1] * diff:
                ref, why = RATIO[-1] * diff, "diffusion (super-time-stepping)"
        e = abs(s.dt - ref) / ref
        if not e < 1e-10:
            ctx.fail("dt", "step %d: timestep %.12g, expected %.12g (%s)" % (s.nstep, s.dt, ref, why))
            return False
        ctx.count(why)
        old = s.dt
    return True


def run(case, ctx):
    ph = ics.Phys(CFG[case["cfg"]])
    n, dd, box = setup(case, ph)
    L = start(case, ph, n, dd, box)
    exe = ctx.exes[case["cfg"]]
    parts = []
    if ph.part:
        rng = np.random.RandomState(5)
        for q in range(6):
            x = [box[d][0] + (box[d][1] - box[d][0]) * rng.uniform(0.05, 0.95) if n[d] > 1 else 0.0 for d in range(3)]
            parts.append([0, q] + x + list(rng.uniform(-0.3, 0.3, 3)))
    cour = 0.3
    kind = case["kind"]
    if kind == "hot":
        hot, pos = case["hot"], case["pos"]
        if hot.startswith("par"):
            parts[pos][5 + int(hot[3])] = 9.0 if hot[4] == "+" else -9.0
        else:
            lev = case.get("lev", 0)
            U = L[lev][0].copy()
            m = U.shape[1:]
            if lev == 0:
                i0 = pos % (m[0] * m[1] * m[2])
                if case.get("smr"):     # a cell outside the refined region
                    i0 = (pos * 7) % (m[0] * m[1] * m[2])
                idx = np.unravel_index(i0, m)
            else:
                D = dd[lev - 1]
                nn = [D["nx"][d] for d in (2, 1, 0)]
                p_ = np.unravel_index((pos * 3) % int(np.prod(nn)), nn)
                idx = tuple(p_[q] + D["disp"][2 - q] for q in range(3))
            d = U[(0,) + idx]
            if hot[0] == "v":
                a = int(hot[1])
                old = U[(a,) + idx]
                new = d * (7.0 if hot[2] == "+" else -7.0)
                if ph.adi:
                    U[(4,) + idx] += 0.5 * (new * new - old * old) / d
                U[(a,) + idx] = new
            elif hot == "p":
                U[(4,) + idx] += 40.0
            else:
                f = 0.02
                if hot == "d-":
                    f = 0.05
                for v in [0, 1, 2, 3]:
                    U[(v,) + idx] *= f
                if ph.adi:
                    ke = 0.5 * sum(U[(v,) + idx] ** 2 for v in (1, 2, 3)) / U[(0,) + idx]
                    U[(4,) + idx] -= ke / f - ke
            L[lev][0] = U
    with ctx.case() as c:
        sim.write_ic(c.path("ic"), [tuple(x) for x in L], parts)
        prob = dict(case.get("prob", {}))
        for opt, k in (("conduction", "kappa_iso"), ("resistivity", "eta_O"), ("viscosity", "nu_iso")):
            if "--enable-" + opt in CFG[case["cfg"]]:
                prob.setdefault(k, 1e-6)
        pb = dict(npartypes=1, parnumcell=1, tsmode=3, interp=2, integrator=2) if ph.part else None
        out = [dict(n=1, name="vpdump", dt=1e-15)]
        if kind in ("hot", "lat"):
            nlim = 0 if kind == "hot" else 4
            inp = sim.athinput(nx=n, box=box, bc=(4,) * 6 if not ph.cyl else (2, 2, 4, 4, 4, 4), nlim=nlim, cour=cour, domains=dd, outputs=out, problem=prob, particle=pb)
            rc, o = sim.run_serial(exe, c.dir, inp, mode=0)
            ctx.trace()
            if rc:
                return ctx.fail("run", "run failed (%d): %s" % (rc, o[-300:]))
            S = sim.read_dump(c.path("dump"))
            judge(case, ctx, ph, S, box, n, cour, 1e9, prob)
            if kind == "lat" and len({s.nstep for s in S}) != 5:
                ctx.fail("steps", "wrong number of states")
            return
        if kind == "tlim":
            inp = sim.athinput(nx=n, box=box, nlim=0, cour=cour, domains=dd, outputs=out, problem=prob, particle=pb)
            rc, o = sim.run_serial(exe, c.dir, inp, mode=0, dump="d0")
            dt0 = sim.read_dump(c.path("d0"))[0].dt
            tl = case["t"] * dt0
            inp = sim.athinput(nx=n, box=box, nlim=case["nlim"], tlim=tl, cour=cour, domains=dd, outputs=out, problem=prob, particle=pb)
            rc, o = sim.run_serial(exe, c.dir, inp, mode=0)
            ctx.trace()
            if rc:
                return ctx.fail("run", "run failed (%d): %s" % (rc, o[-300:]))
            S = sim.read_dump(c.path("dump"))
            if not judge(case, ctx, ph, S, box, n, cour, tl, prob):
                return
            last = S[-1]
            if 0 <= case["nlim"] < last.nstep:
                return ctx.fail("nlim", "%d steps taken with a limit of %d" % (last.nstep, case["nlim"]))
            if case["nlim"] < 0 or last.nstep < case["nlim"]:
                if not abs(last.time - tl) <= 4e-16 * tl:
                    return ctx.fail("tlim", "run ended at time %.17g instead of %.17g" % (last.time, tl))
            if last.time > tl * (1 + 4e-16):
                return ctx.fail("tlim", "run went beyond its end time")
            if len([s for s in S[:-1] if s.time >= tl]) > 1:
                return ctx.fail("tlim", "run went on after its end time")
            return
        # growth limit: restart with another Courant number
        inp = sim.athinput(nx=n, box=box, nlim=3, cour=case["c1"], domains=dd, outputs=out + [dict(n=2, out_fmt="rst", dt=1e-15)], problem=prob, particle=pb)
        rc, o = sim.run_serial(exe, c.dir, inp, mode=0)
        ctx.trace()
        fs = sorted(glob.glob(c.path("vp.*.rst")))
        if rc or not fs:
            return ctx.fail("run", "run failed (%d): %s" % (rc, o[-300:]))
        rc, o = sim.run_serial(exe, c.dir, None, args=["-r", fs[-1], "time/nlim=9", "time/cour_no=%r" % case["c2"]], mode=0, dump="d2")
        ctx.trace()
        if rc:
            return ctx.fail("run", "restarted run failed (%d): %s" % (rc, o[-300:]))
        S2 = sim.read_dump(c.path("d2"))
        judge(case, ctx, ph, S2, box, n, case["c2"], 1e9, prob)
        if S2[-1].nstep != 9:
            ctx.fail("steps", "restarted run ended at step %d instead of 9" % S2[-1].nstep)
