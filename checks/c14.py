"""C14: refined meshes: conservation across levels, divergence-free fields on every level, agreement of the levels where
they overlap, exact uniform flow, exact prolongation of linear data, independence of orientation, smooth flow not degraded."""
import numpy as np
from checks import c09
from vlib import cmp, ics, scenes, sim

BOUNDS = ("11 configurations x 12 refinement layouts (1-3 dimensions, up to 4 levels, up to 3 domains on a level, domains touching physical boundaries) x "
          "{unrelated-value lattices, uniform flow, linear data, smooth advection} x 3 boundary sets, all permutations and reflections, 3 steps, every state judged")
ASSUME = ["initial data on fine levels are restricted to coarse ones by the code at start (first judged state)",
          "prolongation is judged in ghost zones that adjoin faces of a fine domain",
          "orientation cases whose answer is changed comparably by a round-off change of the start are not judged"]
TOL = 2e-12
CFG = {
    "h": "--enable-smr --with-gas=hydro --with-nscalars=1",
    "hvl": "--enable-smr --with-gas=hydro --with-integrator=vl --with-order=2p --with-nscalars=2",
    "hi": "--enable-smr --with-gas=hydro --with-eos=isothermal --with-order=3 --with-flux=roe",
    "h1": "--enable-smr --with-gas=hydro --with-order=1 --with-flux=hlle",
    "m": "--enable-smr --with-nscalars=1",
    "mi": "--enable-smr --with-eos=isothermal --with-order=3",
    "mvl": "--enable-smr --with-integrator=vl --with-order=3p --with-flux=hlld",
    "mivl": "--enable-smr --with-integrator=vl --with-order=2p --with-eos=isothermal --with-flux=hlle",
    "srh": "--enable-smr --enable-special-relativity --with-gas=hydro --with-integrator=vl --with-order=2p --with-flux=hllc",
    "hfofc": "--enable-smr --enable-fofc --with-gas=hydro --with-integrator=vl --with-order=2p",
    "mfofc": "--enable-smr --enable-fofc --with-integrator=vl --with-order=2p --with-flux=hlld",
}


def D(l, nx, disp):
    return dict(level=l, nx=tuple(nx), disp=tuple(disp))


LAY = {
    "a1": ((16, 1, 1), [D(1, (12, 1, 1), (8, 0, 0))]),
    "b1": ((20, 1, 1), [D(1, (12, 1, 1), (6, 0, 0)), D(1, (8, 1, 1), (26, 0, 0)), D(2, (8, 1, 1), (20, 0, 0))]),
    "c1": ((16, 1, 1), [D(1, (16, 1, 1), (0, 0, 0))]),      # touches the outer boundary
    "a2": ((12, 10, 1), [D(1, (10, 8, 1), (6, 8, 0))]),
    "b2": ((16, 14, 1), [D(1, (14, 16, 1), (8, 6, 0)), D(2, (8, 12, 1), (24, 20, 0))]),
    "c2": ((18, 10, 1), [D(1, (8, 10, 1), (4, 4, 0)), D(1, (10, 8, 1), (20, 6, 0))]),
    "d2": ((10, 12, 1), [D(1, (12, 10, 1), (8, 14, 0))]),    # corner of the box
    "e2": ((12, 12, 1), [D(1, (12, 24, 1), (6, 0, 0))]),     # spans the box in x2
    "a3": ((8, 9, 10), [D(1, (8, 10, 8), (4, 4, 6))]),
    "b3": ((8, 8, 8), [D(1, (8, 8, 8), (4, 4, 4)), D(2, (8, 8, 8), (12, 12, 12))]),
    "c3": ((8, 8, 10), [D(1, (8, 8, 12), (8, 0, 8))]),       # edge of the box
    "d4": ((14, 1, 1), [D(1, (20, 1, 1), (4, 0, 0)), D(2, (28, 1, 1), (16, 0, 0)), D(3, (24, 1, 1), (48, 0, 0))]),
}
TOUCH = ("c1", "d2", "e2", "c3")
BCS = {"per": (4,) * 6, "ref": (1,) * 6, "out": (2,) * 6}
BOX = ((0.0, 1.0), (-0.5, 0.4), (0.2, 1.3))


def specs(tier):
    return {k: dict(args=a) for k, a in CFG.items()}


def nd_of(lay):
    return sum(x > 1 for x in LAY[lay][0])


def cases(tier):
    pats = (1, 2) if tier == "quick" else range(1, 9)
    for cfg in CFG:
        ph = ics.Phys(CFG[cfg])
        for lay in LAY:
            for b in BCS:
                if b == "ref" and ph.mhd or lay in TOUCH and b == "per":
                    continue
                for p in pats:
                    yield dict(cfg=cfg, lay=lay, bc=b, kind="lat", pat=p)
            yield dict(cfg=cfg, lay=lay, bc="out" if lay in TOUCH else "per", kind="uni", pat=1)
            yield dict(cfg=cfg, lay=lay, bc="out", kind="lin", pat=1)
            if lay not in TOUCH and nd_of(lay) > 1:
                pm = {2: ["102"], 3: ["102", "120", "201"]}[nd_of(lay)]
                for o in ["perm" + x for x in pm] + ["refl%d" % d for d in range(nd_of(lay))]:
                    if o.startswith("perm") and nd_of(lay) == 3 and tier == "quick" and cfg not in ("h", "m", "mvl"):
                        continue
                    yield dict(cfg=cfg, lay=lay, bc="per", kind="sym", op=o, pat=1)
            elif lay not in TOUCH:
                yield dict(cfg=cfg, lay=lay, bc="per", kind="sym", op="refl0", pat=1)
        for ax in range(2):
            yield dict(cfg=cfg, lay="b1" if ax == 0 else "a2", bc="per", kind="adv", ax=ax, pat=1)


def levels(ph, n, nl, box, kind, pat, bc):
    out = []
    for l in range(nl):
        m = tuple(x * 2 ** l if x > 1 else 1 for x in n)
        dx = [(box[d][1] - box[d][0]) / m[d] for d in range(3)]
        if kind in ("lat", "sym"):
            U, B = ics.lattice(ph, m, box, pat=pat + 10 * l, amp=0.5, bc=bc)
        else:
            sh = (m[2], m[1], m[0])
            X = [box[d][0] + (np.arange(m[d]) + 0.5) * dx[d] if m[d] > 1 else np.zeros(1) for d in range(3)]
            x = [X[0][None, None, :], X[1][None, :, None], X[2][:, None, None]]
            o = np.ones(sh)
            d, v, p, r = 1.3 * o, [0.35 * o, -0.27 * o, 0.18 * o], 0.9 * o, [(0.4 + 0.1 * q) * o for q in range(ph.ns)]
            if kind == "lin":
                d = d + 0.2 * x[0] - 0.3 * x[1] + 0.25 * x[2]
            if ph.sr:
                v = [0.6 * a for a in v]
            B = None
            if ph.mhd:
                B = [np.full((m[2], m[1], m[0] + 1), 0.5), np.full((m[2], m[1] + (m[1] > 1), m[0]), -0.3), np.full((m[2] + (m[2] > 1), m[1], m[0]), 0.7)]
            bc_ = ics.bcc(m, B) if ph.mhd else None
            if kind == "lin":
                # conserved density and momentum linear in space
                U = ics.cons(ph, 1.3 * o, v, p, bc_, [y for y in r])
                g = [0.05 * (a + 1) * (0.2 * x[0] - 0.3 * x[1] + 0.25 * x[2]) for a in range(ph.nv)]
                U = U.copy()
                for a in list(range(4)) + list(range(ph.iS, ph.nv)):
                    U[a] = U[a] + g[a]
                if ph.adi and not ph.sr:
                    U[4] = p / (5. / 3 - 1) + 0.5 * (U[1] ** 2 + U[2] ** 2 + U[3] ** 2) / U[0] + (0.5 * sum(y * y for y in bc_) if ph.mhd else 0) + g[4]
            else:
                U = ics.cons(ph, d, v, p, bc_, r)
        out.append([U, B])
    if nl > 1 and ph.mhd:
        for l in range(nl - 2, -1, -1):
            m = tuple(x * 2 ** l if x > 1 else 1 for x in n)
            f = scenes.restrict_faces(out[l + 1][1], m)
            out[l] = [scenes.replaceB(ph, out[l][0].copy(), m, f), f]
    return [tuple(x) for x in out]


def interior(g):
    gl = g.gl
    s = tuple(slice(gl[d], gl[d] + g.nx[d]) for d in (2, 1, 0))
    B = None
    if g.B is not None:
        B = []
        for q in range(3):
            e = [1 if q == d and (g.nx[d] > 1 or d == 0) else 0 for d in range(3)]
            B.append(g.B[q][tuple(slice(gl[d], gl[d] + g.nx[d] + e[d]) for d in (2, 1, 0))])
    return g.U[(slice(None),) + s], B


def coarsen(a, n):
    for d in range(3):
        if n[d] > 1:
            ax = a.ndim - 1 - d
            i0 = [slice(None)] * a.ndim
            i1 = [slice(None)] * a.ndim
            i0[ax], i1[ax] = slice(0, None, 2), slice(1, None, 2)
            a = 0.5 * (a[tuple(i0)] + a[tuple(i1)])
    return a


def run(case, ctx):
    ph = ics.Phys(CFG[case["cfg"]])
    n, doms = LAY[case["lay"]]
    kind = case["kind"]
    bc = BCS[case["bc"]]
    nl = 1 + max(d["level"] for d in doms)
    exe = ctx.exes[case["cfg"]]
    if kind == "sym":
        return sym(case, ctx, ph, n, doms, nl, exe)
    if kind == "adv":
        return adv(case, ctx, ph, n, doms, nl, exe)
    L = levels(ph, n, nl, BOX, kind, case["pat"], bc)
    with ctx.case() as c:
        sim.write_ic(c.path("ic"), L)
        nlim = 3 if kind != "lin" else 0
        inp = sim.athinput(nx=n, box=BOX, bc=bc, nlim=nlim, cour=0.3, domains=doms, outputs=[dict(n=1, name="vpdump", dt=1e-12)])
        rc, out = sim.run_serial(exe, c.dir, inp, mode=0)
        ctx.trace()
        if rc != 0:
            return ctx.fail("run", "run failed (%d): %s" % (rc, out[-300:]))
        S = sim.read_dump(c.path("dump"))
        seen, first = set(), None
        for s in S:
            if s.nstep in seen:
                continue
            seen.add(s.nstep)
            ctx.snap(s)
            ctx.step()
            G = {}
            for g in s.grids:
                G.setdefault(g.level, []).append(g)
            if not all(np.isfinite(interior(g)[0]).all() for g in s.grids):
                return ctx.fail("nonfinite", "step %d: non-finite values" % s.nstep)
            if not overlap(ctx, ph, n, G, s):
                return
            if ph.mhd and not fields(ctx, ph, n, G, s):
                return
            if kind == "lat" and (case["bc"] == "per" or case["bc"] == "ref"):
                T = totals(ph, n, G)
                if first is None:
                    first = T
                else:
                    e = np.abs(T[0] - first[0]) / first[1]
                    for v in range(ph.nv):
                        if case["bc"] == "ref" and v in (1, 2, 3) or ph.mhd and ph.iB <= v < ph.iB + 3 and nd_of(case["lay"]) > 1:
                            continue        # (cell-centred fields next to a level boundary average faces of both levels)
                        if not e[v] <= TOL * (1 if not ph.sr else 10):
                            return ctx.fail("total", "step %d: total of variable %d over the refined mesh changed by %.3g (relative)" % (s.nstep, v, e[v]))
            if kind == "uni":
                for g in s.grids:
                    U, B = (g.U, g.B) if not ph.mhd else interior(g)
                    for v in range(ph.nv):
                        ref = L[0][0][v].flat[0]
                        e = np.abs(U[v] - ref).max()
                        if not e < 1e-11:
                            return ctx.fail("uniform", "step %d: uniform flow: level %d variable %d off by %.3g" % (s.nstep, g.level, v, e))
            if not ghosts(ctx, ph, n, G, s, kind, L):
                return
        if len(seen) != nlim + 1:
            ctx.fail("steps", "%d states instead of %d" % (len(seen), nlim + 1))


def cover(n, G, lev):
    """mask of cells of each grid of a level that are covered by finer domains"""
    out = []
    for g in G[lev]:
        m = np.zeros((g.nx[2], g.nx[1], g.nx[0]), bool)
        for f in G.get(lev + 1, ()):
            sl = []
            for d in (2, 1, 0):
                k = 2 if n[d] > 1 else 1
                a = f.disp[d] // k - g.disp[d]
                b = a + f.nx[d] // k
                sl.append(slice(max(a, 0), max(b, 0)))
            m[tuple(sl)] = True
        out.append(m)
    return out


def totals(ph, n, G):
    tot, mag = 0, 0
    nd = sum(x > 1 for x in n)
    for lev in G:
        for g, m in zip(G[lev], cover(n, G, lev)):
            U, _ = interior(g)
            w = 2.0 ** (-nd * lev)
            tot = tot + w * (U * ~m).sum((1, 2, 3))
            mag = mag + w * (np.abs(U) * ~m).sum((1, 2, 3))
    return tot, mag


def overlap(ctx, ph, n, G, s):
    for lev in G:
        for f in G.get(lev + 1, ()):
            for g in G[lev]:
                lo = [f.disp[d] // (2 if n[d] > 1 else 1) - g.disp[d] for d in range(3)]
                m = [f.nx[d] // (2 if n[d] > 1 else 1) for d in range(3)]
                if any(lo[d] < 0 or lo[d] + m[d] > g.nx[d] for d in range(3)):
                    continue
                Uc, Bc = interior(g)
                Uf, Bf = interior(f)
                A = coarsen(Uf, n)
                sub = Uc[:, lo[2]:lo[2] + m[2], lo[1]:lo[1] + m[1], lo[0]:lo[0] + m[0]]
                for v in range(ph.nv):
                    if ph.mhd and ph.iB <= v < ph.iB + 3:
                        continue
                    e = np.abs(A[v] - sub[v]).max()
                    if not e < 1e-11:
                        ctx.fail("overlap", "step %d: variable %d of level %d is not the average of level %d (%.3g)" % (s.nstep, v, lev, lev + 1, e))
                        return False
                if ph.mhd:
                    R = scenes.restrict_faces(Bf, m if sum(x > 1 for x in n) else m)
                    for q in range(3):
                        if q >= sum(x > 1 for x in n):
                            continue
                        ex = [1 if q == d else 0 for d in range(3)]
                        b = Bc[q][tuple(slice(lo[d], lo[d] + m[d] + ex[d]) for d in (2, 1, 0))]
                        if sum(x > 1 for x in n) == 1:
                            continue
                        e = np.abs(R[q] - b).max()
                        if not e < 1e-11:
                            ctx.fail("overlap", "step %d: face field %d of level %d is not the average of level %d (%.3g)" % (s.nstep, q + 1, lev, lev + 1, e))
                            return False
    return True


def fields(ctx, ph, n, G, s):
    for lev in G:
        for g in G[lev]:
            U, B = interior(g)
            box = [(0.0, (BOX[d][1] - BOX[d][0]) * g.nx[d] / (n[d] * (2 ** lev if n[d] > 1 else 1))) for d in range(3)]
            h = min(box[d][1] / g.nx[d] for d in range(3) if n[d] > 1)
            bm = max(1.0, max(np.abs(b).max() for b in B))
            e = np.abs(ics.divb(tuple(g.nx), box, B)).max() * h / bm
            if not e <= 2e-12:
                ctx.fail("divb", "step %d: divergence of B on level %d domain %d is %.3g |B|/dx" % (s.nstep, lev, g.dom, e))
                return False
            cc = ics.bcc(tuple(g.nx), B)
            for q in range(3):
                e = np.abs(cc[q] - U[ph.iB + q]).max() / bm
                if not e <= 2e-12:
                    ctx.fail("center", "step %d: cell-centred B%d on level %d differs from the face average by %.3g" % (s.nstep, q + 1, lev, e))
                    return False
            # divergence in the ghost zones that were filled from the coarser level (next to faces of the domain)
            if lev == 0 or sum(x > 1 for x in n) < 2:
                continue
            div = 0
            for d in range(3):
                if n[d] > 1:
                    ax = 2 - d
                    hd = (BOX[d][1] - BOX[d][0]) / (n[d] * 2 ** lev)
                    dv = np.zeros(g.B[d].shape)
                    up = [slice(None)] * 3
                    lo = [slice(None)] * 3
                    up[ax], lo[ax] = slice(1, None), slice(None, -1)
                    dv[tuple(lo)] = (g.B[d][tuple(up)] - g.B[d][tuple(lo)]) / hd
                    div = div + dv
            for d in range(3):
                if n[d] == 1:
                    continue
                for side in (0, 1):
                    if (side == 0 and g.disp[d] == 0) or (side == 1 and g.disp[d] + g.nx[d] == n[d] * 2 ** lev):
                        continue
                    sl = [slice(g.gl[q], g.gl[q] + g.nx[q]) for q in range(3)]
                    sl[d] = slice(0, g.gl[d]) if side == 0 else slice(g.gl[d] + g.nx[d], 2 * g.gl[d] + g.nx[d] - 1)
                    e = np.abs(div[sl[2], sl[1], sl[0]]).max() * h / bm
                    if not e <= 2e-12:
                        ctx.fail("divbghost", "step %d: divergence of B in the ghost zones of level %d, side %d of axis %d is %.3g |B|/dx" % (s.nstep, lev, side, d + 1, e))
                        return False
    return True


def pres(ph, U):
    p = U[4] - 0.5 * (U[1] ** 2 + U[2] ** 2 + U[3] ** 2) / U[0]
    return p


def ghosts(ctx, ph, n, G, s, kind, L):
    """ghost zones of fine domains next to coarse cells: averages equal the coarse cell, values stay between neighbours, linear data exact"""
    for lev in G:
        if lev == 0:
            continue
        N = [n[d] * 2 ** lev if n[d] > 1 else 1 for d in range(3)]
        for f in G[lev]:
            for d in range(3):
                if n[d] == 1:
                    continue
                for side in (0, 1):
                    if (side == 0 and f.disp[d] == 0) or (side == 1 and f.disp[d] + f.nx[d] == N[d]):
                        continue
                    gl = f.gl
                    sl = [slice(gl[q], gl[q] + f.nx[q]) for q in range(3)]
                    gd = gl[d] // 2 * 2
                    sl[d] = slice(gl[d] - gd, gl[d]) if side == 0 else slice(gl[d] + f.nx[d], gl[d] + f.nx[d] + gd)
                    F = f.U[(slice(None), sl[2], sl[1], sl[0])]
                    lo = [f.disp[q] // (2 if n[q] > 1 else 1) for q in range(3)]
                    hi = [lo[q] + f.nx[q] // (2 if n[q] > 1 else 1) for q in range(3)]
                    if side == 0:
                        lo[d], hi[d] = lo[d] - gd // 2, lo[d]
                    else:
                        lo[d], hi[d] = hi[d], hi[d] + gd // 2
                    for g in G[lev - 1]:
                        a = [lo[q] - g.disp[q] for q in range(3)]
                        b = [hi[q] - g.disp[q] for q in range(3)]
                        if any(a[q] < 0 or b[q] > g.nx[q] for q in range(3)):
                            continue
                        C = g.U[(slice(None),) + tuple(slice(a[q] + g.gl[q], b[q] + g.gl[q]) for q in (2, 1, 0))]
                        vs = [0, 1, 2, 3] + list(range(ph.iS, ph.nv)) + ([4] if ph.sr else [])
                        for v in vs:
                            e = np.abs(coarsen(F[v], n) - C[v]).max()
                            if not e < 1e-11:
                                ctx.fail("ghost", "step %d: ghost zones of level %d, side %d of axis %d: average of variable %d differs from the coarse value by %.3g"
                                         % (s.nstep, lev, side, d + 1, v, e))
                                return False
                        if ph.adi and not ph.mhd and not ph.sr:
                            e = np.abs(coarsen(pres(ph, F), n) - pres(ph, C)).max()
                            if not e < 1e-11:
                                ctx.fail("ghost", "step %d: ghost zones of level %d, side %d of axis %d: average pressure differs from the coarse value by %.3g"
                                         % (s.nstep, lev, side, d + 1, e))
                                return False
                        if kind == "lin" and "--with-order=1" not in ph.args:
                            X = L[lev][0][(slice(None),) + tuple(slice(f.disp[q] + sl[q].start - gl[q], f.disp[q] + sl[q].stop - gl[q]) for q in (2, 1, 0))]
                            # away from the box boundary, where the coarse ghost zones are not linear
                            ok = np.ones(F[0].shape, bool)
                            for q in range(3):
                                if n[q] > 1:
                                    idx = np.arange(f.disp[q] + sl[q].start - gl[q], f.disp[q] + sl[q].stop - gl[q])
                                    w = (idx >= 2) & (idx < N[q] - 2)
                                    sh = [1, 1, 1]
                                    sh[2 - q] = -1
                                    ok = ok & w.reshape(sh)
                            for v in vs + ([] if ph.mhd or not ph.adi else ["P"]):
                                fv, xv = (F[v], X[v]) if v != "P" else (pres(ph, F), pres(ph, X))
                                e = (np.abs(fv - xv) * ok).max()
                                if v == "P" or not (ph.sr and v == 4):
                                    if not e < (1e-6 if v == "P" else 1e-11):
                                        ctx.fail("linear", "ghost zones of level %d, side %d of axis %d: linear data of variable %s prolonged with error %.3g"
                                                 % (lev, side, d + 1, v, e))
                                        return False
                        # no new extrema: compare with the coarse cell and its neighbours
                        Cb = g.U
                        mn, mx = None, None
                        for q in range(3):
                            if n[q] == 1:
                                continue
                            for o in (-1, 0, 1):
                                z = [slice(a[k] + g.gl[k] + (o if k == q else 0), b[k] + g.gl[k] + (o if k == q else 0)) for k in range(3)]
                                y = Cb[(slice(None), z[2], z[1], z[0])]
                                mn = y if mn is None else np.minimum(mn, y)
                                mx = y if mx is None else np.maximum(mx, y)
                        nd = sum(x > 1 for x in n)
                        for v in vs:
                            up = F[v]
                            e0 = np.repeat(np.repeat(np.repeat(mn[v], 2 if n[2] > 1 else 1, 0), 2 if n[1] > 1 else 1, 1), 2 if n[0] > 1 else 1, 2)
                            e1 = np.repeat(np.repeat(np.repeat(mx[v], 2 if n[2] > 1 else 1, 0), 2 if n[1] > 1 else 1, 1), 2 if n[0] > 1 else 1, 2)
                            m_ = np.repeat(np.repeat(np.repeat(C[v], 2 if n[2] > 1 else 1, 0), 2 if n[1] > 1 else 1, 1), 2 if n[0] > 1 else 1, 2)
                            bad = (up > m_ + nd * (e1 - m_) + 1e-11) | (up < m_ - nd * (m_ - e0) - 1e-11)
                            if bad.any():
                                ctx.fail("extrema", "step %d: ghost zones of level %d: variable %d overshoots the neighbouring coarse values" % (s.nstep, lev, v))
                                return False
    return True


def sym(case, ctx, ph, n, doms, nl, exe):
    bc = BCS[case["bc"]]
    L = levels(ph, n, nl, BOX, "sym", case["pat"], bc)
    dim = [i for i in range(3)]
    op = case["op"]

    def apply(n, box, bc, L, doms):
        P = [c09.Prob([x * 2 ** l if x > 1 else 1 for x in n], box, bc, U, c09.full([x * 2 ** l if x > 1 else 1 for x in n], B) if B else None, (0, 0, 0), dim)
             for l, (U, B) in enumerate(L)]
        D2 = []
        if op.startswith("perm"):
            pi = [int(x) for x in op[4:]]
            Q = [c09.perm(ph, p, pi) for p in P]
            for x in doms:
                D2.append(dict(x, nx=tuple(x["nx"][pi[d]] for d in range(3)), disp=tuple(x["disp"][pi[d]] for d in range(3))))
            n2 = tuple(n[pi[d]] for d in range(3))
        else:
            a = int(op[4:])
            Q = [c09.refl(ph, p, a) for p in P]
            n2 = n
            for x in doms:
                dp = list(x["disp"])
                dp[a] = n[a] * 2 ** x["level"] - x["disp"][a] - x["nx"][a]
                D2.append(dict(x, disp=tuple(dp)))
        return n2, Q[0].box, Q[0].bc, [(q.U, c09.squeeze(q.n, q.B) if q.B else None) for q in Q], D2
    n2, box2, bc2, L2, D2 = apply(n, BOX, bc, L, doms)
    if op.startswith("perm") and n2[0] == 1:
        return
    with ctx.case() as c:
        R = []
        for tag, (nn, bx, b, LL, dd) in dict(a=(n, BOX, bc, L, doms), b=(n2, box2, bc2, L2, D2)).items():
            sim.write_ic(c.path("ic" + tag), LL)
            inp = sim.athinput(nx=nn, box=bx, bc=b, nlim=3, cour=0.3, domains=dd)
            rc, out = sim.run_serial(exe, c.dir, inp, mode=3, dump="d" + tag, ic=c.path("ic" + tag))
            ctx.trace()
            if rc != 0:
                return ctx.fail("run", "run failed (%d): %s" % (rc, out[-300:]))
            R.append(sim.read_dump(c.path("d" + tag)))
        if len(R[0]) != len(R[1]):
            return ctx.fail("steps", "%s: different number of steps" % op)
        inp = sim.athinput(nx=n, box=BOX, bc=bc, nlim=3, cour=0.3, domains=doms)
        sim.write_ic(c.path("ic"), L)
        guard = None
        for sa, sb in zip(*R):
            ctx.snap(sa)
            ctx.step()
            for lev in sorted({g.level for g in sa.grids}):
                for dm in sorted({g.dom for g in sa.grids if g.level == lev}):
                    A, B = sa.level(lev, dm), sb.level(lev, dm)
                    P = c09.Prob(A["n"], BOX, bc, A["U"], c09.full(A["n"], A["B"]) if A["B"] else None, (0, 0, 0), dim)
                    Q = c09.perm(ph, P, [int(x) for x in op[4:]]) if op.startswith("perm") else c09.refl(ph, P, int(op[4:]))
                    e = max(cmp.maxdiff(Q.U, B["U"]), abs(sa.dt / sb.dt - 1))
                    if A["B"]:
                        e = max([e] + [cmp.maxdiff(x, y) for x, y in zip(c09.squeeze(Q.n, Q.B), B["B"])])
                    if not e < 1e-10:
                        if guard is None:
                            guard = sim.conditioning(c, exe, inp, L[0], R[0], levels=L)
                        if guard(e, sa.nstep):
                            ctx.count("ill-conditioned")
                            return
                        return ctx.fail("symmetry", "%s: step %d level %d: transformed run differs by %.3g" % (op, sa.nstep, lev, e))


def adv(case, ctx, ph, n, doms, nl, exe):
    """a smooth density wave carried through the refined region: not less accurate than without refinement"""
    ax = case["ax"]
    errs = {}
    with ctx.case() as c:
        for tag, f, dd in (("ref", 2, doms), ("fine", 2, []), ("coarse", 1, [])):
            f = 2
            m0 = tuple(x * f if x > 1 else 1 for x in n)
            dd = [dict(x, nx=tuple(y * f if n[k] > 1 else 1 for k, y in enumerate(x["nx"])), disp=tuple(y * f for y in x["disp"])) for x in dd]
            if tag == "fine":
                m0 = tuple(x * 2 if x > 1 else 1 for x in m0)
            nlv = 1 + max([x["level"] for x in dd], default=0)
            box = tuple((0.0, 1.0) for _ in range(3))

            def state(m, t):
                x = [(np.arange(m[d]) + 0.5) / m[d] for d in range(3)]
                sh = (m[2], m[1], m[0])
                v = [0.0, 0.0, 0.0]
                v[ax] = 0.5
                ph_ = 2 * np.pi * ((x[ax] - 0.5 * t) if True else 0)
                w = 1 / m[ax]
                prof = 1 + 0.3 * np.sin(ph_) * np.sinc(w)
                s = [1, 1, 1]
                s[2 - ax] = -1
                d = np.broadcast_to(prof.reshape(s), sh).copy()
                B = None
                if ph.mhd:
                    B = [np.zeros((m[2], m[1], m[0] + 1)), np.zeros((m[2], m[1] + (m[1] > 1), m[0])), np.zeros((m[2] + (m[2] > 1), m[1], m[0]))]
                U = ics.cons(ph, d, [np.full(sh, y) for y in v], np.ones(sh), ics.bcc(m, B) if B else None, [np.full(sh, .5)] * ph.ns)
                return U, B
            if not ph.adi:
                return
            L = [state(tuple(x * 2 ** l if x > 1 else 1 for x in m0), 0.0) for l in range(nlv)]
            sim.write_ic(c.path("ic"), L)
            inp = sim.athinput(nx=m0, box=box, bc=(4,) * 6, nlim=100000, tlim=0.4, cour=0.4, domains=dd)
            rc, out = sim.run_serial(exe, c.dir, inp, mode=2, dump=tag)
            ctx.trace()
            if rc != 0:
                return ctx.fail("run", "run failed (%d): %s" % (rc, out[-300:]))
            s = sim.read_dump(c.path(tag))[-1]
            ctx.snap(s)
            e, cnt = 0.0, 0
            for g in s.grids:
                U, _ = interior(g)
                N = tuple(m0[d] * 2 ** g.level if n[d] > 1 else 1 for d in range(3))
                ref = state(N, s.time)[0][0][g.disp[2]:g.disp[2] + g.nx[2], g.disp[1]:g.disp[1] + g.nx[1], g.disp[0]:g.disp[0] + g.nx[0]]
                if g.level == 0:
                    e = np.abs(U[0] - ref).mean()
            errs[tag] = e
        if not errs["ref"] <= 1.25 * errs["coarse"] + 1e-10:
            ctx.fail("accuracy", "smooth wave along axis %d: error %.4g with refinement, %.4g without" % (ax + 1, errs["ref"], errs["coarse"]))
        ctx.count("ratio<1" if errs["ref"] < errs["coarse"] else "ratio>1")
