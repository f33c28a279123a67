"""C12: every ghost zone holds what its boundary condition prescribes, before the first step and after every step."""
import itertools
import numpy as np
from vlib import ics, sim

NAME = {0: "user", 1: "reflecting", 2: "outflow", 4: "periodic", 5: "conducting"}
CFG = {
    "h": "--with-gas=hydro --with-nscalars=2 --with-flux=hllc",
    "m": "--with-nscalars=1 --with-flux=hlld --with-order=2",
    "mi": "--with-eos=isothermal --with-integrator=vl --with-order=2p --with-flux=hlle",
    "h3": "--with-gas=hydro --with-order=3 --with-flux=roe",
    "mc": "--with-coord=cylindrical --with-flux=hlld",
    "hs": "--with-gas=hydro --enable-smr --with-nscalars=1 --with-flux=hllc",
    "ms": "--enable-smr --with-flux=hlld",
    "gm": "--with-gas=hydro --with-gravity=multigrid --with-flux=roe --with-order=2",
    "gf": "--with-gravity=fft --enable-fft --with-flux=roe --with-order=2",
    "h-mpi": "--with-gas=hydro --with-nscalars=2 --with-flux=hllc",
    "m-mpi": "--with-nscalars=1 --with-flux=hlld",
    "gf-mpi": "--with-gravity=fft --enable-fft --with-gas=hydro --with-flux=roe --with-order=2",
}
BOUNDS = ("every assignment of reflecting, outflow, periodic and conducting conditions to the faces of 1D (16), 2D (256) and 3D grids (1000 valid, 4096 in the thorough tier), user functions on every face, "
          "hydro and MHD with scalars, before the first step and after one; Phi of the gravity solvers; grids touching every combination of faces of a refined domain; decompositions into up to 12 grids")
ASSUME = ["corner ghost zones are those of boundary conditions applied in the documented order x1, x2, x3",
          "the outermost normal face of the field ghost layers is not used and not judged"]
NX = {1: (6, 1, 1), 2: (5, 7, 1), 3: (5, 4, 6)}


def specs(tier):
    o = {}
    for k, a in CFG.items():
        o[k] = dict(args=a + (" --enable-mpi" if k.endswith("-mpi") else ""))
        if k.endswith("-mpi"):
            o[k]["mpi"] = True
    return o


FOUR = (1, 2, 4, 5)
ALL16 = list(itertools.product(FOUR, FOUR))
VALID = [p for p in ALL16 if (p[0] == 4) == (p[1] == 4)]


def chunk(L, n):
    return [L[i:i + n] for i in range(0, len(L), n)]


def cases(tier):
    out = []

    def add(cfg, dim, nlim, combos, n=32, **kw):
        for c in chunk([list(sum(x, ())) for x in combos], n):
            out.append(dict(cfg=cfg, dim=dim, nlim=nlim, bcs=c, **kw))
    for cfg in ("h", "m", "mi"):
        for nlim in (0, 1):
            add(cfg, 1, nlim, itertools.product(ALL16))
            add(cfg, 2, nlim, itertools.product(ALL16, ALL16))
    p3 = list(itertools.product(VALID, VALID, VALID) if tier == "quick" else itertools.product(ALL16, ALL16, ALL16))
    add("m", 3, 0, p3)
    if tier == "quick":
        add("h", 3, 0, p3[::3])
        add("m", 3, 1, p3[::7])
    else:
        for cfg in ("h", "mi", "h3"):
            add(cfg, 3, 0, p3)
        add("m", 3, 1, p3)
        add("h", 3, 1, p3)
    h3 = list(itertools.product(VALID, repeat=1))
    add("h3", 1, 1, h3)
    add("h3", 2, 1, list(itertools.product(VALID, VALID)))
    add("h3", 3, 1, p3[::37])
    add("mc", 1, 1, h3)
    add("mc", 2, 1, list(itertools.product(VALID, VALID)))
    add("mc", 3, 1, p3[::29])
    # user functions on every subset of faces, others outflow or reflecting
    for dim in (1, 2, 3):
        subs = [s for s in itertools.product((0, 1), repeat=2 * dim) if any(s)]
        for cfg in ("h", "m"):
            for bg in (1, 2, 4):
                L = []
                for s in subs:
                    if bg == 4 and any(s[2 * a] != s[2 * a + 1] for a in range(dim)):
                        continue
                    L.append(([0 if q else bg for q in s],))
                for c in chunk([x[0] for x in L], 40):
                    out.append(dict(cfg=cfg, dim=dim, nlim=(1 if bg == 2 else 0), bcs=c, user=1))
    # gravity
    g2 = [(1, 1), (1, 5), (5, 1), (5, 5), (4, 4)]
    add("gm", 3, 1, list(itertools.product(g2, g2, g2)) if tier != "quick" else list(itertools.product(g2, g2, g2))[::3], n=8)
    for dim in (1, 2, 3):
        add("gf", dim, 1, [((4, 4),) * dim])
    # refined domains touching faces
    E = ((0, 6), (5, 6), (10, 6), (0, 16))       # offset, extent in units of the root zones (of 16)
    for cfg in ("hs", "ms"):
        for b in (1, 2, 5):
            for e in E:
                out.append(dict(cfg=cfg, smr=[e], bc=b, dim=1))
            for e in itertools.product(E, E):
                out.append(dict(cfg=cfg, smr=list(e), bc=b, dim=2))
        E3 = ((0, 5), (7, 5), (0, 12)) if tier == "quick" else ((0, 5), (4, 5), (7, 5), (0, 12))
        for q, e in enumerate(itertools.product(E3, E3, E3)):
            for b in ((1, 2, 5) if tier != "quick" else ((1, 2, 5)[q % 3],)):
                out.append(dict(cfg=cfg, smr=list(e), bc=b, dim=3))
    # decompositions
    for cfg in ("h-mpi", "m-mpi"):
        for nlim in (0, 1):
            for ng in ((2, 1, 1), (3, 1, 1)):
                add(cfg, 1, nlim, itertools.product(VALID), n=10, ng=list(ng))
            for ng in ((2, 2, 1), (1, 3, 1), (3, 2, 1)):
                add(cfg, 2, nlim, list(itertools.product(VALID, VALID))[::(7 if tier == "quick" else 1)], n=8, ng=list(ng))
            for ng in ((1, 1, 2), (2, 2, 2), (1, 2, 3)):
                add(cfg, 3, nlim, p3[nlim::(125 if tier == "quick" else 37)], n=4, ng=list(ng))
    for ng, dim in (((2, 1, 1), 2), ((2, 2, 1), 2), ((1, 2, 2), 3), ((2, 2, 1), 3)):
        add("gf-mpi", dim, 1, [((4, 4),) * dim], ng=list(ng))
    return out


# ---- the model --------------------------------------------------------------
def sl(a, *idx):
    """index tuple selecting positions idx (slice or int) along grid axis a of an array (k,j,i)"""
    s = [slice(None)] * 3
    s[2 - a] = idx[0]
    return tuple(s)


def put(A, a, dst, val):
    A[sl(a, dst)] = val


def get(A, a, src):
    return A[sl(a, src)].copy()


UVAL = (1.10, 1.20, 1.30, 1.40, 1.50, 1.60)


def fill(ph, U, B, Phi, n, g, bc, gamma, shear=None):
    """boundary conditions in the order x1, x2, x3; arrays include ghost zones; n active zones, g ghost zones per axis"""
    for a in range(3):
        if not g[a]:
            continue
        G, N = g[a], n[a]
        for hi in (0, 1):
            t = bc[2 * a + hi]
            for m in range(1, G + 1):
                dst = G + N - 1 + m if hi else G - m
                src = {1: (G + N - m if hi else G + m - 1), 2: (G + N - 1 if hi else G), 4: (G + m - 1 if hi else G + N - m)}.get(1 if t == 5 else t)
                if t == 0:
                    for v in range(ph.nv):
                        put(U[v], a, dst, UVAL[2 * a + hi] if v == 0 else UVAL[2 * a + hi] / (gamma - 1) if v == ph.iE else 0.0)
                    if B is not None:
                        for b in range(3):
                            if b != a:
                                put(B[b], a, dst, np.nan)
                    continue
                for v in range(ph.nv):
                    s = 1.0
                    if t in (1, 5) and v == 1 + a:
                        s = -1.0
                    if ph.mhd and ph.iB <= v < ph.iB + 3:
                        if t == 1 and v == ph.iB + a or t == 5 and v != ph.iB + a:
                            s = -1.0
                    put(U[v], a, dst, s * get(U[v], a, src))
                if B is not None:
                    for b in range(3):
                        if b != a:
                            put(B[b], a, dst, (-1.0 if t == 5 else 1.0) * get(B[b], a, src))
                if Phi is not None:
                    put(Phi, a, dst, get(Phi, a, src))
            if B is not None:
                f0, f1 = G, G + N                   # faces of the active zones
                F = B[a]
                if t == 1:
                    put(F, a, f1 if hi else f0, 0.0)
                for m in range(1, G):
                    dst = f1 + m if hi else f0 - m
                    if t == 0:
                        put(F, a, dst, np.nan)
                    elif t == 1:
                        put(F, a, dst, -get(F, a, f1 - m if hi else f0 + m))
                    elif t == 5:
                        put(F, a, dst, get(F, a, f1 - m if hi else f0 + m))
                    elif t == 2:
                        put(F, a, dst, get(F, a, f1 if hi else f0))
                    else:
                        put(F, a, dst, get(F, a, f0 + m if hi else f1 - m))


def make_ic(ph, n, seed):
    """a state in which no two zones agree in anything"""
    r = np.random.RandomState(seed)
    sh = (n[2], n[1], n[0])
    U = np.zeros((ph.nv,) + sh)
    U[0] = 1 + r.rand(*sh)
    for v in range(1, 4):
        U[v] = 0.6 * (r.rand(*sh) - 0.5)
    if ph.adi:
        U[4] = 6 + r.rand(*sh)
    B = None
    if ph.mhd:
        B = []
        for a in range(3):
            m = [n[d] + (1 if d == a and (n[d] > 1 or d == 0) else 0) for d in range(3)]
            B.append(0.4 * (r.rand(m[2], m[1], m[0]) - 0.5))
        for v in range(3):
            U[ph.iB + v] = 0.4 * (r.rand(*sh) - 0.5)
    for q in range(ph.ns):
        U[ph.iS + q] = U[0] * (0.2 + 0.6 * r.rand(*sh))
    return U, B


def same(x, y, mask):
    with np.errstate(invalid="ignore"):
        return (x == y) | np.isnan(y) | ~mask


def judge(ctx, ph, g, n, ng_, U, B, Phi, bc, off, what, gamma, region=None):
    """compare the ghosted arrays of grid g with a window of the model arrays"""
    win = tuple(slice(off[a], off[a] + g.nx[a] + 2 * ng_[a]) for a in (2, 1, 0))
    allm = np.ones(tuple(g.nx[a] + 2 * ng_[a] for a in (2, 1, 0)), bool) if region is None else region

    def check(got, want, name):
        ok = same(got, want[win], allm)
        if not ok.all():
            k, j, i = np.argwhere(~ok)[0]
            side = []
            for a, q in ((0, i), (1, j), (2, k)):
                if ng_[a] and (q < ng_[a] or q >= ng_[a] + g.nx[a]):
                    side.append("%sx%d %s" % ("i" if q < ng_[a] else "o", a + 1, NAME[bc[2 * a + (q >= ng_[a])]]))
            ctx.fail("ghost", "%s: %s in the ghost zone (%d,%d,%d) [%s] is %.17g, the boundary condition gives %.17g (%d zones wrong), boundary conditions %s" % (
                what, name, i - ng_[0], j - ng_[1], k - ng_[2], "; ".join(side) or "active", got[k, j, i], want[win][k, j, i], int((~ok).sum()), bc))
            return False
        return True
    for v in range(ph.nv):
        if not check(g.U[v], U[v], "conserved variable %d" % v):
            return False
    if B is not None:
        for b in range(3):
            got = np.array(g.B[b])
            if ng_[b]:
                put(got, b, 0, B[b][win][sl(b, 0)])          # the unused outermost normal face
            if not check(got, B[b], "face field B%d" % (b + 1)):
                return False
    if Phi is not None and g.Phi is not None:
        if not check(g.Phi, Phi, "potential"):
            return False
    return True


def assemble(ph, s, n, g):
    """global ghosted arrays (NaN outside) from the active zones of a snapshot's grids"""
    full = tuple(n[a] + 2 * g[a] for a in (2, 1, 0))
    U = np.full((ph.nv,) + full, np.nan)
    B = [np.full(full, np.nan) for _ in range(3)] if ph.mhd else None
    Phi = np.full(full, np.nan) if ph.selfg else None
    for q in s.grids:
        d = [q.disp[a] for a in range(3)]
        src = tuple(slice(g[a], g[a] + q.nx[a]) for a in (2, 1, 0))
        dst = tuple(slice(g[a] + d[a], g[a] + d[a] + q.nx[a]) for a in (2, 1, 0))
        for v in range(ph.nv):
            U[v][dst] = q.U[v][src]
        if Phi is not None:
            Phi[dst] = q.Phi[src]
        if B is not None:
            for b in range(3):
                e = 1 if g[b] else 0
                s1, d1 = list(src), list(dst)
                s1[2 - b] = slice(g[b], g[b] + q.nx[b] + e)
                d1[2 - b] = slice(g[b] + d[b], g[b] + d[b] + q.nx[b] + e)
                B[b][tuple(d1)] = q.B[b][tuple(s1)]
    return U, B, Phi


def run_bc(case, ctx):
    cfg, dim = case["cfg"], case["dim"]
    ph = ics.Phys(CFG[cfg])
    ng = case.get("ng")
    n = list(NX[dim])
    gm = "multigrid" in CFG[cfg]
    if ph.selfg:
        n = [8 if a < dim else 1 for a in range(3)]
    if ng:
        n = [(4 * ng[a] + (a == 0 or ng[a] > 2)) if a < dim else 1 for a in range(3)]
        if ph.selfg:
            n = [8 * ng[a] if a < dim else 1 for a in range(3)]
    gamma = 1.6
    U0, B0 = make_ic(ph, n, 11 + dim)
    box = [(1.0, 1.0 + 0.25 * n[a]) for a in range(3)]
    for bc in case["bcs"]:
        bcx = list(bc) + [4] * (6 - len(bc))
        with ctx.case() as c:
            sim.write_ic(c.path("ic"), [(U0, B0)])
            pr = {}
            if case.get("user"):
                pr["ubc"] = sum(1 << q for q in range(2 * dim) if bc[q] == 0)
            if ph.selfg:
                pr.update(four_pi_G=0.3, mean_rho=float(U0[0].mean()))
            inp = sim.athinput(nx=n, box=box, bc=bcx, nlim=case["nlim"], gamma=gamma, problem=pr, cour=0.3, ngrid=ng)
            if ng:
                r = sim.run_mpi(ctx.sched, ctx.exes[cfg], ng[0] * ng[1] * ng[2], c.dir, inp, mode=4)
                rc, out = r.rc, getattr(r, "out", b"")
            else:
                rc, out = sim.run_serial(ctx.exes[cfg], c.dir, inp, mode=4)
            ctx.trace()
            if rc:
                return ctx.fail("run", "run failed (%d) with boundary conditions %s: %s" % (rc, bc, out[-300:]))
            s = sim.read_dump(c.path("dump"), ng[0] * ng[1] * ng[2] if ng else 1)[-1]
        ctx.snap(s)
        ctx.step(s.nstep)
        g = list(s.grids[0].gl)
        if s.nstep != case["nlim"] or any((g[a] < 1) != (n[a] == 1) for a in range(3)):
            return ctx.fail("dump", "ended after %d steps, ghost zones %s" % (s.nstep, g))
        U, B, Phi = assemble(ph, s, n, g)
        if not np.isfinite(U[(slice(None),) + tuple(slice(g[a], g[a] + n[a]) for a in (2, 1, 0))]).all():
            return ctx.fail("nonfinite", "non-finite active state with boundary conditions %s" % (bc,))
        fill(ph, U, B, Phi, n, g, bcx, gamma)
        for q in s.grids:
            if not judge(ctx, ph, q, n, g, U, B, Phi, bcx, [q.disp[a] for a in range(3)], "%s, %d step(s)%s" % (cfg, case["nlim"], ", grids %s" % ng if ng else ""), gamma):
                return
        if ctx.viol:
            return


def run_smr(case, ctx):
    cfg, dim, b = case["cfg"], case["dim"], case["bc"]
    ph = ics.Phys(CFG[cfg])
    R = 16 if dim < 3 else 12
    n = [R if a < dim else 1 for a in range(3)]
    disp = [2 * case["smr"][a][0] if a < dim else 0 for a in range(3)]
    cn = [2 * case["smr"][a][1] if a < dim else 1 for a in range(3)]
    gamma = 1.6
    # smooth enough for a refined run: the fine level starts from its own distinct values
    L = [make_ic(ph, n, 5), make_ic(ph, [2 * x if x > 1 else 1 for x in n], 6)]
    if ph.mhd:
        # consistent fields on both levels: uniform
        for U, B in L:
            for a in range(3):
                B[a][:] = 0.1 * (a + 1)
                U[ph.iB + a] = 0.1 * (a + 1)
    bcx = [b] * 6
    with ctx.case() as c:
        sim.write_ic(c.path("ic"), L)
        inp = sim.athinput(nx=n, box=[(0., 1.)] * 3, bc=bcx, nlim=0, gamma=gamma, cour=0.3, domains=[dict(level=1, nx=cn, disp=disp)])
        rc, out = sim.run_serial(ctx.exes[cfg], c.dir, inp, mode=4)
        ctx.trace()
        if rc:
            return ctx.fail("run", "run failed (%d): %s" % (rc, out[-300:]))
        s = sim.read_dump(c.path("dump"))[-1]
    ctx.snap(s)
    for q in s.grids:
        g = list(q.gl)
        m = list(q.nx)
        N = [x * (2 if q.level else 1) for x in n]
        one = sim.Snap()
        one.grids = [q]
        d0 = q.disp
        q.disp = (0, 0, 0)
        U, B, Phi = assemble(ph, one, m, g)
        q.disp = d0
        bq = list(bcx)
        for a in range(3):
            if d0[a] != 0:
                bq[2 * a] = 2               # not a boundary of the mesh: whatever is put there is not judged
            if d0[a] + m[a] != N[a]:
                bq[2 * a + 1] = 2
        fill(ph, U, B, Phi, m, g, bq, gamma)
        # judged: ghost zones on faces of this grid that lie on faces of the root, next to active zones or to other such ghost zones
        reg = np.ones(tuple(m[a] + 2 * g[a] for a in (2, 1, 0)), bool)
        for a in range(3):
            if not g[a]:
                continue
            if d0[a] != 0:
                reg[sl(a, slice(0, g[a]))] = False
            if d0[a] + m[a] != (N[a]):
                reg[sl(a, slice(g[a] + m[a], None))] = False
        if not judge(ctx, ph, q, m, g, U, B, Phi, bcx, [0, 0, 0], "%s level %d at %s, %s zones" % (cfg, q.level, list(d0), m), gamma, region=reg):
            return


def run(case, ctx):
    run_smr(case, ctx) if "smr" in case else run_bc(case, ctx)
