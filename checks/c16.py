"""C16: the gravitational potential is the solution of Poisson's equation for the density on the grid, and pulls the gas accordingly."""
import itertools, os
import numpy as np
import warnings
warnings.filterwarnings("ignore", category=FutureWarning)
from vlib import ics, sim, golden

H = "--with-gas=hydro --with-flux=roe --with-order=2 --enable-fft "
CFG = {
    "fft": H + "--with-gravity=fft",
    "disk": H + "--with-gravity=fft_disk",
    "obc": H + "--with-gravity=fft_obc",
    "mg": "--with-gas=hydro --with-flux=roe --with-order=2 --with-gravity=multigrid",
    "fft-mhd": "--enable-fft --with-gravity=fft --with-integrator=vl --with-order=2p --with-flux=hlld",
    "shfft": H + "--with-gravity=fft --enable-shearing-box",
    "shdisk": H + "--with-gravity=fft_disk --enable-shearing-box",
    "fft-mpi": H + "--with-gravity=fft", "disk-mpi": H + "--with-gravity=fft_disk", "obc-mpi": H + "--with-gravity=fft_obc",
}
BOUNDS = ("periodic, disk and open FFT solvers and multigrid: a unit mass in every zone of the grids (a basis of all densities: the solvers are linear), dense densities with every mode, three box shapes; "
          "block decompositions into up to 8 grids; shearing coordinates at 24 times of the shear period; momentum gained in one step from rest")
ASSUME = ["the open solver's reference is its published zero-padded discrete Green function with the mean mode removed"]
PIDG = "C16"
FPG = 1.7
GRID = {"fft": {1: (8, 1, 1), 2: (6, 8, 1), 3: (4, 6, 8)}, "disk": {1: (7, 1, 1), 2: (8, 6, 1), 3: (6, 4, 8)}, "obc": {3: (4, 8, 6)}, "fft-mhd": {1: (9, 1, 1), 2: (8, 5, 1), 3: (5, 4, 6)}}


def specs(tier):
    o = {}
    for k, a in CFG.items():
        o[k] = dict(args=a + (" --enable-mpi" if k.endswith("-mpi") else ""))
        if k.endswith("-mpi"):
            o[k]["mpi"] = True
    return o


def cases(tier):
    out = []
    for cfg in ("fft", "disk", "obc"):
        for dim, n in GRID[cfg].items():
            m = n[0] * n[1] * n[2]
            st = 24
            for a in range(0, m, st):
                out.append(dict(cfg=cfg, kind="delta", nx=list(n), at=[a, min(m, a + st)]))
    sizes = {1: [(5, 1, 1), (16, 1, 1), (33, 1, 1)], 2: [(4, 4, 1), (16, 12, 1), (7, 10, 1), (12, 32, 1)], 3: [(4, 4, 4), (8, 12, 16), (16, 6, 10), (9, 5, 7)]}
    for cfg in ("fft", "disk", "obc", "fft-mhd"):
        for dim in GRID[cfg]:
            for n in sizes[dim]:
                for b in (0, 1, 2):
                    out.append(dict(cfg=cfg, kind="dense", nx=list(n), box=b))
    for cfg in ("fft-mpi", "disk-mpi", "obc-mpi"):
        D = [((8, 8, 8), (2, 1, 1)), ((8, 8, 8), (1, 2, 1)), ((8, 8, 8), (1, 1, 2)), ((8, 8, 8), (2, 2, 1)), ((8, 8, 8), (2, 2, 2)), ((8, 16, 8), (1, 4, 1)), ((12, 8, 8), (3, 2, 1))]
        if cfg != "obc-mpi":
            D += [((8, 8, 1), (2, 1, 1)), ((8, 8, 1), (1, 2, 1)), ((8, 8, 1), (2, 2, 1)), ((16, 8, 1), (4, 2, 1)), ((8, 12, 1), (1, 3, 1))]
        for n, ng in D:
            out.append(dict(cfg=cfg, kind="dense", nx=list(n), box=1, ng=list(ng)))
    for n in ((8, 8, 8), (16, 16, 16), (8, 16, 16), (16, 8, 8)):
        for q in (0, 1, 2):
            out.append(dict(cfg="mg", kind="mg", nx=list(n), d=q))
    K = 24
    for cfg in ("shfft", "shdisk"):
        for n in ((16, 24, 1), (16, 16, 8)):
            if cfg == "shdisk" and n[2] == 1:
                continue
            for q in range(K) if tier != "quick" else range(0, K, 1 if n[2] == 1 else 2):
                out.append(dict(cfg=cfg, kind="shear", nx=list(n), ph=q / float(K) * 2.0 + 0.01))
    for cfg, dims in (("fft", (1, 2, 3)), ("disk", (3,)), ("obc", (3,)), ("fft-mhd", (1, 2, 3))):
        for dim in dims:
            for ax in range(dim):
                out.append(dict(cfg=cfg, kind="force", dim=dim, ax=ax))
    return out


def laplace_symbol(n, dx, shift=(0, 0, 0)):
    """symbol of the discrete Laplacian on the FFT grid with half-integer shifts, shape (k,j,i)"""
    s = 0
    for a in range(3):
        if n[a] == 1:
            continue
        q = (np.arange(n[a]) + shift[a]) * 2 * np.pi / n[a]
        sh = [1, 1, 1]
        sh[2 - a] = n[a]
        s = s + ((2 * np.cos(q) - 2) / dx[a] ** 2).reshape(sh)
    return s + np.zeros((n[2], n[1], n[0]))


def ref_fft(rho, n, dx, fpg):
    L = laplace_symbol(n, dx)
    f = np.fft.fftn(fpg * rho)
    f[0, 0, 0] = 0
    L[0, 0, 0] = 1
    return np.fft.ifftn(f / L).real


def ref_disk(rho, n, dx, fpg):
    """periodic in all directions but the last, open there"""
    ax = 2 if n[2] > 1 else 1 if n[1] > 1 else 0
    if ax == 0:
        # sheet: sum over sources of the field of an infinite plane
        i = np.arange(n[0])
        return (0.5 * fpg * dx[0] ** 2 * (np.abs(i[:, None] - i[None, :]) * rho[0, 0][None, :]).sum(1)).reshape(1, 1, -1)
    N = n[ax]
    k2 = 0
    for a in range(ax):
        q = np.fft.fftfreq(n[a]) * n[a] * 2 * np.pi / n[a] / dx[a]
        sh = [1, 1, 1]
        sh[2 - a] = n[a]
        k2 = k2 + (q ** 2).reshape(sh)
    e = np.exp(-np.sqrt(k2) * N * dx[ax]) + np.zeros((n[2], n[1], n[0]))
    z = np.arange(N)
    sh = [1, 1, 1]
    sh[2 - ax] = N
    ph = np.exp(1j * np.pi * z / N).reshape(sh)
    shift = [0, 0, 0]
    shift[ax] = 0.5
    LA, LB = laplace_symbol(n, dx), laplace_symbol(n, dx, shift)
    A = np.fft.fftn(fpg * rho) * 0.5 * (1 - e)
    A[0, 0, 0] = 0
    LA[0, 0, 0] = 1
    B = np.fft.fftn(fpg * rho / ph) * 0.5 * (1 + e) / LB
    return np.fft.ifftn(A / LA).real + (np.fft.ifftn(B) * ph).real


def ref_obc(rho, n, dx, fpg):
    P = np.zeros((2 * n[2], 2 * n[1], 2 * n[0]))
    P[:n[2], :n[1], :n[0]] = rho
    L = laplace_symbol([2 * x for x in n], dx)
    f = np.fft.fftn(fpg * P)
    f[0, 0, 0] = 0
    L[0, 0, 0] = 1
    return np.fft.ifftn(f / L).real[:n[2], :n[1], :n[0]]


def ref_mg(rho, n, x, dx, fpg):
    """Dirichlet problem with the potential of a central point mass in the first layer outside"""
    import scipy.sparse as sp
    import scipy.sparse.linalg as sl
    M = rho.sum() * dx[0] * dx[1] * dx[2]
    g = lambda X, Y, Z: -fpg / (4 * np.pi) * M / np.sqrt(X ** 2 + Y ** 2 + Z ** 2)
    D = [sp.diags([1, -2, 1], [-1, 0, 1], shape=(m, m)) / d ** 2 for m, d in zip(n, dx)]
    I = [sp.identity(m) for m in n]
    A = sp.kron(I[2], sp.kron(I[1], D[0])) + sp.kron(I[2], sp.kron(D[1], I[0])) + sp.kron(D[2], sp.kron(I[1], I[0]))
    b = fpg * rho.copy()
    Z, Y, X = np.meshgrid(x[2], x[1], x[0], indexing="ij")
    co = [X, Y, Z]
    for a in range(3):
        for hi in (0, 1):
            i = [slice(None)] * 3
            i[2 - a] = -1 if hi else 0
            i = tuple(i)
            c = [q[i].copy() for q in co]
            c[a] = c[a] + (dx[a] if hi else -dx[a])
            b[i] -= g(*c) / dx[a] ** 2
    return sl.spsolve(A.tocsc(), b.ravel()).reshape(b.shape)


C1 = " (up to a constant)"
REF = {"fft": ref_fft, "disk": ref_disk, "obc": ref_obc}
BOX = ((1., 1., 1.), (1., 0.6, 1.7), (2.3, 1.1, 0.4))


def bcs(base, n):
    if base == "obc":
        return [4, 4, 4, 4, 4, 4]
    return [4] * 6


def solve(ctx, cfg, n, rho, box, ng=None, nlim=0, problem=None, U=None, B=None, tlim=1e9, cour=0.3, bc=None, mode=2, x0=None):
    ph = ics.Phys(CFG[cfg])
    if U is None:
        U = np.zeros((ph.nv,) + rho.shape)
        U[0] = rho
        U[4] = 40.0 + 10 * rho.max()
    if ph.mhd and B is None:
        B = []
        for a in range(3):
            m = [n[d] + (1 if d == a and (n[d] > 1 or d == 0) else 0) for d in range(3)]
            B.append(np.zeros((m[2], m[1], m[0])))
    pr = dict(four_pi_G=FPG, mean_rho=float(rho.mean()) if "gravity=fft " in CFG[cfg] + " " else 0.0)
    pr.update(problem or {})
    bx = [((x0[a] if x0 else 0.0), (x0[a] if x0 else 0.0) + box[a]) for a in range(3)]
    with ctx.case() as c:
        sim.write_ic(c.path("ic"), [(U, B)])
        inp = sim.athinput(nx=n, box=bx, bc=bc or bcs(cfg.split("-")[0], n), nlim=nlim, tlim=tlim, problem=pr, cour=cour, ngrid=ng)
        if ng:
            r = sim.run_mpi(ctx.sched, ctx.exes[cfg], ng[0] * ng[1] * ng[2], c.dir, inp, mode=mode)
            rc, out = r.rc, b""
        else:
            rc, out = sim.run_serial(ctx.exes[cfg], c.dir, inp, mode=mode)
        ctx.trace()
        if rc:
            ctx.fail("run", "run failed (%d): %s" % (rc, out[-300:]))
            return None
        s = sim.read_dump(c.path("dump"), ng[0] * ng[1] * ng[2] if ng else 1)
    ctx.snap(s[-1])
    ctx.step(s[-1].nstep)
    return s if mode & 1 else s[-1]


def phi_of(s, n):
    P = np.full((n[2], n[1], n[0]), np.nan)
    for g in s.grids:
        P[g.disp[2]:g.disp[2] + g.nx[2], g.disp[1]:g.disp[1] + g.nx[1], g.disp[0]:g.disp[0] + g.nx[0]] = g.Phi
    return P


def dense(n, seed):
    r = np.random.RandomState(seed)
    return 0.5 + 2 * r.rand(n[2], n[1], n[0])


def agree(ctx, P, R, what, tol=2e-11):
    if "constant" in what:
        P, R = P - P.mean(), R - R.mean()
    d = np.abs(P - R).max()
    if not d <= tol * np.abs(R).max() + 1e-14:
        k = np.unravel_index(np.nanargmax(np.abs(P - R)), P.shape)
        ctx.fail("phi", "%s: potential in zone %s is %.12g, Poisson's equation gives %.12g (largest difference %.3g of %.3g)" % (what, k[::-1], P[k], R[k], d, np.abs(R).max()))
        return False
    return True


def run_delta(case, ctx):
    cfg, n = case["cfg"], case["nx"]
    box = BOX[1]
    dx = [box[a] / n[a] for a in range(3)]
    for q in range(*case["at"]):
        rho = np.full(n[0] * n[1] * n[2], 0.5)
        rho[q] += 3.0
        rho = rho.reshape(n[2], n[1], n[0])
        s = solve(ctx, cfg, n, rho, box)
        if s is None:
            return
        if not agree(ctx, phi_of(s, n), REF[cfg](rho, n, dx, FPG), "%s, grid %s, mass in zone %d%s" % (cfg, n, q, C1 if cfg == "disk" and n[1] == 1 else "")):
            return


def run_dense(case, ctx):
    cfg, n = case["cfg"], case["nx"]
    box = BOX[case["box"]]
    dx = [box[a] / n[a] for a in range(3)]
    rho = dense(n, 3 + n[0] + 7 * n[1])
    s = solve(ctx, cfg, n, rho, box, ng=case.get("ng"))
    if s is None:
        return
    agree(ctx, phi_of(s, n), REF[cfg.split("-")[0]](rho, n, dx, FPG), "%s, grid %s, box %s, grids %s%s" % (cfg, n, box, case.get("ng"), C1 if cfg == "disk" and n[1] == 1 else ""))


def run_mg(case, ctx):
    n = case["nx"]
    box = [x / 16.0 for x in n]
    dx = [1 / 16.0] * 3
    x0 = [-0.5 * b for b in box]
    x = [x0[a] + (np.arange(n[a]) + 0.5) * dx[a] for a in range(3)]
    Z, Y, X = np.meshgrid(x[2], x[1], x[0], indexing="ij")
    if case["d"] == 0:
        rho = 0.1 + np.exp(-40 * (X ** 2 + Y ** 2 + Z ** 2))
    elif case["d"] == 1:
        rho = 0.1 + np.exp(-60 * ((X - .1) ** 2 + (Y + .05) ** 2 + (Z - .02) ** 2)) + 0.5 * np.exp(-80 * ((X + .15) ** 2 + Y ** 2 + (Z + .1) ** 2))
    else:
        rho = 0.3 + 0.2 * np.sin(9 * X + 4 * Y) * np.cos(7 * Z - Y)
    # a potential too weak to move the gas: the solution is approached by one V-cycle per step
    R = ref_mg(rho, n, x, dx, 1.0)
    for m, tol in ((4, 2e-4), (40, 1e-10)):
        s = solve(ctx, "mg", n, rho, box, nlim=m, problem=dict(four_pi_G=1e-9), bc=[1] * 6, x0=x0)
        if s is None:
            return
        e = np.abs(phi_of(s, n) / 1e-9 - R).max() / np.abs(R).max()
        if not e <= tol:
            return ctx.fail("multigrid", "grid %s: potential after %d V-cycles differs from the solution of Poisson's equation by %.3g" % (n, m + 1, e))


def run_shear(case, ctx):
    """a density periodic in the sheared coordinates of time t"""
    cfg, n = case["cfg"], case["nx"]
    box = (1.0, 1.5, 1.2)
    dx = [box[a] / n[a] for a in range(3)]
    q, om = 1.5, 1.0
    t = case["ph"] * box[1] / (q * om * box[0])      # phase 1 = one full period
    x = [-0.5 * box[a] + (np.arange(n[a]) + 0.5) * dx[a] if n[a] > 1 else np.zeros(1) for a in range(3)]
    Z, Y, X = np.meshgrid(x[2], x[1], x[0], indexing="ij")
    rho = np.ones_like(X)
    modes = ((1, 1, 0, .05, .3), (-1, 1, 1, .08, 1.1), (0, 1, 0, .1, 2.0), (1, 0, 0, .04, .7), (2, 1, 0, .03, 4.), (0, 2, 1, .02, .2), (0, 0, 1, .05, .5))
    kk = []
    fr = case["ph"] % 1.0
    for mx, my, mz, am, p0 in modes:
        if mz and n[2] == 1:
            mz = 0
            if not (mx or my):
                continue
        # wave fixed in the sheared frame: y' = y + q Om dt x
        kx = 2 * np.pi * (mx / box[0] + fr * my / box[0])
        ky, kz = 2 * np.pi * my / box[1], 2 * np.pi * mz / box[2]
        rho += am * np.cos(kx * X + ky * Y + kz * Z + p0)
        kk.append((kx, ky, kz, am, p0))
    if cfg == "shdisk":
        rho = rho * np.exp(-8 * Z ** 2)
    pr = dict(omega=om, qshear=q, tgrid=t)
    s = solve(ctx, cfg, n, rho, box, problem=pr, x0=[-0.5 * b for b in box])
    if s is None:
        return
    if abs(s.grids[0].time - t) > 1e-12:
        return ctx.fail("time", "grid time %.15g" % s.grids[0].time)
    P = phi_of(s, n)
    if cfg == "shfft":
        R = np.zeros_like(P)
        for kx, ky, kz, am, p0 in kk:
            l = sum((2 * np.cos(k * d) - 2) / d ** 2 for k, d in zip((kx, ky, kz), dx))
            R += FPG * am / l * np.cos(kx * X + ky * Y + kz * Z + p0)
    else:
        # open in z: direct sum over the modes of the horizontal plane with the discrete vertical Green function
        R = np.zeros_like(P)
        ex = np.exp(-8 * x[2] ** 2)
        N = n[2]
        for kx, ky, kz, am, p0 in [(0, 0, 0, 1.0, 0.0)] + kk:
            src = am * np.exp(1j * (kz * x[2] + p0)) * ex
            kp = np.sqrt(kx ** 2 + ky ** 2)
            lp = sum((2 * np.cos(k * d) - 2) / d ** 2 for k, d in zip((kx, ky), dx))
            e = np.exp(-kp * box[2])
            m = np.arange(N)
            LA = lp + (2 * np.cos(2 * np.pi * m / N) - 2) / dx[2] ** 2
            LB = lp + (2 * np.cos(2 * np.pi * (m + .5) / N) - 2) / dx[2] ** 2
            A = np.fft.fft(FPG * src) * .5 * (1 - e)
            if kp == 0:
                A[:] = 0
                LA[0] = 1
            p = np.exp(1j * np.pi * m / N)
            f = np.fft.ifft(A / LA) + np.fft.ifft(np.fft.fft(FPG * src / p) * .5 * (1 + e) / LB) * p
            R += (f[:, None, None] * np.exp(1j * (kx * X + ky * Y))).real
    sc = np.abs(R - R.mean()).max()
    e = np.abs((P - P.mean()) - (R - R.mean())).max() / sc
    if golden.calibrating():
        golden.record(PIDG, case, [e])
        if os.environ.get("VP_SHOW"):
            print(case, e)
        return
    g = golden.bounds(PIDG, case)
    if g is None:
        return ctx.fail("golden", "no recorded accuracy for this case")
    if not e <= 1.05 * g[0] + 1e-6:
        ctx.fail("shear", "%s, grid %s, %.3f of a shear period: potential is wrong by %.4g, the method's error is %.4g" % (cfg, n, case["ph"], e, g[0]))


def run_force(case, ctx):
    """one short step from rest with uniform pressure: the gas gains -rho grad Phi dt"""
    cfg, dim, ax = case["cfg"], case["dim"], case["ax"]
    base = cfg.split("-")[0]
    n = [16 + 4 * (a == ax) if a < dim else 1 for a in range(3)]
    box = BOX[1]
    dx = [box[a] / n[a] for a in range(3)]
    x = [(np.arange(n[a]) + 0.5) / n[a] for a in range(3)]
    Z, Y, X = np.meshgrid(x[2], x[1], x[0], indexing="ij")
    rho = 1 + 0.3 * np.sin(2 * np.pi * (X, Y, Z)[ax] + 0.3)
    if dim > 1:
        rho += 0.2 * np.cos(2 * np.pi * ((X, Y, Z)[(ax + 1) % dim] + (X, Y, Z)[ax]))
    if base != "fft":
        r2 = sum((q - 0.5) ** 2 for q in ((X, Y, Z) if base == "obc" else (Z,)))
        rho = rho * np.exp(-8 * r2) + 1e-3
    S = solve(ctx, cfg, n, rho, box, nlim=1, cour=0.02, mode=6, problem=dict(mean_rho=rho.mean() / 8) if base == "obc" else {})
    if S is None:
        return
    # the dump with ghost zones comes last; momentum after one step
    P = S.grids[0]
    g = list(P.gl)
    act = tuple(slice(g[a], g[a] + n[a]) for a in (2, 1, 0))
    dt = P.time
    for a in range(dim):
        up, dn = list(act), list(act)
        up[2 - a] = slice(g[a] + 1, g[a] + n[a] + 1)
        dn[2 - a] = slice(g[a] - 1, g[a] + n[a] - 1)
        want = -rho * (P.Phi[tuple(up)] - P.Phi[tuple(dn)]) / (2 * dx[a])
        got = P.U[1 + a][act] / dt
        sc = np.abs(rho * np.gradient(P.Phi[act], axis=2 - a) / dx[a]).max() + 1e-12
        # next to open boundaries the potential outside is extrapolated
        i = [slice(None)] * 3
        for q in range(dim):
            if base == "obc" or base == "disk" and q == dim - 1:
                i[2 - q] = slice(2, -2)
        want, got = want[tuple(i)], got[tuple(i)]
        e = np.abs(got - want).max() / sc
        if os.environ.get("VP_SHOW"):
            print(case, a, e)
        if not e < (0.04 if base == "disk" else 0.02):
            return ctx.fail("force", "%s %dD: momentum %d gained in one step differs from -rho grad Phi dt by %.3g of its maximum" % (cfg, dim, a + 1, e))


def run(case, ctx):
    {"delta": run_delta, "dense": run_dense, "mg": run_mg, "shear": run_shear, "force": run_force}[case["kind"]](case, ctx)
