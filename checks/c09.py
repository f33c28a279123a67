"""C09: the answer does not depend on the orientation, direction, position or units of the problem, nor on whether an
ignorable direction is included in the mesh."""
import itertools
import numpy as np
from vlib import cmp, ics, sim, space

TOL = 1e-11
BOUNDS = ("all 25 core solver configurations and 5 diffusive ones x dimensions 1-3 x {all axis permutations, every reflection, cell shifts, "
          "units of density, length, time, all embeddings in a higher dimension} x periodic and mixed boundaries, gravity, 3 steps")
ASSUME = ["the Hall term is excluded from axis permutations and embeddings (its update is a sequence of one-direction updates by design), H-correction from embeddings "
          "(it is inactive in one dimension by design), anisotropic conduction from one-dimensional runs (a documented limit), and the LimO3 limiter from changes of units (it has a dimensional parameter)",
          "cases in which a round-off change of the initial state changes the serial answer comparably are not judged"]
CFG = dict(space.CORE, **space.DIFF, **space.FOFC)
CFG.update({
    "srh": "--enable-special-relativity --with-gas=hydro --with-integrator=vl --with-order=2p --with-flux=hllc",
    "srm": "--enable-special-relativity --with-integrator=vl --with-order=2p --with-flux=hlld",
    "sre": "--enable-special-relativity --with-integrator=vl --with-order=2p --with-flux=hlle",
    "sg": "--with-gravity=fft --enable-fft",
    "sgvl": "--with-gravity=fft --enable-fft --with-gas=hydro --with-eos=isothermal --with-integrator=vl --with-order=3p",
})
PERONLY = ("srh", "sre", "srm", "sg", "sgvl")
BC0 = {"per": (4,) * 6, "m1": (2, 1, 1, 5, 2, 2), "m2": (1, 2, 4, 4, 5, 1), "out": (2,) * 6}


def specs(tier):
    return {k: dict(args=a) for k, a in CFG.items()}


PERM3 = ["102", "210", "021", "120", "201"]


def ops(nd, mhd):
    o = []
    if nd == 3:
        o += ["perm" + p for p in PERM3]
    if nd == 2:
        o += ["perm102"]
    o += ["refl%d" % d for d in range(nd)]
    if mhd:
        o.append("flipB")
    return o


def cases(tier):
    pats = (1,) if tier == "quick" else (1, 2, 3)
    for cfg in CFG:
        for nd in (1, 2, 3):
            if "fofc" in cfg and nd > 1:
                for x in range(len(space.XV)):
                    for p in range(1, 3 if tier == "quick" else 9):
                        for o in ops(nd, ics.Phys(CFG[cfg]).mhd):
                            yield dict(cfg=cfg, nd=nd, bc="per", op=o, pat=p, gp=0, x=x)
            for pat in pats:
                for b in BC0:
                    if nd == 3 and tier == "quick" and (b == "m1" or b == "out" and not ics.Phys(CFG[cfg]).mhd) or (cfg in PERONLY or "3pcl" in cfg) and b != "per":
                        continue
                    for o in ops(nd, ics.Phys(CFG[cfg]).mhd and "res" not in cfg):
                        if cfg in space.DIFF and b != "per" and o.startswith("perm"):
                            continue
                        yield dict(cfg=cfg, nd=nd, bc=b, op=o, pat=pat, gp=2 if b == "m2" and cfg not in space.DIFF else 0)
                if cfg not in space.DIFF:
                    for o in ["roll"] + ([] if "3pcl" in cfg or cfg in PERONLY else ["dens", "len", "time"]):
                        yield dict(cfg=cfg, nd=nd, bc="per", op=o, pat=pat, gp=2 if o != "roll" else 0)
                # embeddings in a higher dimension
                for m in range(nd + 1, 4):
                    if "hcorr" in cfg or cfg.startswith("sg"):
                        continue
                    for pl in itertools.permutations(range(m), nd):
                        if nd == 2 and pl[0] > pl[1] and tier == "quick":
                            continue
                        yield dict(cfg=cfg, nd=nd, bc="per", op="emb%d" % m, pl=list(pl), pat=pat, gp=0)


SZ = {1: (16, 1, 1), 2: (12, 9, 1), 3: (8, 7, 6)}


def full(n, B):
    """face arrays with n+1 faces along their own axis in every direction"""
    out = []
    for q in range(3):
        b = B[q]
        if q and n[q] == 1:
            b = np.concatenate([b, b], axis=2 - q)
        out.append(b)
    return out


def squeeze(n, B):
    return [B[0]] + [np.take(B[q], [0], axis=2 - q) if n[q] == 1 else B[q] for q in (1, 2)]


class Prob:
    """state + geometry that symmetry operations act on"""
    def __init__(s, n, box, bc, U, B, g, dim):
        s.n, s.box, s.bc, s.U, s.B, s.g, s.dim = list(n), [tuple(b) for b in box], list(bc), U, B, list(g), list(dim)


def perm(ph, P, pi):
    """new axis d shows old axis pi[d]"""
    t = tuple(2 - pi[q] for q in (2, 1, 0))
    sgn = np.linalg.det(np.eye(3)[list(pi)])
    U = P.U.copy()
    for d in range(3):
        U[1 + d] = P.U[1 + pi[d]]
        if ph.mhd:
            U[ph.iB + d] = sgn * P.U[ph.iB + pi[d]]
    U = U.transpose((0,) + tuple(1 + x for x in t))
    B = [sgn * P.B[pi[d]].transpose(t) for d in range(3)] if ph.mhd else None
    return Prob([P.n[pi[d]] for d in range(3)], [P.box[pi[d]] for d in range(3)], sum(([P.bc[2 * pi[d]], P.bc[2 * pi[d] + 1]] for d in range(3)), []),
                U, B, [P.g[pi[d]] for d in range(3)], [P.dim[pi[d]] for d in range(3)])


def refl(ph, P, d):
    sl = [slice(None)] * 3
    sl[2 - d] = slice(None, None, -1)
    U = P.U[(slice(None),) + tuple(sl)].copy()
    U[1 + d] *= -1
    B = None
    if ph.mhd:
        B = []
        for q in range(3):
            s = 1 if q == d else -1
            U[ph.iB + q] *= s
            B.append(s * P.B[q][tuple(sl)])
    box, bc = list(P.box), list(P.bc)
    box[d] = (-box[d][1], -box[d][0])
    bc[2 * d], bc[2 * d + 1] = bc[2 * d + 1], bc[2 * d]
    return Prob(P.n, box, bc, U, B, P.g, P.dim)


def flipB(ph, P):
    U = P.U.copy()
    U[ph.iB:ph.iB + 3] *= -1
    return Prob(P.n, P.box, P.bc, U, [-b for b in P.B], P.g, P.dim)


def roll(ph, P, sh):
    U = P.U
    B = P.B
    for d in range(3):
        if P.n[d] > 1:
            ax = 2 - d
            U = np.roll(U, sh[d], axis=1 + ax)
            if B is not None:
                nb = []
                for q in range(3):
                    b = B[q]
                    if q == d:
                        c = np.roll(np.take(b, range(P.n[d]), axis=ax), sh[d], axis=ax)
                        b = np.concatenate([c, np.take(c, [0], axis=ax)], axis=ax)
                    else:
                        b = np.roll(b, sh[d], axis=ax)
                    nb.append(b)
                B = nb
    return Prob(P.n, P.box, P.bc, U, B, P.g, P.dim)


def scale(ph, P, m, l, t, cs=None):
    """units: density m, length l, time t (powers of 4, so that every factor is exact)"""
    v = l / t
    U = P.U.copy()
    U[0] *= m
    U[1:4] *= m * v
    if ph.adi:
        U[4] *= m * v * v
    fb = np.sqrt(m) * v
    if ph.mhd:
        U[ph.iB:ph.iB + 3] *= fb
    for q in range(ph.ns):
        U[ph.iS + q] *= m
    B = [b * fb for b in P.B] if ph.mhd else None
    return Prob(P.n, [(a * l, b * l) for a, b in P.box], P.bc, U, B, [g / t / t for g in P.g], P.dim)


def embed(ph, P, m, w=5):
    """repeat along axes that are in the mesh only in the higher-dimensional version"""
    U, B, n, dim, box = P.U, P.B, list(P.n), list(P.dim), list(P.box)
    for d in range(m):
        if not dim[d]:
            U = np.repeat(U, w, axis=3 - d)
            if B is not None:
                B = [np.repeat(b, w, axis=2 - d) if q != d else np.repeat(np.take(b, [0], axis=2 - d), w + 1, axis=2 - d) for q, b in enumerate(B)]
            n[d] = w
            dim[d] = 1
            box[d] = (0.0, 4.0 * w * 0.15)
    return Prob(n, box, P.bc, U, B, P.g, dim)


def go(ctx, case, ph, c, P, name, ts=1.0, cs=1.0, nlim=3):
    prob = dict(space.DPROB.get(case["cfg"], {}))
    if case["op"][:3] in ("per", "emb"):
        prob.pop("Q_H", None)
    if case["op"].startswith("emb"):     # the diffusive limit on the timestep depends on the dimension: keep it inactive
        prob = {k: v / 8 for k, v in prob.items()}
        if case["nd"] == 1:              # documented: anisotropic conduction needs at least two dimensions
            prob.pop("kappa_aniso", None)
    if ph.selfg:
        prob["mean_rho"] = float(P.U[0].mean())
    if case["gp"]:
        prob.update(gpot=2, g1=P.g[0], g2=P.g[1], g3=P.g[2])
    inp = sim.athinput(nx=P.n, box=P.box, bc=P.bc, nlim=nlim, cour=0.1 if case["cfg"] in space.DIFF else 0.3, problem=prob, cs=cs)
    B = squeeze(P.n, P.B) if ph.mhd else None
    sim.write_ic(c.path(name), [(P.U, B)])
    rc, out = sim.run_serial(ctx.exes[case["cfg"]], c.dir, inp, ic=c.path(name), mode=3, dump="d" + name)
    ctx.trace()
    S = sim.read_dump(c.path("d" + name))
    return rc, out, S, inp, (P.U, B)


def run(case, ctx):
    ph = ics.Phys(CFG[case["cfg"]])
    nd, op = case["nd"], case["op"]
    x = case.get("x")
    n = SZ[nd] if x is None else space.XSZ[nd]
    dx = (0.11, 0.08, 0.13)
    box = [(0.2 + 0.1 * d, 0.2 + 0.1 * d + dx[d] * n[d]) for d in range(3)]
    bc = list(BC0[case["bc"]])
    if x is None:
        U, B = ics.lattice(ph, n, box, pat=case["pat"] + 3 * nd, amp=0.7 if case["bc"] == "per" else 0.4, bc=bc)
    else:
        U, B = space.extreme(ph, n, *space.XV[x], case["pat"])
    P = Prob(n, box, bc, U, full(n, B) if B is not None else None, (0.5, -0.3, 0.4), [1 if x > 1 else 0 for x in n])
    if ph.mhd:
        # a potential that is not even about a reflecting wall makes the wall field depend on the wall's side
        P.g = [0.0 if 1 in bc[2 * d:2 * d + 2] else P.g[d] for d in range(3)]
    cs = 1.0
    ts = 1.0
    if op.startswith("perm"):
        f = lambda p: perm(ph, p, [int(x) for x in op[4:]])
    elif op.startswith("refl"):
        f = lambda p: refl(ph, p, int(op[4:]))
    elif op == "roll":
        f = lambda p: roll(ph, p, (5, 4, 2))
    elif op == "flipB":
        f = lambda p: flipB(ph, p)
    elif op == "dens":
        f = lambda p: scale(ph, p, 4.0, 1.0, 1.0)
    elif op == "len":
        f = lambda p: scale(ph, p, 1.0, 4.0, 1.0)
        cs = 4.0
    elif op == "time":
        f = lambda p: scale(ph, p, 1.0, 1.0, 4.0)
        cs = 0.25
        ts = 4.0
    elif op.startswith("emb"):
        pl, m = case["pl"], int(op[3:])
        pi = [None] * 3
        for a, d in enumerate(pl):
            pi[d] = a
        rest = [a for a in range(3) if a not in pi]
        pi = [rest.pop(0) if x is None else x for x in pi]
        f = lambda p: embed(ph, perm(ph, p, pi), m)
    with ctx.case() as c:
        rc, out, S0, inp, lev = go(ctx, case, ph, c, P, "a")
        Q = f(P)
        rc2, out2, S1, _, _ = go(ctx, case, ph, c, Q, "b", cs=cs)
        if rc or rc2:
            if (rc != 0) != (rc2 != 0):
                ctx.fail("run", "%s: original run ended with %d, transformed one with %d: %s" % (op, rc, rc2, (out + out2)[-300:]))
            else:
                ctx.count("both-fail")
            return
        guard = sim.conditioning(c, ctx.exes[case["cfg"]], inp, lev, S0)
        if len(S0) != len(S1):
            ctx.fail("steps", "%s: different number of steps" % op)
            return
        for a, b in zip(S0, S1):
            ctx.snap(b)
            ctx.step()
            L = a.level()
            if not np.isfinite(L["U"]).all():
                ctx.count("nonfinite")
                return
            R = f(Prob(P.n, P.box, P.bc, L["U"], full(P.n, L["B"]) if ph.mhd else None, P.g, P.dim))
            M = b.level()
            D = [("variable %d" % v, cmp.maxdiff(M["U"][v] / s, R.U[v] / s)) for v in range(ph.nv) for s in [max(1.0, np.abs(R.U[v]).max())]]
            if ph.mhd:
                RB = squeeze(Q.n, R.B)
                D += [("face field %d" % (q + 1), cmp.maxdiff(M["B"][q], RB[q])) for q in range(3)]
            D += [("time", abs(b.time / ts - a.time) / max(a.time, 1e-30)), ("timestep", abs(b.dt / ts - a.dt) / a.dt)]
            w = cmp.worst(D)
            if not w[1] <= (3e-6 if case["cfg"] == "srm" else TOL):     # srm: its Riemann solver iterates to a finite accuracy
                if guard(w[1], a.nstep):
                    ctx.count("ill-conditioned")
                    ctx.count("ill-%s-%d-%s" % (op, nd, case["bc"]))
                    return
                ctx.fail("sym-" + op[:4], "%s of a %dD problem: %s differs by %.3g after step %d" % (op, nd, w[0], w[1], a.nstep))
                return
