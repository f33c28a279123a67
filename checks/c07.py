"""C07: conserved totals do not change (periodic or closed boxes), whatever the flow and the solvers.

Every configuration in the space is run on every arrangement of the bounded family (all local neighbourhoods over a
state alphabet via de Bruijn words, along every axis and dimension, and unrelated-value lattices); totals are judged
after every step."""
import math
import numpy as np
from vlib import ics, sim, space

TOL = 2e-12
BOUNDS = ("30 solver configurations x dimensions 1-3 x {de Bruijn words of length 5 over 3 states (every neighbourhood) for 5 "
          "alphabets along every axis; unrelated-value lattices} x {periodic, closed} x 3 steps")
ASSUME = ["round-off accumulates below 2e-12 of the summed magnitudes over the steps explored",
          "closed (reflecting) boxes are judged for gas without magnetic field"]
CFG = dict(space.CORE, **space.DIFF, **space.FOFC)
CFG["sr-h"] = "--with-gas=hydro --enable-special-relativity --with-integrator=vl --with-order=2p --with-flux=hllc"
CFG["sr-m"] = "--enable-special-relativity --with-integrator=vl --with-order=2p --with-flux=hlld"
GRAV = {"h-ctu-roe-2", "h-ctu-hllc-3", "h-vl-hllc-2p", "h-vl-hlle-fofc", "m-ctu-roe-2", "m-vl-hlld-2p"}


def specs(tier):
    return {k: dict(args=a) for k, a in CFG.items()}


def cases(tier):
    pats = (1, 2) if tier == "quick" else range(1, 9)
    for cfg, a in CFG.items():
        ph = ics.Phys(a)
        for nd in (1, 2, 3):
            if "fofc" in a and nd > 1:
                for x in range(len(space.XV)):
                    for p in range(1, 5 if tier == "quick" else 25):
                        for g in (0, 6):
                            yield dict(cfg=cfg, kind="fofc", nd=nd, pat=p, x=x, bc="per", g=g)
                yield dict(cfg=cfg, kind="fofcedge", nd=nd, pat=1, x=1, bc="per", g=0)
            for p in pats:
                yield dict(cfg=cfg, kind="lat", nd=nd, pat=p, bc="per", g=0)
                if not ph.mhd:
                    yield dict(cfg=cfg, kind="lat", nd=nd, pat=p, bc="ref", g=0)
                if cfg in GRAV:
                    yield dict(cfg=cfg, kind="lat", nd=nd, pat=p, bc="per", g=6)
                    if not ph.mhd:
                        yield dict(cfg=cfg, kind="lat", nd=nd, pat=p, bc="ref", g=6)
            if ph.sr:
                continue
            for al in space.STATES:
                if "exact" in a and al in ("super", "superneg") and False:
                    continue
                for ax in range(nd):
                    if nd == 3 and tier == "quick" and al not in ("mild", "super"):
                        continue
                    yield dict(cfg=cfg, kind="word", nd=nd, al=al, ax=ax, bc="per")


SZ = {1: (24, 1, 1), 2: (12, 9, 1), 3: (8, 7, 6)}


def total(x):
    return math.fsum(np.asarray(x, float).ravel())


def run(case, ctx):
    a = CFG[case["cfg"]]
    ph = ics.Phys(a)
    nd = case["nd"]
    box = ((0.0, 1.0), (-0.5, 0.5), (0.0, 1.0))
    if case["kind"] == "lat":
        n = SZ[nd]
        U, B = ics.lattice(ph, n, box, pat=case["pat"], amp=0.8 if not ph.sr else 0.5)
    elif case["kind"].startswith("fofc"):
        n = space.XSZ[nd]
        U, B = space.extreme(ph, n, *space.XV[case["x"]], case["pat"], **(dict(margin=0) if case["kind"] == "fofcedge" else {}))
    else:
        st = space.STATES[case["al"]]
        word = space.debruijn(3, 5 if nd == 1 else 4)
        if nd == 3:
            word = word[:24]
        n, U, B = space.word_ic(ph, word, st, axis=case["ax"], width=8 if nd == 2 else 5, ndim=nd,
                                bx=0.4 if case["al"] in ("mild", "super") else 0.0)
        box = tuple((0.0, n[d] / 16.0) for d in range(3))
    prob = dict(space.DPROB.get(case["cfg"], {}))
    g = case.get("g", 0)
    if g:
        prob.update(gpot=g, g1=0.1, g2=-0.3, g3=0.2)
    bc = (4,) * 6 if case["bc"] == "per" else (1,) * 6
    inp = sim.athinput(nx=n, box=box, bc=bc, nlim=3, cour=0.1 if case["cfg"] in space.DIFF else 0.3, problem=prob)
    with ctx.case() as c:
        sim.write_ic(c.path("ic"), [(U, B)])
        rc, out = sim.run_serial(ctx.exes[case["cfg"]], c.dir, inp, mode=3)
        ctx.trace()
        if rc != 0:
            ctx.fail("run", "run failed (%d): %s" % (rc, out[-300:]))
            return
        if case["kind"].startswith("fofc"):
            ctx.count("flux-corrected" if b"Step14" in out else "not-corrected")
        S = sim.read_dump(c.path("dump"))
        if len(S) < 3:
            ctx.fail("steps", "only %d states recorded" % len(S))
            return
        names = ["mass", "M1", "M2", "M3"] + (["energy"] if ph.adi else [])
        idx = list(range(len(names)))
        if ph.mhd:
            names += ["B1", "B2", "B3"]
            idx += [ph.iB, ph.iB + 1, ph.iB + 2]
        names += ["scalar%d" % q for q in range(ph.ns)]
        idx += [ph.iS + q for q in range(ph.ns)]
        closed = case["bc"] == "ref"
        pot = 0.0
        if g:
            x = [box[d][0] + (np.arange(n[d]) + 0.5) * (box[d][1] - box[d][0]) / n[d] for d in range(3)]
            X3, X2, X1 = np.meshgrid(x[2], x[1], x[0], indexing="ij")
            pot = 0.1 * np.cos(2 * np.pi * X1) - 0.3 * np.cos(2 * np.pi * X2) + 0.2 * np.cos(2 * np.pi * X3)
        mag = {q: max(total(abs(U[q])), total(abs(U[0]))) for q in idx}
        first = {q: total(U[q] + (pot * U[0] if q == ph.iE else 0)) for q in idx}
        for s in S:
            L = s.level()
            V = L["U"]
            ctx.snap(s)
            ctx.step()
            if not np.isfinite(V).all():
                ctx.count("nonfinite")
                break
            for nm, q in zip(names, idx):
                if closed and (q in (1, 2, 3) or nm[0] == "B"):
                    continue
                if g and q in (1, 2, 3):
                    continue
                t = total(V[q] + (pot * V[0] if q == ph.iE else 0))
                e = abs(t - first[q]) / mag[q]
                if not e <= TOL:
                    ctx.fail("fofc-edge" if case["kind"] == "fofcedge" and b"Step14" in out else "total", "step %d: total %s changed by %.3g of its magnitude" % (s.nstep, nm, e))
                    return
            if ph.mhd and case["bc"] == "per":
                for q in range(3):
                    # net flux through every plane of faces
                    if n[q] == 1 and q > 0:
                        continue
                    ax = tuple(z for z in range(3) if z != 2 - q)
                    f0, f1 = B[q].sum(axis=ax), L["B"][q].sum(axis=ax)
                    e = np.max(np.abs(f1 - f0)) / max(1.0, np.abs(B[q]).sum() / n[q])
                    if not e <= TOL:
                        ctx.fail("fofc-edge" if case["kind"] == "fofcedge" and b"Step14" in out else "flux", "step %d: net flux of B%d through a plane changed by %.3g" % (s.nstep, q + 1, e))
                        return
