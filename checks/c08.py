"""C08: the magnetic field stays divergence free, and the cell-centred field stays the average of the face field."""
import numpy as np
from vlib import ics, sim, space

TOL = 1e-12
BOUNDS = ("20 magnetised configurations (every integrator, MHD solver, resistive terms, relativistic, cylindrical) x dimensions 1-3 x "
          "8 boundary sets x {unrelated-value lattices, de Bruijn words along every axis} x 4 steps")
ASSUME = ["cells touching a reflecting wall are judged separately (known finding reflect-wall: the wall condition overwrites the normal field there)",
          "the initial field is divergence free", "steps in which the flow becomes non-finite are not judged (none occur on this tree)"]
CFG = {k: a for k, a in dict(space.CORE, **space.DIFF, **space.FOFC).items() if ics.Phys(a).mhd}
CFG["sr-m"] = "--enable-special-relativity --with-integrator=vl --with-order=2p --with-flux=hlld"
CFG["sr-e"] = "--enable-special-relativity --with-integrator=vl --with-order=2p --with-flux=hlle"
CFG["cyl"] = "--with-coord=cylindrical --with-flux=hlld --with-order=3"
CFG["cylvl"] = "--with-coord=cylindrical --with-flux=hlld --with-integrator=vl --with-order=2p"
CFG["cylres"] = "--with-coord=cylindrical --with-flux=hlld --enable-resistivity --with-eos=isothermal"
PROB = dict(space.DPROB, cylres=dict(eta_O=0.01))
BCS = {"per": (4,) * 6, "out": (2,) * 6, "ref": (1,) * 6, "con": (5,) * 6, "m1": (1, 2, 4, 4, 2, 1), "m2": (2, 5, 1, 2, 5, 2),
       "m3": (4, 4, 2, 1, 1, 5), "m4": (5, 1, 5, 1, 4, 4)}


def specs(tier):
    return {k: dict(args=a) for k, a in CFG.items()}


def cases(tier):
    pats = (1,) if tier == "quick" else range(1, 7)
    for cfg, a in CFG.items():
        ph = ics.Phys(a)
        for nd in (1, 2, 3):
            if "fofc" in a and nd > 1:
                for x in range(len(space.XV)):
                    for p in range(1, 5 if tier == "quick" else 25):
                        yield dict(cfg=cfg, kind="fofc", nd=nd, pat=p, x=x, bc="per")
            for b in BCS:
                for p in pats:
                    yield dict(cfg=cfg, kind="lat", nd=nd, bc=b, pat=p)
            if ph.sr or ph.cyl:
                continue
            for al in space.STATES:
                for ax in range(nd):
                    if nd == 1 or (nd == 3 and tier == "quick" and al not in ("mild", "super")):
                        continue
                    yield dict(cfg=cfg, kind="word", nd=nd, al=al, ax=ax, bc="per")


SZ = {1: (16, 1, 1), 2: (12, 9, 1), 3: (8, 7, 6)}


def run(case, ctx):
    a = CFG[case["cfg"]]
    ph = ics.Phys(a)
    nd = case["nd"]
    box = ((0.0, 1.0), (-0.5, 0.5), (0.2, 1.2))
    bc = list(BCS[case["bc"]])
    if ph.cyl:
        box = ((1.0, 2.0), (0.0, 1.0), (0.2, 1.2))
        if bc[0] == 4:
            bc[0] = bc[1] = 2
    per = case["bc"] == "per" and not ph.cyl
    if case["kind"] == "lat":
        n = SZ[nd]
        U, B = ics.lattice(ph, n, box, pat=case["pat"], amp=0.5 if (ph.sr or not per) else 0.9, cyl=ph.cyl, bc=bc)
    elif case["kind"] == "fofc":
        n = space.XSZ[nd]
        U, B = space.extreme(ph, n, *space.XV[case["x"]], case["pat"])
    else:
        st = space.STATES[case["al"]]
        word = space.debruijn(3, 4)
        if nd == 3:
            word = word[:24]
        n, U, B = space.word_ic(ph, word, st, axis=case["ax"], width=8 if nd == 2 else 5, ndim=nd,
                                bx=0.4 if case["al"] in ("mild", "super") else 0.0)
        box = tuple((0.0, n[d] / 16.0) for d in range(3))
    inp = sim.athinput(nx=n, box=box, bc=bc, nlim=4, cour=0.1 if ph.args.find("resist") > 0 else 0.3, problem=PROB.get(case["cfg"]))
    with ctx.case() as c:
        sim.write_ic(c.path("ic"), [(U, B)])
        rc, out = sim.run_serial(ctx.exes[case["cfg"]], c.dir, inp, mode=3)
        ctx.trace()
        if rc != 0:
            ctx.fail("run", "run failed (%d): %s" % (rc, out[-300:]))
            return
        S = sim.read_dump(c.path("dump"))
        if len(S) < 4:
            ctx.fail("steps", "only %d states recorded" % len(S))
            return
        h = min((box[d][1] - box[d][0]) / n[d] for d in range(3) if n[d] > 1)
        if ph.cyl:
            dr = (box[0][1] - box[0][0]) / n[0]
            ri = box[0][0] + dr * np.arange(n[0] + 1)
        # a reflecting wall sets the normal field on the wall itself, so the cells touching it are not judged
        mask = [slice(None)] * 3
        for d in range(3):
            if n[d] > 1 or d == 0:
                mask[2 - d] = slice(1 if bc[2 * d] == 1 else 0, -1 if bc[2 * d + 1] == 1 else None)
        mask = tuple(mask)
        wall = 0.0
        for s in S:
            L = s.level()
            ctx.snap(s)
            ctx.step()
            if not np.isfinite(L["U"]).all() or not all(np.isfinite(b).all() for b in L["B"]):
                ctx.count("nonfinite")
                break
            bm = max(1.0, max(np.max(np.abs(b)) for b in L["B"]))
            dv = np.abs(ics.divb(n, box, L["B"], ph.cyl))
            if nd > 1:
                wall = max(wall, np.max(dv) * h / bm)
            dv = dv[mask]
            e = np.max(dv) * h / bm
            if not e <= TOL:
                ctx.fail("divb", "step %d: divergence of B is %.3g |B|/dx" % (s.nstep, e))
                return
            if ph.cyl:
                rc_ = 0.5 * (ri[1:] + ri[:-1])
                b1 = 0.5 * (ri[1:] * L["B"][0][:, :, 1:] + ri[:-1] * L["B"][0][:, :, :-1]) / rc_
                _, b2, b3 = ics.bcc(n, L["B"])
            else:
                b1, b2, b3 = ics.bcc(n, L["B"])
            for q, bq in enumerate((b1, b2, b3)):
                e = np.max(np.abs(L["U"][ph.iB + q] - bq)[mask]) / bm
                if not e <= TOL:
                    ctx.fail("center", "step %d: cell-centred B%d differs from the face average by %.3g" % (s.nstep, q + 1, e))
                    return
        if wall > TOL:
            ctx.fail("reflect-wall" if wall < 0.1 else "divb", "divergence of B next to a reflecting wall is %.3g |B|/dx" % wall)
