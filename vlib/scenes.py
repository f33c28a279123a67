"""Named physical set-ups spanning the whole code; each gives configure flags, initial state, input parameters and
the decompositions in which it can run in parallel."""
import numpy as np
from . import ics, sim

B1 = ((0.0, 1.0), (-0.5, 0.5), (0.2, 1.2))
BS = ((-0.5, 0.5), (0.0, 1.0), (-0.5, 0.5))
BCY = ((1.0, 2.0), (0.0, 1.0), (0.2, 1.2))
PER = (4,) * 6

PARTS = dict(partypes=2, parnumcell=1, integrator=2, interp=2, tsmode=3)


def S(args, n, box=B1, bc=PER, decos=(), **kw):
    d = dict(args=args, n=n, box=box, bc=bc, decos=list(decos))
    d.update(kw)
    return d


D2 = [(2, 1, 1), (1, 2, 1), (2, 2, 1), (3, 1, 1)]
D3 = [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 2)]
SCENES = {
    # core
    "mhd1": S("--with-nscalars=2", (13, 1, 1), bc=(2, 1, 4, 4, 4, 4), prob=dict(gpot=2, g1=0.5), decos=[(2, 1, 1), (3, 1, 1)]),
    "mhd2": S("--with-nscalars=2", (12, 9, 1), bc=(4, 4, 2, 5, 4, 4), prob=dict(gpot=2, g1=0.5, g2=-.3), decos=[(3, 2, 1)]),
    "mhd3": S("--with-nscalars=2", (9, 8, 8), bc=(2, 5, 4, 4, 5, 2), prob=dict(gpot=2, g1=0.5, g2=-.3, g3=0.4), decos=[(2, 2, 2)]),
    "hydvl2": S("--with-gas=hydro --with-integrator=vl --with-order=3p --enable-fofc --with-nscalars=1", (12, 9, 1), bc=(1, 2, 1, 2, 4, 4), decos=[(2, 2, 1)]),
    "hydiso3": S("--with-gas=hydro --with-eos=isothermal --with-flux=hlle", (9, 8, 8), bc=(2, 1, 4, 4, 1, 1), decos=[(2, 1, 2)]),
    "ubc2": S("--with-gas=hydro", (10, 9, 1), bc=(2,) * 6, prob=dict(ubc=15), decos=[(2, 2, 1)]),
    "ubc3": S("--with-gas=hydro", (8, 8, 8), bc=(2,) * 6, prob=dict(ubc=63), decos=[(2, 2, 2)]),
    "cool2": S("--with-gas=hydro --with-integrator=vl --with-order=2p", (10, 9, 1), prob=dict(cool=0.2), decos=[(2, 2, 1)]),
    "coolc3": S("--with-order=2", (8, 8, 8), prob=dict(cool=0.2), decos=[(2, 1, 2)]),
    # diffusion
    "diff3": S("--enable-resistivity --enable-conduction", (9, 8, 8), prob=dict(eta_O=.01, Q_H=.01, Q_A=.01, kappa_iso=.01, kappa_aniso=.01), cour=0.1, decos=[(2, 2, 2)]),
    "sts2": S("--enable-resistivity --enable-sts --with-integrator=vl --with-order=2p", (12, 9, 1), prob=dict(eta_O=0.05), cour=0.1, decos=[(2, 2, 1)]),
    "visc3": S("--with-gas=hydro --enable-viscosity --enable-conduction", (9, 8, 8), bc=(2, 2, 4, 4, 1, 1), prob=dict(nu_iso=0.01, kappa_iso=0.01), cour=0.1, decos=[(2, 2, 2)]),
    "vsts2": S("--with-gas=hydro --enable-viscosity --enable-conduction --enable-sts", (12, 9, 1), prob=dict(nu_iso=0.05, kappa_iso=0.02), cour=0.1, decos=[(2, 2, 1)]),
    # geometry, relativity
    "cyl2": S("--with-coord=cylindrical --with-flux=hlld", (12, 9, 1), box=BCY, bc=(2, 2, 4, 4, 4, 4), prob=dict(gpot=3, g1=1.0), decos=[(2, 2, 1)]),
    "cyl3": S("--with-coord=cylindrical --with-flux=hllc --with-gas=hydro --with-integrator=vl --with-order=2p --with-nscalars=1", (9, 8, 8), box=BCY, bc=(2, 2, 4, 4, 1, 2), decos=[(2, 2, 2)]),
    "cylm3": S("--with-coord=cylindrical --with-flux=hlld --with-order=3 --with-eos=isothermal", (9, 8, 8), box=BCY, bc=(2, 2, 4, 4, 4, 4), prob=dict(gpot=5, g1=1.0), decos=[(2, 2, 2)]),
    "cylrot2": S("--with-coord=cylindrical --with-eos=isothermal --with-gas=hydro --enable-rotating_frame", (10, 9, 1), box=BCY, bc=(2, 2, 4, 4, 4, 4), prob=dict(gpot=3, g1=1.0, omega=0.7), decos=[(2, 2, 1)]),
    "cylfg3": S("--with-coord=cylindrical --with-eos=isothermal --with-gas=mhd --with-flux=hlld --enable-fargo --with-order=3", (8, 12, 8), box=BCY, bc=(2, 2, 4, 4, 4, 4), prob=dict(gpot=3, g1=1.0, fgOm=1.0, fgq=1.5), decos=[(2, 1, 2), (2, 2, 1)]),
    "cylfgh2": S("--with-coord=cylindrical --with-eos=isothermal --with-gas=hydro --with-integrator=vl --with-order=3p --enable-fargo", (8, 12, 1), box=BCY, bc=(2, 2, 4, 4, 4, 4), prob=dict(gpot=3, g1=1.0, fgOm=1.0, fgq=1.5), decos=[(2, 1, 1), (1, 2, 1)]),
    "sr1": S("--enable-special-relativity --with-integrator=vl --with-order=2p --with-flux=hlle", (13, 1, 1), bc=(2,) * 6, decos=[(2, 1, 1)]),
    "sr2": S("--enable-special-relativity --with-integrator=vl --with-order=2p --with-flux=hlld", (12, 9, 1), bc=(2, 2, 4, 4, 4, 4), decos=[(2, 2, 1)]),
    "sr3": S("--enable-special-relativity --with-gas=hydro --with-integrator=vl --with-order=2p --with-flux=hllc", (8, 8, 8), decos=[(2, 1, 2)]),
    # self-gravity
    "sg1": S("--with-gravity=fft --enable-fft", (16, 1, 1), decos=[]),
    "sgfft2": S("--with-gravity=fft --enable-fft", (12, 8, 1), decos=[(2, 1, 1), (2, 2, 1)]),
    "sgfft3": S("--with-gravity=fft --enable-fft --with-gas=hydro --with-eos=isothermal --with-order=3p", (8, 8, 8), decos=[(2, 2, 2), (2, 1, 1), (1, 2, 1), (1, 1, 2)]),
    "sgvl3": S("--with-gravity=fft --enable-fft --with-integrator=vl --with-order=2p", (8, 8, 8), decos=[(2, 2, 1)]),
    "sgobc3": S("--with-gravity=fft_obc --enable-fft --with-gas=hydro", (8, 8, 8), bc=(2,) * 6, decos=[(2, 2, 2), (2, 1, 1), (1, 2, 1), (1, 1, 2)]),
    "sgmg3": S("--with-gravity=multigrid --with-gas=hydro", (8, 8, 8), box=BS, bc=(1,) * 6, decos=[]),
    "sgdisk3": S("--with-gravity=fft_disk --enable-fft --enable-shearing-box --with-gas=hydro --with-eos=isothermal", (8, 8, 8), box=BS, bc=(4, 4, 4, 4, 2, 2), prob=dict(omega=1.0), decos=[(2, 1, 1), (1, 1, 2), (1, 2, 1), (2, 2, 1)]),
    "sgdiskp3": S("--with-gravity=fft_disk --enable-fft --with-gas=hydro", (8, 8, 8), box=BS, bc=(4, 4, 4, 4, 2, 2), decos=[(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 2)]),
    "sgsh2": S("--with-gravity=fft --enable-fft --enable-shearing-box --with-eos=isothermal --with-flux=hlld", (8, 16, 1), box=BS, prob=dict(omega=1.0), decos=[(2, 1, 1), (1, 2, 1), (2, 2, 1)]),
    "sgsh3": S("--with-gravity=fft --enable-fft --enable-shearing-box --enable-fargo --with-gas=hydro --with-order=3p", (8, 16, 8), box=BS, prob=dict(omega=1.0), decos=[(2, 2, 1), (1, 2, 2), (1, 1, 2), (2, 1, 1)]),
    # shearing box
    "sh3": S("--enable-shearing-box", (8, 15, 8), box=BS, decos=[(2, 1, 1), (1, 1, 2), (1, 3, 1)], prob=dict(omega=1.0)),
    "shi3": S("--enable-shearing-box --with-eos=isothermal --with-flux=hlld --with-order=3 --with-nscalars=1", (8, 15, 8), box=BS, bc=(4, 4, 4, 4, 2, 2), decos=[(2, 3, 1), (1, 3, 1)], prob=dict(omega=1.0)),
    "shvl3": S("--enable-shearing-box --with-integrator=vl --with-order=2p", (8, 12, 8), box=BS, decos=[(2, 2, 1)], prob=dict(omega=1.0)),
    "sh2": S("--enable-shearing-box", (8, 15, 1), box=BS, decos=[(2, 1, 1), (1, 3, 1), (2, 3, 1)], prob=dict(omega=1.0)),
    "shxz2": S("--enable-shearing-box", (8, 12, 1), box=BS, decos=[(2, 1, 1), (1, 2, 1), (2, 2, 1)], prob=dict(omega=1.0, shbox_xz=1)),
    "fg3": S("--enable-shearing-box --enable-fargo", (8, 18, 8), box=BS, decos=[(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 2), (1, 3, 1)], prob=dict(omega=1.0)),
    "fgh3": S("--enable-shearing-box --enable-fargo --with-gas=hydro --with-eos=isothermal --with-order=3p --with-nscalars=1", (8, 18, 8), box=BS, decos=[(2, 2, 1), (1, 3, 1)], prob=dict(omega=1.0)),
    "fgw3": S("--enable-shearing-box --enable-fargo --with-nscalars=1", (8, 20, 8), box=((-4.0, 4.0), (0.0, 1.0), (-0.5, 0.5)), decos=[(2, 1, 1), (1, 2, 1), (2, 2, 1)], prob=dict(omega=1.0)),
    "fg2": S("--enable-shearing-box --enable-fargo --with-gas=hydro --with-eos=isothermal --with-order=3p", (8, 12, 1), box=BS, decos=[(2, 1, 1), (1, 2, 1), (2, 2, 1)], prob=dict(omega=1.0)),
    "shres3": S("--enable-shearing-box --enable-resistivity --with-eos=isothermal --with-flux=hlld", (8, 15, 8), box=BS, cour=0.1, decos=[(1, 3, 1), (2, 3, 1), (2, 1, 1), (1, 1, 2)], prob=dict(omega=1.0, eta_O=0.004, Q_H=0.004, Q_A=0.003)),
    "shres2": S("--enable-shearing-box --enable-resistivity --enable-conduction", (8, 15, 1), box=BS, cour=0.1, decos=[(1, 3, 1), (2, 3, 1), (2, 1, 1)], prob=dict(omega=1.0, eta_O=0.004, Q_A=0.003, kappa_iso=0.01)),
    "shresvl3": S("--enable-shearing-box --enable-resistivity --with-integrator=vl --with-order=2p --with-nscalars=2", (8, 12, 8), box=BS, cour=0.1, decos=[(1, 2, 1), (2, 2, 2)], prob=dict(omega=1.0, eta_O=0.004, Q_A=0.003)),
    "fgres3": S("--enable-shearing-box --enable-fargo --enable-resistivity --enable-viscosity --with-nscalars=2", (8, 18, 8), box=BS, cour=0.1, decos=[(2, 3, 1), (1, 3, 1), (1, 1, 2)], prob=dict(omega=1.0, eta_O=0.004, Q_H=0.003, nu_iso=0.01)),
    "shvis3": S("--enable-shearing-box --enable-viscosity --enable-conduction --with-gas=hydro --with-nscalars=1", (8, 15, 8), box=BS, cour=0.1, decos=[(1, 3, 1), (2, 1, 2)], prob=dict(omega=1.0, nu_iso=0.01, kappa_iso=0.01)),
    # particles
    "pt1": S("--with-particles=passive --with-gas=hydro --with-eos=isothermal", (12, 1, 1), npart=20, part=dict(tsmode=1, integrator=3), decos=[(2, 1, 1)]),
    "pt2": S("--with-particles=feedback --with-gas=hydro --with-eos=isothermal", (12, 9, 1), npart=80, decos=D2),
    "pt3": S("--with-particles=feedback --with-gas=hydro --with-eos=isothermal --with-order=3p", (10, 10, 10), npart=150, part=dict(tsmode=2), decos=D3),
    "ptout3": S("--with-particles=passive --with-gas=hydro --with-eos=isothermal", (9, 8, 8), bc=(2, 1, 1, 2, 2, 2), npart=150, decos=[(2, 2, 2)]),
    "ptw2": S("--with-particles=feedback --with-gas=hydro", (12, 9, 1), bc=(1, 2, 2, 1, 4, 4), npart=80, part=dict(tsmode=1), decos=[(2, 1, 1), (1, 2, 1), (2, 2, 1)]),
    "ptw3": S("--with-particles=feedback --with-gas=hydro --with-eos=isothermal", (9, 8, 10), bc=(2, 1, 1, 2, 2, 1), npart=150, decos=[(1, 1, 2), (2, 2, 2), (2, 2, 1)]),
    "ptb2": S("--with-particles=feedback --with-gas=hydro --with-eos=isothermal", (12, 12, 1), npart=120, burst=1, part=dict(parnumgrid=12, tshuf=0.004), decos=[(2, 1, 1), (1, 2, 1), (2, 2, 1)]),
    "ptb3": S("--with-particles=passive --with-flux=hlld", (8, 8, 8), bc=(4, 4, 4, 4, 2, 2), npart=200, burst=1, part=dict(parnumgrid=20, tshuf=0.003), decos=[(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 2)]),
    "ptbsh3": S("--with-particles=feedback --with-gas=hydro --with-eos=isothermal --enable-shearing-box", (10, 15, 8), box=BS, npart=200, burst=1, part=dict(parnumgrid=15), prob=dict(omega=1.0), decos=[(2, 1, 1), (1, 3, 1), (2, 3, 1)]),
    "ptbxy2": S("--with-particles=feedback --with-gas=hydro --with-eos=isothermal --enable-shearing-box --enable-fargo", (10, 18, 1), box=BS, npart=100, burst=1, part=dict(parnumgrid=15), prob=dict(omega=1.0), decos=[(2, 1, 1), (1, 3, 1), (2, 3, 1)]),
    "ptsh3": S("--with-particles=feedback --with-gas=hydro --with-eos=isothermal --enable-shearing-box --enable-fargo --with-order=3p", (10, 12, 10), box=BS, npart=150, prob=dict(omega=1.0), decos=[(2, 1, 1), (1, 2, 1), (2, 2, 2)]),
    "ptshn3": S("--with-particles=feedback --with-gas=hydro --with-eos=isothermal --enable-shearing-box", (10, 12, 10), box=BS, npart=150, prob=dict(omega=1.0), decos=[(2, 1, 1), (1, 2, 1), (2, 2, 2)]),
    "ptxz2": S("--with-particles=feedback --with-gas=hydro --with-eos=isothermal --enable-shearing-box --enable-fargo --with-order=3p", (10, 12, 1), box=BS, npart=80, prob=dict(omega=1.0, shbox_xz=1), decos=[(2, 1, 1), (2, 2, 1)]),
    # mesh refinement
    "smr1": S("--enable-smr --with-gas=hydro --with-nscalars=1", (16, 1, 1), dom=[dict(level=1, nx=(12, 1, 1), disp=(10, 0, 0))], decos=[(2, 1, 1)], bc=(2, 1, 4, 4, 4, 4)),
    "smr2": S("--enable-smr", (16, 16, 1), dom=[dict(level=1, nx=(16, 12, 1), disp=(8, 10, 0))], decos=[(2, 1, 1)]),
    "smrh3": S("--enable-smr --with-gas=hydro --with-integrator=vl --with-order=2p", (8, 8, 8), dom=[dict(level=1, nx=(8, 8, 8), disp=(4, 4, 4))], decos=[(2, 1, 1)]),
    "smr2n": S("--enable-smr --with-eos=isothermal", (18, 18, 1), dom=[dict(level=1, nx=(16, 16, 1), disp=(8, 8, 0)), dict(level=2, nx=(16, 16, 1), disp=(24, 24, 0))], decos=[]),
    "smr3t": S("--enable-smr", (12, 12, 12), dom=[dict(level=1, nx=(8, 8, 8), disp=(8, 8, 8))], decos=[]),
    "smr3o": S("--enable-smr --with-integrator=vl --with-order=2p", (10, 10, 10), dom=[dict(level=1, nx=(8, 8, 8), disp=(8, 8, 8))], decos=[]),
    "smr3": S("--enable-smr --with-nscalars=1", (8, 8, 8), dom=[dict(level=1, nx=(8, 8, 8), disp=(4, 4, 4)), dict(level=2, nx=(8, 8, 8), disp=(12, 12, 12))], decos=[]),
}


def outputs(part):
    """every output format once, at every step"""
    fm = ["tab", "bin", "vtk", "hst", "rst", "tab1", "pdf1", "vtk1", "pgm1", "ppm1"] + (["lis", "phst"] if part else [])
    outs = []
    for k, f in enumerate(fm):
        o = dict(n=k + 1, dt=1e-9, out_fmt=f)
        if f.endswith("1"):
            o.update(out_fmt=f[:3], out="d", id="q%d" % k)
        outs.append(o)
    return outs


def make(name, pat=1, amp=0.5, n=None):
    """-> (ph, levels, particles, athinput kwargs)"""
    s = SCENES[name]
    ph = ics.Phys(s["args"])
    n, box = n or s["n"], s["box"]
    levels = []
    nl = 1 + max([d["level"] for d in s.get("dom", ())], default=0)
    for l in range(nl):
        m = tuple(x * 2 ** l if x > 1 else 1 for x in n)
        kw = {}
        if ph.cyl:
            kw["v0"] = (0.05, 0.9, 0.1)
        if ph.shear or (ph.cyl and ph.fargo):
            kw["vamp"] = 0.2
        U, B = ics.lattice(ph, m, box, pat=pat + 10 * l, amp=amp, cyl=ph.cyl, bc=s["bc"], **kw)
        if l and B is not None:
            # one consistent divergence-free field for all levels: inject the coarse field
            pass
        levels.append((U, B))
    if nl > 1 and ph.mhd:
        # use the finest level's fluxes for every level so that restriction is exact
        top = levels[-1][1]
        for l in range(nl - 2, -1, -1):
            f = levels[l + 1][1]
            c = restrict_faces(f, tuple(x * 2 ** l if x > 1 else 1 for x in n))
            U = levels[l][0].copy()
            m = tuple(x * 2 ** l if x > 1 else 1 for x in n)
            U = replaceB(ph, U, m, c)
            levels[l] = (U, c)
    if ph.shear and not ph.fargo:
        # add the background shear momentum
        q, om = 1.5, s.get("prob", {}).get("omega", 1.0)
        x = box[0][0] + (np.arange(n[0]) + 0.5) * (box[0][1] - box[0][0]) / n[0]
        U, B = levels[0]
        iy = 3 if s.get("prob", {}).get("shbox_xz") else 2
        v = -q * om * x[None, None, :]
        if ph.adi:
            U[4] += 0.5 * U[0] * (2 * v * U[iy] / U[0] + v * v)
        U[iy] += U[0] * v
    P = []
    if s.get("npart"):
        rng = np.random.RandomState(77 + pat)
        for q in range(s["npart"]):
            x = [box[d][0] + (box[d][1] - box[d][0]) * rng.uniform() if n[d] > 1 else 0.5 * (box[d][0] + box[d][1]) for d in range(3)]
            v = list(rng.uniform(-.8, .8, 3))
            if s.get("burst"):
                # most particles are about to cross a face that divides grids or bounds the box
                d = [a for a in range(3) if n[a] > 1][q % sum(m > 1 for m in n)]
                f = rng.choice([0.0, 1 / 3, 0.5, 2 / 3, 1.0])
                sg = 1 if f == 0 else -1 if f == 1 else rng.choice([-1, 1])
                x[d] = box[d][0] + (box[d][1] - box[d][0]) * (f + sg * 0.002 * rng.uniform(0.1, 1))
                v[d] = -sg * 0.8
            P.append([q % 2, q] + x + v)
    prob = dict(s.get("prob", {}))
    if ph.part:
        prob.update(tstop0=0.3, tstop1=1.5, pmass0=0.02, pmass1=0.01, grrhoa0=0.3, grrhoa1=1.1, prad0=0.7, prad1=1.9, prho1=2.5, alamcoeff=1.7)
    if ph.selfg:
        prob.setdefault("four_pi_G", 1.0)
        prob["mean_rho"] = float(np.mean(levels[0][0][0]))
    kw = dict(nx=n, box=box, bc=s["bc"], cour=s.get("cour", 0.3), problem=prob, domains=s.get("dom", ()))
    if ph.part:
        kw["particle"] = dict(PARTS, parnumgrid=s["npart"] + 10)
        kw["particle"].update(s.get("part", {}))
    return ph, levels, P, kw


def restrict_faces(f, n):
    """face fields of a doubly fine grid -> coarse face averages"""
    out = []
    for q in range(3):
        a = f[q]
        for d in range(3):
            ax = 2 - d
            if n[d] == 1:
                continue
            if d == q:
                sl = [slice(None)] * 3
                sl[ax] = slice(0, None, 2)
                a = a[tuple(sl)]
            else:
                e = [slice(None)] * 3
                o = [slice(None)] * 3
                e[ax], o[ax] = slice(0, None, 2), slice(1, None, 2)
                a = 0.5 * (a[tuple(e)] + a[tuple(o)])
        out.append(a)
    return out


def replaceB(ph, U, n, B):
    bo = [U[ph.iB + q].copy() for q in range(3)]
    bn = ics.bcc(n, B)
    for q in range(3):
        U[ph.iB + q] = bn[q]
    if ph.adi:
        U[4] += 0.5 * sum(bn[q] ** 2 - bo[q] ** 2 for q in range(3))
    return U


def write(c, name, pat=1, amp=0.5, ic="ic", n=None):
    ph, L, P, kw = make(name, pat, amp, n)
    sim.write_ic(c.path(ic), L, P)
    return ph, L, P, kw
