"""Shared pieces of the enumerated spaces: solver configurations, state alphabets, de Bruijn arrangements."""
import numpy as np
from . import ics

# every Riemann solver, reconstruction and integrator appears at least once for each gas it supports
CORE = {
    "m-ctu-roe-2": "--with-flux=roe --with-order=2 --with-nscalars=1",
    "m-ctu-roe-3": "--with-flux=roe --with-order=3",
    "m-ctu-hlld-3p": "--with-flux=hlld --with-order=3p --with-nscalars=2",
    "m-ctu-hlle-2p": "--with-flux=hlle --with-order=2p",
    "m-ctu-roe-1": "--with-flux=roe --with-order=1",
    "m-vl-hlld-2p": "--with-integrator=vl --with-flux=hlld --with-order=2p --with-nscalars=2",
    "m-vl-roe-3p": "--with-integrator=vl --with-flux=roe --with-order=3p",
    "m-vl-hlld-fofc": "--with-integrator=vl --with-flux=hlld --with-order=3p --enable-fofc --with-nscalars=1",
    "mi-ctu-hlld-2": "--with-eos=isothermal --with-flux=hlld --with-order=2",
    "mi-ctu-roe-3": "--with-eos=isothermal --with-flux=roe --with-order=3 --with-nscalars=1",
    "mi-vl-hlle-2p": "--with-eos=isothermal --with-integrator=vl --with-flux=hlle --with-order=2p",
    "m-hcorr": "--with-flux=roe --with-order=2 --enable-h-correction",
    "h-ctu-roe-2": "--with-gas=hydro --with-flux=roe --with-order=2 --with-nscalars=2",
    "h-ctu-hllc-3": "--with-gas=hydro --with-flux=hllc --with-order=3 --with-nscalars=1",
    "h-ctu-exact-2p": "--with-gas=hydro --with-flux=exact --with-order=2p",
    "hi-ctu-twos-2": "--with-gas=hydro --with-eos=isothermal --with-flux=two-shock --with-order=2",
    "h-ctu-force-3p": "--with-gas=hydro --with-flux=force --with-order=3p",
    "h-vl-hllc-2p": "--with-gas=hydro --with-integrator=vl --with-flux=hllc --with-order=2p --with-nscalars=1",
    "h-vl-hlle-fofc": "--with-gas=hydro --with-integrator=vl --with-flux=hlle --with-order=3p --enable-fofc --with-nscalars=1",
    "h-vl-hllc-3pck": "--with-gas=hydro --with-integrator=vl --with-flux=hllc --with-order=3pck",
    "h-vl-roe-3pcl": "--with-gas=hydro --with-integrator=vl --with-flux=roe --with-order=3pcl",
    "hi-ctu-hlle-2": "--with-gas=hydro --with-eos=isothermal --with-flux=hlle --with-order=2",
    "hi-ctu-exact-3": "--with-gas=hydro --with-eos=isothermal --with-flux=exact --with-order=3",
    "hi-vl-roe-3p": "--with-gas=hydro --with-eos=isothermal --with-integrator=vl --with-flux=roe --with-order=3p --with-nscalars=1",
    "h-hcorr": "--with-gas=hydro --with-flux=roe --with-order=2 --enable-h-correction",
}
DIFF = {
    "visc": "--with-gas=hydro --enable-viscosity --enable-conduction --with-nscalars=1",
    "visciso": "--with-gas=hydro --with-eos=isothermal --enable-viscosity --enable-sts",
    "resist": "--enable-resistivity --enable-conduction",
    "resiso": "--with-eos=isothermal --enable-resistivity --with-integrator=vl --with-order=2p --with-flux=hlld",
    "ressts": "--enable-resistivity --enable-conduction --enable-sts",
}
DPROB = {
    "visc": dict(nu_iso=0.01, kappa_iso=0.02), "visciso": dict(nu_iso=0.02),
    "resist": dict(eta_O=0.01, Q_H=0.01, Q_A=0.01, kappa_iso=0.01, kappa_aniso=0.02),
    "resiso": dict(eta_O=0.01, Q_H=0.02, Q_A=0.01),
    "ressts": dict(eta_O=0.02, Q_A=0.02, kappa_iso=0.01, kappa_aniso=0.02),
}


def debruijn(k, n):
    a = [0] * k * n
    out = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                out.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return np.array(out)


# (d, v1, v2, v3, p, s0, s1)
STATES = {
    "mild": [(1.0, 0.3, -0.2, 0.25, 1.0, 0.2, 0.9), (0.5, -0.4, 0.1, 0.0, 0.8, 1.0, 0.0), (1.6, 0.0, 0.3, -0.5, 1.4, 0.0, 0.5)],
    "strong": [(1.0, 0.0, 0.0, 0.0, 1.0, 1.0, 0.0), (0.125, 0.2, -0.3, 0.1, 0.1, 0.0, 1.0), (2.0, -0.2, 0.0, 0.3, 4.0, 0.5, 0.5)],
    "super": [(1.0, 3.0, 0.5, -0.4, 0.6, 0.1, 0.2), (1.3, 2.6, -0.5, 0.2, 0.5, 0.9, 0.8), (0.8, 2.8, 0.0, 0.0, 0.7, 0.0, 1.0)],
    "superneg": [(1.0, -3.0, 0.5, -0.4, 0.6, 0.1, 0.2), (1.3, -2.6, -0.5, 0.2, 0.5, 0.9, 0.8), (0.8, -2.8, 0.0, 0.0, 0.7, 0.0, 1.0)],
    "contact": [(1.0, 0.0, 0.0, 0.0, 1.0, 1.0, 0.0), (2.0, 0.0, 0.0, 0.0, 1.0, 0.0, 1.0), (0.5, 0.0, 0.4, -0.3, 1.0, 0.5, 0.2)],
}
BT = [(0.3, -0.2), (0.0, 0.0), (-0.4, 0.5)]      # transverse field paired with the state index


def word_ic(ph, word, states, axis=0, width=1, ndim=1, bx=0.0, dx=None, gamma=5. / 3.):
    """Cells along `axis` follow the word; other axes are shifted copies (a different word position per row).
    MHD: transverse fields need div B = 0: with shifted rows only the field along the last axis may vary freely, so
    in >1-D the transverse fields are taken uniform plus a curl-lattice is added by the caller."""
    n = [1, 1, 1]
    n[axis] = len(word)
    for d in range(3):
        if d != axis and d < ndim:
            n[d] = width
    K, J, I = np.meshgrid(range(n[2]), range(n[1]), range(n[0]), indexing="ij")
    pos = [I, J, K]
    off = sum(pos[d] * (3 if d == 1 else 7) for d in range(3) if d != axis)
    w = np.asarray(word)[(pos[axis] + off) % len(word)]
    S = np.array(states)
    d, v1, v2, v3, p = [S[w, q] for q in range(5)]
    V = [None] * 3
    V[axis], V[(axis + 1) % 3], V[(axis + 2) % 3] = v1, v2, v3
    r = [S[w, 5 + q] for q in range(ph.ns)]
    B = bc = None
    if ph.mhd:
        f = [np.zeros((n[2], n[1], n[0] + 1)), np.zeros((n[2], n[1] + (n[1] > 1), n[0])), np.zeros((n[2] + (n[2] > 1), n[1], n[0]))]
        f[axis] += bx
        if ndim == 1:
            T = np.array(BT)
            f[1][:] = T[w, 0]
            f[2][:] = T[w, 1]
        else:
            f[(axis + 1) % 3] += 0.3
            f[(axis + 2) % 3] += -0.2
        B = f
        bc = ics.bcc(n, f)
    return n, ics.cons(ph, d, V, p, bc, r, gamma), B


def extreme(ph, n, v, dl, pat, margin=5, gamma=5. / 3.):
    """near-vacuum zones next to dense ones with fast unrelated velocities, away from the edges of the mesh: high-order
    updates overshoot to negative density or pressure there, which first-order flux correction has to repair"""
    rng = np.random.default_rng(pat)
    sh = (n[2], n[1], n[0])
    d, p, V = np.ones(sh), np.ones(sh), [np.zeros(sh) for _ in range(3)]
    sl = tuple(slice(margin, s - margin) if s > 1 else slice(None) for s in sh)
    q = d[sl].shape
    w = rng.integers(0, 2, q)
    d[sl] = p[sl] = np.where(w, 1.0, dl)
    for a in range(3):
        V[a][sl] = v * rng.uniform(-1, 1, q)
    B = bc = None
    if ph.mhd:
        B = [np.full((n[2], n[1], n[0] + 1), 0.3), np.full((n[2], n[1] + (n[1] > 1), n[0]), -0.2), np.full((n[2] + (n[2] > 1), n[1], n[0]), 0.25)]
        bc = ics.bcc(n, B)
    return ics.cons(ph, d, V, p, bc, [rng.uniform(0, 1, sh) for _ in range(ph.ns)], gamma), B


XSZ = {2: (16, 15, 1), 3: (14, 13, 15)}
XV = [(3, 1e-2), (8, 1e-2), (20, 1e-3)]
FOFC = {
    "hi-vl-hlle-fofc": "--with-gas=hydro --with-eos=isothermal --with-integrator=vl --with-flux=hlle --with-order=3p --enable-fofc --with-nscalars=2",
    "mi-vl-hlld-fofc": "--with-eos=isothermal --with-integrator=vl --with-flux=hlld --with-order=3p --enable-fofc",
}
