"""Running Athena executables on enumerated cases and reading back their complete state."""
import os, struct, subprocess, tempfile, shutil, threading
import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def fmt(v):
    return repr(float(v)) if isinstance(v, (float, np.floating)) else str(v)


def athinput(nx=(8, 1, 1), box=((0., 1.), (0., 1.), (0., 1.)), bc=(4, 4, 4, 4, 4, 4), tlim=1e9, nlim=3, cour=0.4,
             ngrid=None, autoproc=None, domains=(), problem=None, gamma=5./3., cs=1.0, outputs=(), job=None, log=None,
             blocks=None, timeblk=None, particle=None, maxout=None):
    """domains: extra SMR domains: dicts level,nx,disp,(ngrid)."""
    L = ["<comment>", "problem = vp", "", "<job>", "problem_id = vp",
         "maxout = %d" % (maxout if maxout is not None else max([o["n"] for o in outputs], default=0)),
         "num_domains = %d" % (1 + len(domains))]
    for k, v in (job or {}).items():
        L.append("%s = %s" % (k, fmt(v)))
    if log is None:
        log = dict(out_level=-1, err_level=-1, child_out_level=-1, child_err_level=-1)
    L += ["", "<log>"] + ["%s = %s" % (k, fmt(v)) for k, v in log.items()]
    for o in outputs:
        L += ["", "<output%d>" % o["n"]] + ["%s = %s" % (k, fmt(v)) for k, v in o.items() if k != "n"]
    L += ["", "<time>", "cour_no = %s" % fmt(cour), "nlim = %d" % nlim, "tlim = %s" % fmt(tlim)]
    for k, v in (timeblk or {}).items():
        L.append("%s = %s" % (k, fmt(v)))
    L += ["", "<domain1>", "level = 0"]
    for d in range(3):
        L += ["Nx%d = %d" % (d + 1, nx[d]), "x%dmin = %s" % (d + 1, fmt(box[d][0])), "x%dmax = %s" % (d + 1, fmt(box[d][1]))]
        if nx[d] > 1 or d == 0:
            L += ["bc_ix%d = %d" % (d + 1, bc[2 * d]), "bc_ox%d = %d" % (d + 1, bc[2 * d + 1])]
    if ngrid:
        for d in range(3):
            L.append("NGrid_x%d = %d" % (d + 1, ngrid[d]))
    if autoproc:
        L.append("AutoWithNProc = %d" % autoproc)
    for q, dm in enumerate(domains):
        L += ["", "<domain%d>" % (q + 2), "level = %d" % dm["level"]]
        for d in range(3):
            L += ["Nx%d = %d" % (d + 1, dm["nx"][d])]
            if "disp" in dm:
                L += ["%sDisp = %d" % ("ijk"[d], dm["disp"][d])]
        if dm.get("ngrid"):
            for d in range(3):
                L.append("NGrid_x%d = %d" % (d + 1, dm["ngrid"][d]))
    L += ["", "<problem>", "gamma = %s" % fmt(gamma), "iso_csound = %s" % fmt(cs)]
    for k, v in (problem or {}).items():
        L.append("%s = %s" % (k, fmt(v)))
    if particle:
        L += ["", "<particle>"] + ["%s = %s" % (k, fmt(v)) for k, v in particle.items()]
    for b, kv in (blocks or {}).items():
        L += ["", "<%s>" % b] + ["%s = %s" % (k, fmt(v)) for k, v in kv.items()]
    return "\n".join(L) + "\n"


def write_ic(path, levels, particles=()):
    """levels: list of (cons[nc,n3,n2,n1], faces or None); faces=(B1,B2,B3)."""
    with open(path, "wb") as f:
        c0, f0 = levels[0]
        f.write(struct.pack("3i", len(levels), c0.shape[0], 1 if f0 is not None else 0))
        for c, fa in levels:
            f.write(struct.pack("3i", c.shape[3], c.shape[2], c.shape[1]))
            f.write(np.ascontiguousarray(c, dtype="<f8").tobytes())
            if fa is not None:
                for b in fa:
                    f.write(np.ascontiguousarray(b, dtype="<f8").tobytes())
        f.write(struct.pack("i", len(particles)))
        for p in particles:
            f.write(struct.pack("8d", *p))


class Grid:
    pass


class Snap:
    """One snapshot: .kind .nstep .time .dt .grids (list of Grid)"""
    def __init__(s):
        s.grids = []

    def level(s, lev=0, dom=None):
        """Assemble the domain(s) of a level into global arrays: returns dict U[nv,n3,n2,n1], B (3 faces), Phi, disp"""
        gs = [g for g in s.grids if g.level == lev and (dom is None or g.dom == dom)]
        lo = [min(g.disp[d] for g in gs) for d in range(3)]
        hi = [max(g.disp[d] + g.nx[d] for g in gs) for d in range(3)]
        n = [hi[d] - lo[d] for d in range(3)]
        U = np.full((gs[0].U.shape[0], n[2], n[1], n[0]), np.nan)
        out = dict(U=U, disp=lo, n=n)
        B = None
        if gs[0].B is not None:
            B = [np.full((n[2], n[1], n[0] + 1), np.nan), np.full((n[2], n[1] + (n[1] > 1), n[0]), np.nan),
                 np.full((n[2] + (n[2] > 1), n[1], n[0]), np.nan)]
        Phi = np.full((n[2], n[1], n[0]), np.nan) if gs[0].Phi is not None else None
        bad = []
        for g in gs:
            i, j, k = [g.disp[d] - lo[d] for d in range(3)]
            gl = g.gl
            sl = (slice(gl[2], gl[2] + g.nx[2]), slice(gl[1], gl[1] + g.nx[1]), slice(gl[0], gl[0] + g.nx[0]))
            U[:, k:k + g.nx[2], j:j + g.nx[1], i:i + g.nx[0]] = g.U[(slice(None),) + sl]
            if B is not None:
                for q in range(3):
                    # slices on face arrays
                    ex = [1 if (q == d and (g.nx[d] > 1 or d == 0)) else 0 for d in range(3)]
                    src = g.B[q]
                    m = [g.nx[d] + ex[d] for d in range(3)]
                    if any(gl):
                        for d in range(3):
                            pass
                        ss = tuple(slice(gl[d], gl[d] + m[d]) for d in (2, 1, 0))
                        src = src[ss]
                    dst = B[q][k:k + m[2], j:j + m[1], i:i + m[0]]
                    ok = ~np.isnan(dst)
                    if ok.any():
                        bad.append(float(np.max(np.abs(dst[ok] - src[ok]))))
                    B[q][k:k + m[2], j:j + m[1], i:i + m[0]] = src
            if Phi is not None:
                Phi[k:k + g.nx[2], j:j + g.nx[1], i:i + g.nx[0]] = g.Phi[sl]
        out["B"] = B
        out["Phi"] = Phi
        out["facedup"] = max(bad, default=0.0)
        return out

    def particles(s):
        P = [g.P for g in s.grids if g.P is not None]
        return np.concatenate(P) if P else np.zeros((0, 9))


def read_dump(prefix, nranks=1):
    """-> list of Snap, in order; ranks merged by record index."""
    per = []
    for r in range(nranks):
        fn = "%s.%d" % (prefix, r)
        L = []
        if os.path.exists(fn):
            b = open(fn, "rb").read()
            o = 0
            while o < len(b):
                mg, kind, rank, nstep, t, dt, ng = struct.unpack_from("<4iddi", b, o)
                assert mg == 0x56504431
                o += 36
                s = Snap()
                s.kind, s.rank, s.nstep, s.time, s.dt = kind, rank, nstep, t, dt
                for _ in range(ng):
                    g = Grid()
                    h = struct.unpack_from("<13i2d", b, o)
                    o += 13 * 4 + 16
                    g.level, g.dom = h[0], h[1]
                    g.disp, g.nx, g.gl = h[2:5], h[5:8], h[8:11]
                    nv, nf, g.time, g.dt = h[11], h[12], h[13], h[14]
                    ghost = any(g.gl)
                    n = [g.nx[d] + 2 * g.gl[d] for d in range(3)]
                    c = n[0] * n[1] * n[2]
                    g.U = np.frombuffer(b, "<f8", c * nv, o).reshape(n[2], n[1], n[0], nv).transpose(3, 0, 1, 2)
                    o += 8 * c * nv
                    g.B = g.Phi = g.P = None
                    if nf & 1:
                        g.B = []
                        for q in range(3):
                            e = [0 if ghost else (1 if q == d and (g.nx[d] > 1 or d == 0) else 0) for d in range(3)]
                            m = [n[d] + e[d] for d in range(3)]
                            w = m[0] * m[1] * m[2]
                            g.B.append(np.frombuffer(b, "<f8", w, o).reshape(m[2], m[1], m[0]))
                            o += 8 * w
                    if nf & 2:
                        g.Phi = np.frombuffer(b, "<f8", c, o).reshape(n[2], n[1], n[0])
                        o += 8 * c
                    if nf & 4:
                        (npar,) = struct.unpack_from("<i", b, o)
                        o += 4
                        g.P = np.frombuffer(b, "<f8", 9 * npar, o).reshape(npar, 9)
                        o += 72 * npar
                    s.grids.append(g)
                L.append(s)
        per.append(L)
    out = []
    m = max((len(p) for p in per), default=0)
    for i in range(m):
        s = Snap()
        have = [p[i] for p in per if i < len(p)]
        s.kind, s.nstep, s.time, s.dt = have[0].kind, have[0].nstep, have[0].time, have[0].dt
        s.ranks = len(have)
        s.dts = [h.dt for h in have]
        s.times = [h.time for h in have]
        s.steps = [h.nstep for h in have]
        for h in have:
            s.grids += h.grids
        out.append(s)
    return out


class Case:
    """A scratch directory in which one case runs."""
    def __init__(s, base):
        s.dir = tempfile.mkdtemp(prefix="c", dir=base)

    def path(s, n):
        return s.dir + "/" + n

    def close(s):
        shutil.rmtree(s.dir, ignore_errors=True)

    def __enter__(s):
        return s

    def __exit__(s, *a):
        if not os.environ.get("VP_KEEP"):
            s.close()


def run_serial(exe, cdir, inp=None, ic=None, args=(), env=None, mode=2, timeout=60, dump="dump", infile="athinput"):
    """Returns (returncode, stdout+stderr bytes)."""
    if inp is not None:
        with open(cdir + "/" + infile, "w") as f:
            f.write(inp)
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "VP_IC": ic or cdir + "/ic", "VP_DUMP": cdir + "/" + dump,
         "VP_DUMP_MODE": str(mode)}
    e.update(env or {})
    try:
        p = subprocess.run([exe] + (["-i", infile] if inp is not None else []) + list(args), cwd=cdir, env=e,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return -999, x.stdout or b""


def listing(d):
    """files below d -> contents"""
    return {os.path.relpath(os.path.join(a, f), d): open(os.path.join(a, f), "rb").read() for a, _, fs in os.walk(d) for f in fs}


class MpiResult:
    pass


def run_mpi(sched, exe, n, cdir, inp=None, ic=None, args=(), env=None, mode=2, sync=0, late=0, order=0, cpol=0, choices="",
            timeout=60, dump="dump", infile="athinput", keepout=True):
    if inp is not None:
        with open(cdir + "/" + infile, "w") as f:
            f.write(inp)
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "VP_IC": ic or cdir + "/ic", "VP_DUMP": cdir + "/" + dump,
         "VP_DUMP_MODE": str(mode)}
    e.update(env or {})
    tr = cdir + "/trace"
    cmd = [sched, "-n", str(n), "-s", str(sync), "-l", str(late), "-o", str(order), "-C", str(cpol), "-c", choices,
           "-t", tr, "-w", str(timeout), "-O", cdir + "/out", "--", exe] + (["-i", infile] if inp is not None else []) + list(args)
    r = MpiResult()
    try:
        p = subprocess.run(cmd, cwd=cdir, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, timeout=timeout + 20)
        r.rc = p.returncode
    except subprocess.TimeoutExpired:
        r.rc = -999
    r.dec, r.status, r.detail, r.ops, r.msgs = [], "none", "", 0, 0
    try:
        for l in open(tr):
            w = l.split()
            if w[0] == "D":
                r.dec.append((int(w[1]), int(w[2]), int(w[3])))
            elif w[0] == "R":
                r.status, r.detail = w[1], " ".join(w[2:])
            elif w[0] == "S":
                r.ops, r.msgs = int(w[1]), int(w[2])
    except (OSError, IndexError):
        pass
    r.out = b""
    for k in range(n):
        try:
            r.out += open(cdir + "/out.%d" % k, "rb").read()
        except OSError:
            pass
    return r


def conditioning(c, exe, inp, lev0, ref, levels=None, mode=3, env=None, parts=()):
    """-> guard(diff, step): True if round-off sized changes of the initial state change the SERIAL result comparably
    (the case sits on a branch of the algorithm, so its answer is not determined to round-off)."""
    from . import cmp
    memo = {}

    def spread():
        worst = {}
        for q in range(8):
            rng = np.random.RandomState(50 + q)
            L = []
            for (U, B) in (levels or [lev0]):
                L.append((U * (1 + (1e-15 if q < 4 else 1e-14) * rng.uniform(-1, 1, U.shape)), B))
            write_ic(c.path("icp"), L, parts)
            d = "pt%d" % q
            rc, _ = run_serial(exe, c.dir, inp, ic=c.path("icp"), mode=mode, dump=d, env=env)
            S = read_dump(c.path(d))
            for a, b in zip(S, ref):
                worst[a.nstep] = max(worst.get(a.nstep, 0.0), cmp.worst(cmp.snapdiff(a, b))[1])
        return worst

    def guard(diff, step):
        if "w" not in memo:
            memo["w"] = spread()
        return memo["w"].get(step, 0.0) > 1e-12 and diff <= 30 * memo["w"][step]
    return guard
