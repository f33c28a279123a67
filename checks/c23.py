"""C23: a mesh layout is either refused at start or becomes a consistent mesh: exact tiling, matching neighbours, matching overlaps."""
import itertools
import os
import subprocess
from vlib import build

ARGS = {"h": "--enable-smr --with-gas=hydro --with-nscalars=1", "m": "--enable-smr --with-order=3p", "mi": "--enable-smr --with-eos=isothermal --with-order=2",
        "n": "--with-gas=hydro"}
BOUNDS = ("every root size from {-1,0,1,2,3,8}^3; every position and size (in 1D: all integers; 2D, 3D: lattices) of one refined domain, of two on one level and of "
          "two nested ones; every decomposition {1..4}^d of every domain x 1..18 ranks for 14 layouts; automatic decomposition for 7 sizes per axis x 1..36 ranks; "
          "hydro, MHD and isothermal MHD builds, all ranks of each layout")
ASSUME = ["communicators behave as MPI specifies (each rank's view of them is checked against the others')",
          "nothing is claimed about whether a decomposition into grids narrower than their ghost zones is accepted"]
BOX = ((0.0, 1.0), (-1.0, 2.0), (0.5, 4.5))


def specs(tier):
    s = {}
    for k, a in ARGS.items():
        s[k] = dict(args=a + " --enable-mpi", main=build.CSRC + "/meshprog.c", extra=(build.CSRC + "/meshmpi.c",), defs=("-I" + build.CSRC + "/mmpi",), always=True)
    s["s"] = dict(args=ARGS["m"], main=build.CSRC + "/meshprog.c", always=True)
    return s


def dom(level, nx, disp=(0, 0, 0), ng=(1, 1, 1), auto=0):
    return dict(level=level, nx=tuple(nx), disp=tuple(disp), ng=tuple(ng), auto=auto)


# ---------------------------------------------------------------- the space of layouts
def layouts(tier):
    """-> (configuration, group, [layout]); a layout is dict(nr, doms, flip)"""
    q = tier == "quick"
    # root meshes
    L = []
    for n in itertools.product((-1, 0, 1, 2, 3, 8), repeat=3):
        L.append(dict(nr=1, doms=[dom(0, n)]))
    for n in ((8, 1, 1), (8, 8, 1), (8, 8, 8)):
        for f in range(1, 8):
            L.append(dict(nr=1, doms=[dom(0, n)], flip=f))
    for lv in ((), (1,), (0, 0), (0, 2), (0, 1, 3), (-1,), (0, -1), (0, 1, -2)):
        L.append(dict(nr=1, doms=[dom(l, (16 if l < 1 else 8, 1, 1), (4 * l if l > 0 else 0, 0, 0)) for l in lv]))
    for cfg in ("s", "m", "n"):
        yield cfg, "root", [l for l in L if cfg != "n" or len(l["doms"]) < 2]
    # one refined domain, 1D: every position and size
    for cfg in ("s", "m", "h"):
        yield cfg, "one1", [dict(nr=1, doms=[dom(0, (16, 1, 1)), dom(1, (n, 1, 1), (d, 0, 0))]) for d in range(-3, 36) for n in range(1, 36)]
    # two refined domains on one level, in either order in the file
    g = [(d, n) for d in range(0, 32, 2) for n in (2, 4, 8, 12, 16, 20, 24) if d + n <= 34]
    yield "h", "two1", [dict(nr=1, doms=[dom(0, (16, 1, 1)), dom(1, (a[1], 1, 1), (a[0], 0, 0)), dom(1, (b[1], 1, 1), (b[0], 0, 0))]) for a in g for b in g]
    # nested
    par = [(0, 32), (0, 16), (4, 16), (8, 24), (16, 16), (8, 8), (12, 20), (20, 12), (6, 10), (10, 22)]
    yield "s", "nest1", [dict(nr=1, doms=[dom(0, (16, 1, 1)), dom(2, (n, 1, 1), (d, 0, 0)), dom(1, (p[1], 1, 1), (p[0], 0, 0))])
                         for p in par for d in range(-4, 70, 2) for n in (2, 4, 6, 8, 12, 16, 20, 24, 28, 32, 48, 64)]
    # 2D and 3D
    P = [(d, n) for d in (0, 2, 4, 6, 8, 14, 16) for n in (4, 8, 10, 16)]
    yield "s", "one2", [dict(nr=1, doms=[dom(0, (12, 10, 1)), dom(1, (a[1], b[1], 1), (a[0], b[0], 0))]) for a in P for b in P]
    P = [(0, 8), (4, 8), (4, 6), (6, 8), (8, 8), (0, 16), (2, 8), (12, 4), (-4, 8)]
    yield "m", "one3", [dict(nr=1, doms=[dom(0, (8, 8, 8)), dom(1, (a[1], b[1], c[1]), (a[0], b[0], c[0]))]) for a in P for b in P for c in P]
    P = [(0, 6), (4, 4), (8, 6), (10, 8), (14, 8)]
    yield "h", "two2", [dict(nr=1, doms=[dom(0, (12, 12, 1)), dom(1, (a[1], b[1], 1), (a[0], b[0], 0)), dom(1, (c[1], d[1], 1), (c[0], d[0], 0))])
                        for a in P for b in P for c in P for d in P]
    P = [(d, n) for d in (-8, 0, 4, 8, 12, 16, 20, 24, 28, 36) for n in (4, 8, 12, 16)]
    for pa in ([dom(1, (16, 12, 1), (4, 8, 0))], [dom(1, (12, 24, 1), (0, 0, 0)), dom(1, (8, 8, 1), (16, 12, 0))]):
        yield "s", "nest2", [dict(nr=1, doms=[dom(0, (12, 12, 1))] + pa + [dom(2, (a[1], b[1], 1), (a[0], b[0], 0))]) for a in P for b in P]
    # decompositions
    D = []
    D += [[dom(0, (n, 1, 1))] for n in (8, 17, 32)] + [[dom(0, (12, 17, 1))], [dom(0, (9, 12, 16))]]
    for ds in D:
        nd = 1 + (ds[0]["nx"][1] > 1) + (ds[0]["nx"][2] > 1)
        gr = list(itertools.product(*[(-1, 0, 1, 2, 3, 4, 5, 8) if nd == 1 else (0, 1, 2, 3, 4, 5) if nd == 2 else (1, 2, 3, 4)] * nd))
        yield "n", "dec", [dict(nr=nr, doms=[dict(ds[0], ng=g + (1,) * (3 - nd))]) for g in gr for nr in range(1, 19)]
        yield "n", "decdim", [dict(nr=2, doms=[dict(ds[0], ng=g)]) for g in itertools.product((1, 2), repeat=3)]
    S = [[dom(0, (24, 1, 1)), dom(1, (24, 1, 1), (12, 0, 0))],
         [dom(0, (24, 1, 1)), dom(1, (16, 1, 1), (0, 0, 0)), dom(1, (16, 1, 1), (24, 0, 0))],
         [dom(0, (24, 1, 1)), dom(1, (32, 1, 1), (8, 0, 0)), dom(2, (24, 1, 1), (32, 0, 0))],
         [dom(0, (16, 16, 1)), dom(1, (16, 16, 1), (8, 8, 0))],
         [dom(0, (16, 16, 1)), dom(1, (12, 16, 1), (0, 16, 0)), dom(1, (8, 16, 1), (20, 8, 0))],
         [dom(0, (16, 16, 1)), dom(1, (24, 20, 1), (4, 8, 0)), dom(2, (16, 16, 1), (16, 32, 0))],
         [dom(0, (12, 12, 12)), dom(1, (16, 12, 8), (4, 8, 8))],
         [dom(0, (32, 1, 1)), dom(1, (20, 1, 1), (4, 0, 0)), dom(1, (24, 1, 1), (32, 0, 0)), dom(2, (20, 1, 1), (76, 0, 0)), dom(2, (16, 1, 1), (16, 0, 0))],
         [dom(0, (32, 1, 1)), dom(1, (24, 1, 1), (32, 0, 0)), dom(1, (20, 1, 1), (4, 0, 0)), dom(2, (20, 1, 1), (76, 0, 0)), dom(2, (16, 1, 1), (16, 0, 0))],
         [dom(0, (24, 16, 1)), dom(1, (16, 16, 1), (4, 8, 0)), dom(1, (16, 20, 1), (28, 4, 0)), dom(2, (16, 16, 1), (64, 16, 0)), dom(2, (16, 16, 1), (16, 24, 0))]]
    for i, ds in enumerate(S):
        nd = 1 + (ds[0]["nx"][1] > 1) + (ds[0]["nx"][2] > 1)
        one = list(itertools.product(*[(1, 2, 3, 4)] * nd))
        if nd == 3:
            one = [g for g in one if max(g) <= 3]
        if len(ds) == 3 and nd == 2:
            one = [g for g in one if max(g) <= 3]
        if len(ds) == 5:
            one = [g for g in one if max(g) <= 2 + (nd == 1)]
        gr = list(itertools.product(one, repeat=len(ds)))
        if q and len(gr) > 700:
            gr = gr[::len(gr) // 700 + 1]
        for cfg in ("m",) if q and nd == 3 else ("h", "m") if q else ("h", "m", "mi"):
            L = []
            for g in gr:
                cnt = [x[0] * (x + (1, 1))[1] * (x + (1, 1))[2] for x in g]
                tot = sum(cnt)
                nrs = sorted({max(cnt), max(1, max(cnt) - 1), tot, tot + 1} | {r for r in range(max(cnt), min(tot, 24) + 1) if tot % r == 0})
                for nr in nrs:
                    if nr <= 40:
                        L.append(dict(nr=nr, doms=[dict(d, ng=tuple(x) + (1,) * (3 - nd)) for d, x in zip(ds, g)]))
            yield cfg, "smr%d" % i, L
    # automatic decomposition
    sz = (2, 4, 8, 12, 17, 32, 64)
    L = [dict(nr=p, doms=[dom(0, (n, 1, 1), auto=p)]) for n in sz for p in range(1, 37)]
    L += [dict(nr=p, doms=[dom(0, (n, m, 1), auto=p)]) for n in sz for m in sz for p in range(1, 37)]
    L += [dict(nr=p, doms=[dom(0, (n, m, k), auto=p)]) for n in (4, 8, 17) for m in (4, 12, 20) for k in (4, 8, 17) for p in range(1, 37)]
    L += [dict(nr=p, doms=[dom(0, (16, 16, 1), auto=-1)]) for p in (1, 2)]
    yield "n", "auto", L


def cases(tier):
    for cfg, grp, L in layouts(tier):
        for i in range(0, len(L), 400):
            yield dict(cfg=cfg, grp=grp, lay=L[i:i + 400])


# ---------------------------------------------------------------- what is well formed
def split(n, g):
    b, r = divmod(n, g)
    w = [b + (i < r) for i in range(g)]
    return [(sum(w[:i]), w[i]) for i in range(g)]


def wellformed(lay, mpi, ng, smr=True):
    """the rules of the user's guide, from scratch"""
    ds = lay["doms"]
    if lay.get("flip"):
        return "box limits in the wrong order"
    if not ds or (not smr and len(ds) > 1):
        return "number of domains"
    lv = sorted(d["level"] for d in ds)
    if lv[0] != 0 or lv.count(0) != 1 or set(lv) != set(range(lv[-1] + 1)):
        return "levels"
    root = [d for d in ds if d["level"] == 0][0]
    N = root["nx"]
    if min(N) < 1 or N[0] < 2 or (N[1] == 1 and N[2] > 1):
        return "size of the root domain"
    nd = sum(n > 1 for n in N)
    for d in ds:
        f = 2 ** d["level"]
        if [n > 1 for n in d["nx"]] != [n > 1 for n in N] or min(d["nx"]) < 1:
            return "dimensions of a domain"
        for a in range(nd):
            if d["nx"][a] % f or (d["level"] and d["disp"][a] % f):
                return "domain not aligned with the root cells"
    box = lambda d: [(d["disp"][a] if d["level"] else 0, (d["disp"][a] if d["level"] else 0) + d["nx"][a]) for a in range(nd)]
    for i, d in enumerate(ds):
        for e in ds[:i]:
            if d["level"] == e["level"] and all(x[0] <= y[1] and y[0] <= x[1] for x, y in zip(box(d), box(e))):
                return "domains of one level overlap or touch"
    for d in ds:
        if not d["level"]:
            continue
        ok = False
        for e in ds:
            if e["level"] != d["level"] - 1:
                continue
            good = True
            for a, ((l, r), (pl, pr)) in enumerate(zip(box(d), box(e))):
                pl, pr = 2 * pl, 2 * pr
                end = N[a] * 2 ** d["level"]
                # at the edge of the root domain, or far enough inside the parent
                if not (l == pl == 0 or (l - pl >= ng and l > pl)):
                    good = False
                if not (r == pr == end or (pr - r >= ng and r < pr)):
                    good = False
            ok = ok or good
        if not ok:
            return "refined domain not inside one coarser domain"
    if not mpi:
        return None
    tot, thin = 0, False
    for d in ds:
        g = d["ng"]
        if d["auto"]:
            return "?" if d["auto"] > 0 else "processes"
        if min(g) < 1 or any(g[a] > 1 and d["nx"][a] == 1 for a in range(3)) or g[0] * g[1] * g[2] > lay["nr"]:
            return "decomposition"
        for a in range(nd):
            if g[a] > 1:
                for off, w in split(d["nx"][a], g[a]):
                    if w < 1:
                        return "grid without cells"
                    thin = thin or w < ng
                    if d["level"] and (off % 2 or w % 2):
                        return "grid of a refined domain cuts a coarse cell"
        tot += g[0] * g[1] * g[2]
    if tot % lay["nr"]:
        return "grids not spread evenly over the processes"
    return "?" if thin else None    # nothing is claimed about grids narrower than their ghost zones


# ---------------------------------------------------------------- what an accepted mesh must look like
def nums(t):
    return [int(x) for x in t]


def judge(lay, ranks, ng, mpi, smr):
    """-> message or None; ranks: list of line lists"""
    ds = lay["doms"]
    order = {}
    for d in ds:
        order.setdefault(d["level"], []).append(d)
    N = order[0][0]["nx"]
    nd = sum(n > 1 for n in N)
    grids = {}       # (level, domain) -> list of (rank, dict)
    doms = []
    for r, lines in enumerate(ranks):
        D, cur = {}, None
        for l in lines:
            t = l.split()
            key = (int(t[1]), int(t[2]))
            if t[0] == "D":
                v = dict(nx=nums(t[3:6]), disp=nums(t[6:9]), ngr=nums(t[9:12]), lo=[float(x) for x in t[12:15]], hi=[float(x) for x in t[15:18]])
                for a, b in zip(t[18::2], t[19::2]):
                    v[a] = None if b == "-" else nums(b.split(","))
                D[key] = v
            elif t[0] == "G":
                cur = dict(nx=nums(t[3:6]), disp=nums(t[6:9]), idx=nums(t[9:15]), nb=nums(t[15:21]), lo=[float(x) for x in t[21:24]],
                           hi=[float(x) for x in t[24:27]], dx=[float(x) for x in t[27:30]], C=[], P=[])
                grids.setdefault(key, []).append((r, cur))
            elif t[0] == "N":
                cur["cnt"] = nums(t[3:])
            else:
                v = nums(t[3:])
                cur[t[0]].append(dict(s=v[0:3], e=v[3:6], id=v[6], dom=v[7], rc=v[8], p=v[9], m=v[10]))
        doms.append(D)
    if any(set(D) != set(doms[0]) for D in doms):
        return "ranks disagree on the domains"
    if set(doms[0]) != {(l, i) for l in order for i in range(len(order[l]))}:
        return "domains are %s" % sorted(doms[0])
    for key, D in doms[0].items():
        w = order[key[0]][key[1]]
        if any(DD[key] != D for DD in doms):
            return "ranks disagree on domain %s" % (key,)
        if tuple(D["nx"]) != w["nx"] or (key[0] and any(D["disp"][a] != w["disp"][a] for a in range(nd))):
            return "domain %s has size %s at %s" % (key, D["nx"], D["disp"])
        f = 2 ** key[0]
        for a in range(3):
            h = (BOX[a][1] - BOX[a][0]) / N[a] / (f if N[a] > 1 else 1)
            for got, want in ((D["lo"][a], BOX[a][0] + D["disp"][a] * h), (D["hi"][a], BOX[a][0] + (D["disp"][a] + D["nx"][a]) * h)):
                if abs(got - want) > 1e-12 * 8:
                    return "domain %s: limit %g along axis %d, expected %g" % (key, got, a + 1, want)
        # the grids tile the domain
        g = grids.get(key, [])
        if len({r for r, _ in g}) != len(g):
            return "a rank holds two grids of one domain"
        n = D["ngr"]
        if mpi and not w["auto"] and tuple(n) != w["ng"]:
            return "decomposition %s instead of %s" % (n, w["ng"])
        if w["auto"] and n[0] * n[1] * n[2] != w["auto"]:
            return "automatic decomposition %s for %d processes" % (n, w["auto"])
        pos = {}
        for r, G in g:
            pos[tuple(G["disp"])] = (r, G)
        sp = [split(D["nx"][a], n[a]) for a in range(3)]
        want = {tuple(D["disp"][a] + sp[a][q[a]][0] for a in range(3)): q for q in itertools.product(*[range(x) for x in n])}
        if set(pos) != set(want) or len(g) != len(want):
            return "grids of domain %s start at %s" % (key, sorted(pos))
        inv = {v: k for k, v in want.items()}
        comm = D.get("dom")
        if mpi and (comm is None or sorted(comm) != sorted(r for r, _ in g)):
            return "communicator of domain %s holds ranks %s" % (key, comm)
        for p, q in want.items():
            r, G = pos[p]
            for a in range(3):
                if G["nx"][a] != sp[a][q[a]][1]:
                    return "grid at %s has %d cells along axis %d" % (p, G["nx"][a], a + 1)
                lo, hi = G["idx"][2 * a:2 * a + 2]
                if (lo, hi) != ((ng, ng + G["nx"][a] - 1) if G["nx"][a] > 1 else (0, 0)):
                    return "grid at %s: index range %d..%d" % (p, lo, hi)
                h = (BOX[a][1] - BOX[a][0]) / N[a] / (f if N[a] > 1 else 1)
                for got, wnt in ((G["lo"][a], BOX[a][0] + p[a] * h), (G["hi"][a], BOX[a][0] + (p[a] + G["nx"][a]) * h), (G["dx"][a], h)):
                    if abs(got - wnt) > 1e-12 * 8:
                        return "grid at %s: coordinate %g along axis %d, expected %g" % (p, got, a + 1, wnt)
                for s in (0, 1):
                    o = list(q)
                    o[a] += 2 * s - 1
                    id_ = G["nb"][2 * a + s]
                    if tuple(o) in inv:
                        if id_ < 0 or id_ >= len(comm) or comm[id_] != pos[inv[tuple(o)]][0]:
                            return "grid at %s: neighbour on side %d of axis %d is %d" % (p, s, a + 1, id_)
                    elif id_ != -1:
                        return "grid at %s: neighbour %d beyond the edge of the domain" % (p, id_)
    if not smr:
        return None
    # overlaps between levels: as the geometry says, and the same on both sides
    def bx(G, k):
        return [(k * G["disp"][a], k * (G["disp"][a] + G["nx"][a])) if N[a] > 1 else (0, 1) for a in range(3)]
    exp = {}
    for key, g in grids.items():
        for ck, cg in grids.items():
            if ck[0] != key[0] + 1:
                continue
            A, B = doms[0][key], doms[0][ck]
            if not all(2 * A["disp"][a] < B["disp"][a] + B["nx"][a] and B["disp"][a] < 2 * (A["disp"][a] + A["nx"][a]) for a in range(nd)):
                continue
            for r, G in g:
                for cr, C in cg:
                    b = [(max(x[0], y[0]), min(x[1], y[1])) for x, y in zip(bx(G, 2), bx(C, 1))]
                    if all(x[0] <= x[1] for x in b):
                        exp[(key, tuple(G["disp"]), ck, tuple(C["disp"]))] = (tuple(b), r, cr, G, C)
    seen = {"C": {}, "P": {}}
    for key, g in grids.items():
        for r, G in g:
            c = G["cnt"]
            if c[0] != len(G["C"]) or c[2] != len(G["P"]):
                return "overlap counts"
            for kind in "CP":
                other = key[0] + (1 if kind == "C" else -1)
                for i, o in enumerate(G[kind]):
                    ok = (other, o["dom"])
                    k = 2 if kind == "C" else 1
                    b = tuple(((o["s"][a] - G["idx"][2 * a] + G["disp"][a]) * k, (o["e"][a] + 1 - G["idx"][2 * a] + G["disp"][a]) * k) if N[a] > 1 else (0, 1) for a in range(3))
                    cm = doms[0][key]["chi" if kind == "C" else "par"] if mpi else None
                    rr = cm[o["id"]] if mpi and cm and 0 <= o["id"] < len(cm) else 0 if not mpi else -1
                    t = [x for x in grids.get(ok, []) if x[0] == rr]
                    if len(t) != 1:
                        return "grid at %s: overlap with grid %d of %s, which does not exist" % (G["disp"], o["id"], ok)
                    H = t[0][1]
                    e = (key, tuple(G["disp"]), ok, tuple(H["disp"])) if kind == "C" else (ok, tuple(H["disp"]), key, tuple(G["disp"]))
                    if e not in exp:
                        return "%s overlap of %s at %s with %s at %s, which do not touch" % (kind, key, G["disp"], ok, H["disp"])
                    if exp[e][0] != b:
                        return "%s overlap of %s at %s with %s at %s: %s, expected %s" % (kind, key, G["disp"], ok, H["disp"], b, exp[e][0])
                    if e in seen[kind]:
                        return "overlap listed twice"
                    mine = i < (c[1] if kind == "C" else c[3])
                    if mine != (rr == r):
                        return "overlap on the same rank is not listed first"
                    seen[kind][e] = (o["rc"], o["p"], o["m"])
    for kind in "CP":
        miss = set(exp) - set(seen[kind])
        if miss:
            return "%s overlap missing: %s" % (kind, sorted(miss)[0])
    for e in exp:
        c, p = seen["C"][e], seen["P"][e]
        if c[0] != p[0] or c[1] != p[1]:
            return "message sizes differ for overlap %s: parent %s, child %s" % (e, c[:2], p[:2])
        if c[2] != p[2]:
            return "corrected faces differ for overlap %s: parent %s, child %s" % (e, c[2], p[2])
        # faces of the child domain that are not on the edge of the root, and that this overlap reaches
        b, r, cr, G, C = exp[e]
        B = doms[0][e[2]]
        m = 0
        for a in range(nd):
            o = [b[x][1] - b[x][0] for x in range(3) if x != a]
            if min(o) == 0:
                continue
            if C["disp"][a] == B["disp"][a] == b[a][0] and B["disp"][a] != 0:
                m |= 1 << (2 * a)
            if C["disp"][a] + C["nx"][a] == B["disp"][a] + B["nx"][a] == b[a][1] and b[a][1] != N[a] * 2 ** e[2][0]:
                m |= 2 << (2 * a)
        if c[2] != m:
            return "overlap %s corrects faces %s, expected %s" % (e, bin(c[2]), bin(m))
    return None


BASE = "<job>\nproblem_id = vp\nmaxout = 0\nnum_domains = 1\n"


def args(lay):
    a = ["job/num_domains=%d" % len(lay["doms"])]
    for i, d in enumerate(lay["doms"]):
        b = "domain%d/" % (i + 1)
        a += [b + "level=%d" % d["level"], b + "AutoWithNProc=%d" % d["auto"]]
        a += [b + "Nx%d=%d" % (x + 1, d["nx"][x]) for x in range(3)]
        a += [b + "NGrid_x%d=%d" % (x + 1, d["ng"][x]) for x in range(3)]
        a += [b + "%sDisp=%d" % ("ijk"[x], d["disp"][x]) for x in range(3)]
        if lay.get("flip"):
            for x in range(3):
                if lay["flip"] >> x & 1:
                    a += [b + "x%dmin=%g" % (x + 1, BOX[x][1]), b + "x%dmax=%g" % (x + 1, BOX[x][0])]
    return a


def run(case, ctx):
    mpi, smr = case["cfg"] != "s", case["cfg"] != "n"
    with ctx.case() as c:
        with open(c.path("athinput"), "w") as f:
            f.write(BASE)
            for i in range(1, 7):
                f.write("<domain%d>\nlevel = 0\nAutoWithNProc = 0\n" % i)
                for x in range(3):
                    f.write("Nx%d = 1\nNGrid_x%d = 1\n%sDisp = 0\nx%dmin = %g\nx%dmax = %g\n" % (x + 1, x + 1, "ijk"[x], x + 1, BOX[x][0], x + 1, BOX[x][1]))
        with open(c.path("list"), "w") as f:
            for lay in case["lay"]:
                f.write(" ".join([str(lay["nr"])] + args(lay)) + "\n")
        p = subprocess.run([ctx.exes[case["cfg"]], "athinput", "list"], cwd=c.dir, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=800)
        out = p.stdout.decode().split("\n")
        if p.returncode or not out[0].startswith("nghost"):
            ctx.fail("driver", "driver ended with %d" % p.returncode)
            return
        ng = int(out[0].split()[1])
        it, cur, i = iter(out[1:]), [], 0
        for l in it:
            if l.startswith("E "):
                lay = case["lay"][i]
                i += 1
                one(case, lay, cur, int(l[2:]), ng, mpi, smr, ctx)
                if ctx.viol and not os.environ.get("VP_SURVEY"):
                    case["lay"] = [lay]
                    return
                cur = []
            elif l.startswith("R "):
                cur.append([])
            elif l:
                cur[-1].append(l)
        if i != len(case["lay"]):
            ctx.fail("driver", "driver stopped after %d layouts" % i)


def one(case, lay, ranks, st, ng, mpi, smr, ctx):
    ctx.trace()
    ctx.step(lay["nr"])
    ctx.state(repr((case["cfg"], lay, ranks)).encode())
    why = wellformed(lay, mpi, ng, smr)
    desc = " ".join(args(lay)) + " on %d ranks" % lay["nr"]
    if st >= 1000:
        ctx.fail("crash", "signal %d while setting up: %s" % (st - 1000, desc))
    elif st not in (0, 1):
        ctx.fail("mpi", "invalid communicator (%d): %s" % (st, desc))
    elif st == 1 and ranks:
        ctx.fail("disagree", "refused by rank %d but not by rank 0: %s" % (len(ranks), desc))
    elif st == 1 and why is None:
        ctx.fail("refused", "well-formed layout refused: %s" % desc)
    elif st == 0 and why not in (None, "?"):
        ctx.fail("accepted", "layout accepted although malformed (%s): %s" % (why, desc))
    elif st == 0:
        m = judge(lay, ranks, ng, mpi, smr)
        ctx.count("accepted")
        if m:
            ctx.fail("mesh", "%s: %s" % (m, desc))
    else:
        ctx.count("refused")
