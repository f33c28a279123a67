import numpy as np


def maxdiff(a, b):
    """largest |a-b| relative to the largest magnitude present (at least 1); nan anywhere in one only -> inf"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return np.inf
    if a.size == 0:
        return 0.0
    na, nb = ~np.isfinite(a), ~np.isfinite(b)
    if na.any() or nb.any():
        return np.inf if (na != nb).any() or True else 0.0
    return float(np.max(np.abs(a - b))) / max(1.0, float(np.max(np.abs(b))))


def snapdiff(a, b, lev=0, dom=None, parts=True):
    """a,b: Snap.  -> list of (what, diff)"""
    A, B = a.level(lev, dom), b.level(lev, dom)
    out = [("cell variable %d" % v, maxdiff(A["U"][v], B["U"][v])) for v in range(B["U"].shape[0])]
    if B["B"] is not None:
        out += [("face field %d" % (q + 1), maxdiff(A["B"][q], B["B"][q])) for q in range(3)]
        out.append(("face shared by neighbours", A["facedup"]))
    if B["Phi"] is not None:
        out.append(("potential", maxdiff(A["Phi"], B["Phi"])))
    if parts:
        pa, pb = a.particles(), b.particles()
        if len(pa) or len(pb):
            out.append(("particles", pdiff(pa, pb)))
    return out


def pdiff(pa, pb):
    """grid particles and those just crossing to another grid (pos 1, 10; 0 = ghost copy), matched by id"""
    pa, pb = pa[pa[:, 2] != 0], pb[pb[:, 2] != 0]
    if len(pa) != len(pb):
        return np.inf
    if not len(pa):
        return 0.0
    pa, pb = pa[np.argsort(pa[:, 1], kind="stable")], pb[np.argsort(pb[:, 1], kind="stable")]
    return maxdiff(np.delete(pa, 2, 1), np.delete(pb, 2, 1))


def worst(L):
    return max(L, key=lambda x: x[1] if x[1] == x[1] else np.inf)
