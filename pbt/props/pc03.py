"""C03: every coarse level is the Galerkin projection of the level above it; restriction is the transpose of prolongation."""
import numpy as np
from ..core import Sub
from ..util import *
from ..problem import Problem, make_or_refuse
from ..hier import Hier
from .. import gen
from hypothesis import strategies as st


def regularization_ok(D, G, bs, scale, msg):
    """elasticity: coarse matrices may differ from the projection in the kernel of a diagonal block only"""
    n = D.shape[0] // bs
    tol = 1e-11 * scale
    cnt = 0
    for i in range(n):
        s = slice(bs * i, bs * i + bs)
        d, g = D[s, s], G[s, s]
        off = D[s].copy(); off[:, s] = 0
        need(np.abs(off).max(initial=0) <= tol, "%s: off-diagonal entries are not those of the projection" % msg)
        md = np.abs(d).max()
        if md <= tol: continue
        cnt += 1
        need(np.abs(d - d.T).max() <= 1e-9 * md + tol, "%s: regularization not symmetric" % msg)
        need(np.linalg.eigvalsh(0.5 * (d + d.T))[0] >= -1e-9 * md - tol, "%s: regularization not positive" % msg)
        need(np.abs(g @ d).max() <= 1e-7 * np.abs(g).max() * md + tol * md, "%s: matrix differs from the projection outside of the kernel of the diagonal" % msg)
    return cnt


def run(case):
    P = Problem(case["prob"])
    pc = make_or_refuse(P, case["flags"])
    amg = pc.GetAMGMatrix()
    H = Hier(amg)
    A = dense(P.a.mat)
    n0 = H.size[0]
    elast = case["prob"]["pde"] == "elast"
    need(A.shape[0] == n0, "finest level has %d unknowns, the matrix %d" % (n0, A.shape[0]))
    A0 = H.A(0)
    # block smoothers keep only the rows of the unknowns in their blocks, i.e. none of the constrained ones
    need(relerr(A0[P.free], A[P.free]) < 1e-14, "finest level matrix is not the assembled matrix: %g" % relerr(A0[P.free], A[P.free]))
    need(amg.GetNLevels() == H.n and pc.GetNLevels(0) == H.n, "inconsistent number of levels")
    free = P.free
    nb = [pc.GetNDBS(l) for l in range(H.n)]
    need(all(nb[l][0] * nb[l][1] == H.size[l] for l in range(H.n)), "reported sizes %s differ from vector sizes %s" % (nb, H.size))
    fl = case["flags"]
    G, absG, reg = A, np.abs(A), 0
    for l in range(H.n - 1):
        Pl, Rl = H.prol(l), H.rest(l)
        need(np.isfinite(Pl).all(), "prolongation %d not finite" % l)
        need(relerr(Rl, Pl.T) < 1e-13, "restriction %d is not the transpose of the prolongation: %g" % (l, relerr(Rl, Pl.T)))
        if l == 0:
            need(np.abs(Pl[~free]).max(initial=0) == 0, "constrained unknowns take part in coarse functions")
        Ac = H.A(l + 1)
        need(Ac.shape == (Pl.shape[1],) * 2, "level %d: matrix is %s, transfer has %d coarse unknowns" % (l + 1, Ac.shape, Pl.shape[1]))
        absG = np.abs(Pl).T @ absG @ np.abs(Pl)
        scale = absG.max(initial=0)
        G = Pl.T @ G @ Pl
        D = Ac - G
        msg = "level %d of %d" % (l + 1, H.n)
        if elast and not case["prob"].get("rots"):
            reg += regularization_ok(D, G, nb[l + 1][1], scale, msg)
        else:
            need(np.abs(D).max(initial=0) <= 1e-11 * scale, "%s: matrix is not the Galerkin projection, difference %g of %g" % (msg, np.abs(D).max(initial=0), scale))
    return dict(nontrivial=H.n > 2, classes=["levels=%d" % H.n, case["prob"]["pde"]] + (["regularized"] if reg else []))


case = st.fixed_dictionaries(dict(prob=gen.problem(), flags=gen.flags()))
SUBS = [Sub("galerkin", case, run, quick=6000, thorough=60000, shards=8, rule="at least three levels", min_nontrivial=200),
        Sub("graph", st.fixed_dictionaries(dict(prob=gen.graph(), flags=gen.flags())), run, quick=1500, thorough=40000, shards=8, rule="at least three levels", min_nontrivial=80)]
ASSUMPTIONS = ["meshes of at most about 150 vertices", "NgSolve assembly and vector access are trusted"]
