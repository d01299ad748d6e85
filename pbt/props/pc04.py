"""C04: coarse spaces reproduce constants and rigid-body modes."""
import numpy as np
import ngsolve as ng
from ..core import Sub
from ..util import *
from .. import gen
from ..problem import Problem, make_or_refuse
from ..hier import Hier
from hypothesis import strategies as st


def kernel(P):
    """columns: constants (per component) or rigid-body modes on the finest level"""
    mesh, spec = P.mesh, P.spec
    d, nv_ = mesh.dim, mesh.nv
    X = np.array([list(v.point) for v in mesh.vertices])
    X = X - X.mean(axis=0)
    nc = len(P.free) // nv_
    if spec["pde"] in ("h1", "h1v"):
        modes = [np.eye(nc)[k][None, :].repeat(nv_, 0) for k in range(nc)]
    else:
        modes = []
        nr = d * (d - 1) // 2
        for k in range(d):
            m = np.zeros((nv_, nc)); m[:, k] = 1; modes.append(m)
        for k in range(nr):
            m = np.zeros((nv_, nc))
            if d == 2:
                m[:, 0], m[:, 1] = -X[:, 1], X[:, 0]
            else:
                w = np.eye(3)[k]
                m[:, :3] = np.cross(w[None, :], X)
            if nc > d: m[:, d + k] = 1
            modes.append(m)
    if P.bs > 1: return np.array([m.reshape(-1) for m in modes]).T
    return np.array([m.T.reshape(-1) for m in modes]).T


def run(c):
    P = Problem(c["prob"])
    fl = dict(c["flags"])
    neumann = not P.spec["diri"]
    if neumann: fl["clev"] = "none"
    pc = make_or_refuse(P, fl)
    H = Hier(pc.GetAMGMatrix())
    n = H.n
    A = dense(P.a.mat)
    K = kernel(P)
    free = P.free
    if neumann and not P.spec.get("mass"):
        need(np.abs(A @ K).max() <= 1e-10 * max(np.abs(A).max(), 1e-300) * max(1, np.abs(K).max()) * 10, "harness: not the kernel")
    A = A * np.outer(free, free)
    known = free.copy()
    A0 = np.abs(A).max(initial=1e-300)
    checked = 0
    total = 0
    fracs = []
    for l in range(n - 1):
        Q = H.prol(l)
        aA = np.abs(A)
        use = aA > 1e-14 * aA.max(initial=0)
        # rows of the level where the vector is in the kernel and all that matters is known
        r = A @ np.where(known[:, None], K, 0)
        sc = aA @ np.abs(np.where(known[:, None], K, 0))
        good = known & ~(use & ~known[None, :]).any(axis=1) & (np.diag(A) > 0) & (np.abs(r) <= 1e-9 * np.maximum(sc, 1e-300)).all(axis=1)
        if l == 0 and not neumann:
            full = np.abs(dense(P.a.mat)) > 0
            good &= ~(full & ~free[None, :]).any(axis=1)
        # vertices left out by the coarsening are not covered (C11 decides which may be left out)
        out = np.abs(Q).max(axis=1, initial=0) == 0
        touch = (use & (out & (free if l == 0 else True))[None, :]).any(axis=1)
        if not (neumann and "vert_thresh" not in fl and not P.spec.get("mass")): good &= ~out & ~touch
        else:
            iso = use.sum(axis=1) <= 1
            good &= ~(out & iso)
        # smoothing mixes the components of a vertex: all of them have to be fine
        k = pc.GetNDBS(l)[1]
        if l == 0 and P.bs == 1:
            gv = (good | ~free).reshape(-1, P.mesh.nv).all(axis=0)
            good &= np.tile(gv, len(good) // P.mesh.nv)
        elif k > 1:
            gv = (good | (np.diag(A) <= 0)).reshape(-1, k).all(axis=1)
            good &= np.repeat(gv, k)
        for _ in range(int(fl.get("sp_improve_its", 0))):      # every improvement step looks one layer further
            good &= ~(use & ~good[None, :] & (free if l == 0 else known)[None, :]).any(axis=1)
        total += int(known.sum())
        G = Q[good]
        if G.shape[0] == 0:
            fracs.append(0.0); break
        U, s, Vt = np.linalg.svd(G, full_matrices=True)
        rk = int((s > 1e-9 * s[0]).sum()) if len(s) and s[0] > 0 else 0
        Kc = Vt[:rk].T @ ((U[:, :rk].T @ K[good]) / s[:rk, None])
        E = np.abs(G @ Kc - K[good])
        need(np.isfinite(E).all() and E.max(initial=0) <= 1e-7 * max(1, np.abs(K[good]).max(initial=0)),
             "level %d of %d: coarse functions miss the kernel mode by %g at unknown %d (of %d good of %d)" % (l + 1, n, E.max(), int(np.nonzero(good)[0][E.max(axis=1).argmax()]), good.sum(), len(good)))
        if P.spec["pde"] in ("h1", "h1v"):
            e = np.abs(Q[good].reshape(good.sum(), -1, pc.GetNDBS(l + 1)[1]).sum(axis=1) - K[good])
            need(e.max(initial=0) <= 1e-9, "level %d: coarse functions add up to %g instead of the constant" % (l + 1, 1 + e.max(initial=0)))
        checked += int(good.sum())
        fracs.append(good.sum() / max(1, known.sum()))
        null = np.abs(Vt[rk:]).max(axis=0, initial=0) > 1e-6
        A = Q.T @ A @ Q
        known, K = ~null, Kc
    if neumann and not P.spec.get("mass"):
        # the coarsest level matrix annihilates the mode
        k = known.all()
        if k and len(A):
            need((np.abs(A @ K) <= 1e-8 * A0 * max(1, np.abs(K).max())).all(), "coarse kernel vector is not in the kernel of the projected matrix")
    deep = len([f for f in fracs if f > 0])
    return dict(nontrivial=deep > 0 and checked > 8, classes=["levels=%d" % n, "neumann" if neumann else "dirichlet", "deep=%d" % deep, "pde=" + P.spec["pde"], "full=%s" % (min(fracs, default=0) > 0.99)])


@st.composite
def case(draw):
    p = draw(gen.problem(lo=3, hi2=10, hi3=4, orders=(1,), mass=False))
    if draw(gen.choice(0, 1, 1)):
        p["diri"] = []
    f = draw(gen.flags(groups=(gen.CRS_FLAGS, gen.PROL_FLAGS)))
    f["max_coarse_size"] = draw(gen.choice(1, 1, 2, 4))
    return dict(prob=p, flags=f)


SUBS = [Sub("kernel", case(), run, quick=2000, thorough=50000, shards=8, rule="kernel rows exist (at least 9 in total)", min_nontrivial=200)]
ASSUMPTIONS = ["at most about 120 vertices"]
