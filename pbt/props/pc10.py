"""C10: distributed runs are consistent, and are the same kind of method as a sequential one."""
import numpy as np
from ..core import Sub
from ..util import *
from ..problem import Problem, make_or_refuse
from .pc03 import regularization_ok
from .. import gen
from hypothesis import strategies as st
from ..gen import choice, ints


def cond_ok(A):
    w = np.linalg.eigvalsh(0.5 * (A + A.T)) if len(A) else np.array([])
    return w if len(w) and w[0] > 0 and w[-1] / w[0] < 1e7 else None


def worker(sub, case, comm):
    from .. import mpi
    import ngsolve as ng
    ng.ngsglobals.msg_level = 0
    P = Problem(case["prob"], comm)
    fl = case["flags"]
    P.a.Assemble()
    X = mpi.Space(lambda: P.a.mat.CreateColVector())
    if X.N == 0 or X.N > 200: raise Reject("size %d" % X.N)
    free = X.gather(P.free.astype(float), "free unknowns") > 0.5
    A = mpi.assemble(P.a.mat, X)
    if not free.any(): raise Reject("nothing free")
    w = cond_ok(A[np.ix_(free, free)])
    if w is None: raise Reject("not spd")
    import NgsAMG
    from ..problem import amgflags
    pcf = dict(fl)
    P2 = P
    try:
        pc = P2.make_pc(pcf)
    except Exception as e:
        if "Failed to construct any coarse levels" in str(e): raise Reject("no coarse level")
        raise
    A = mpi.assemble(P.a.mat, X)
    cl = []
    C = mpi.matrix(lambda x, y: pc.Mult(x, y), X, X, "preconditioned vector", dist=case["dist"])
    need(np.isfinite(C).all(), "not finite")
    hier, amp = levels(mpi, P, pc, X, A, free, fl, case, cl)
    tol = 1e-16 * amp * amp       # nearly dependent coarse functions amplify rounding errors
    sc = np.abs(C).max()
    e = np.abs(C - C.T).max()
    need(e <= (1e-8 + tol) * sc, "preconditioner is not symmetric: %g of %g" % (e, sc))
    e = max(np.abs(C[~free]).max(initial=0), np.abs(C[:, ~free]).max(initial=0))
    need(e <= 1e-12 * sc, "preconditioner acts on constrained unknowns: %g" % e)
    Cf, Af = C[np.ix_(free, free)], A[np.ix_(free, free)]
    ev = np.linalg.eigvalsh(0.5 * (Cf + Cf.T))
    need(ev[0] > 0, "preconditioner is not positive definite: %g .. %g" % (ev[0], ev[-1]))
    L = np.linalg.cholesky(Af)
    lam = np.linalg.eigvalsh(L.T @ (0.5 * (Cf + Cf.T)) @ L)
    if fl.get("sm_type", "gs") != "jacobi":
        need(lam[-1] <= 1 + 1e-6 + tol, "preconditioner overshoots: lambda_max(C A) = %.9g" % lam[-1])
    # a second application, distributed and cumulated input, gives the same
    rng = np.random.default_rng(5)
    z = rng.standard_normal(X.N)
    for dist in (False, True):
        x, y = X.mk(), X.mk()
        X.put(x, z, dist, 3)
        pc.Mult(x, y)
        r = X.get(y)
        need(relerr(r, C @ z) < 1e-8 + tol, "application to a %s vector differs by %g" % ("distributed" if dist else "cumulated", relerr(r, C @ z)))
    return dict(nontrivial=bool(X.np >= 2 and hier > 1), classes=cl + ["np=%d" % mpi.W.size])


def levels(mpi, P, pc, X, A0, free, fl, case, cl):
    amg = pc.GetAMGMatrix()
    mp = amg.GetMap()
    nl = max(mpi.W.allgather(mp.GetNLevels()))
    mine = mp.GetNLevels()
    elast = case["prob"]["pde"] == "elast"
    bs = {2: 3, 3: 6}[case["prob"]["mesh"]["dim"]] if elast else 1      # entries of coarse matrices

    def mk(l): return lambda: (mp.CreateVector(l) if l < mine else None)
    S = [mpi.Space(mk(l)) for l in range(nl)]
    need(S[0].N == X.N, "number of unknowns on the finest level")
    need((S[0].gid == X.gid).all(), "numbering of the finest level")
    cl.append("procs=" + ",".join(str(s.np) for s in S))
    cl.append("levels=%d" % nl)
    if any(s.share.max(initial=0) > 1 for s in S[1:]): cl.append("shared coarse unknowns")
    if any(S[l].np > S[l + 1].np > 1 for l in range(nl - 1)): cl.append("partial redistribution")
    As, Ps, Sm, SB = [], [], [], []
    absG, G, reg = np.abs(A0), A0, 0
    for l in range(nl):
        M = amg.GetMatrix(l) if l < mine else None
        msg = "level %d of %d" % (l, nl)
        if not any(mpi.W.allgather(M is not None)):
            need(l == nl - 1, "there is no matrix on " + msg)
            As.append(None)
            break
        A = mpi.matrix(lambda x, y: M.Mult(x, y), S[l], S[l], "matrix product of " + msg)
        As.append(A)
        sc = np.abs(A).max(initial=0)
        e = np.abs(A - A.T).max(initial=0)
        need(e <= 1e-9 * sc, "matrix of %s is not symmetric: %g of %g" % (msg, e, sc))
        if l == 0:
            e = np.abs((A - A0)[free]).max(initial=0)
            need(e <= 1e-12 * sc, "matrix of the finest level is not the assembled matrix: %g of %g" % (e, sc))
        else:
            absG = np.abs(Ps[-1]).T @ absG @ np.abs(Ps[-1])
            G = Ps[-1].T @ G @ Ps[-1]
            D = A - G
            scale = absG.max(initial=0)
            if elast and not case["prob"].get("rots"):
                reg += regularization_ok(D, G, bs, scale, msg)
                G = G + D
            else:
                need(np.abs(D).max(initial=0) <= 1e-11 * scale, "%s: matrix is not the Galerkin projection, difference %g of %g" % (msg, np.abs(D).max(initial=0), scale))
        if l + 1 == nl: break
        st = mp.GetStep(l) if l < mine - 1 else None
        Pm = mpi.matrix(lambda c, f: st.C2F(f, c), S[l + 1], S[l], "prolongated vector of level %d" % (l + 1))
        need(np.isfinite(Pm).all(), "prolongation %d not finite" % l)
        R = mpi.matrix(lambda f, c: st.F2C(f, c), S[l], S[l + 1], "restricted vector of level %d" % l, dist=True)
        e = relerr(R, Pm.T)
        need(e < 1e-10, "restriction of level %d is not the transpose of prolongation: %g" % (l, e))
        if l == 0: need(np.abs(Pm[~free]).max(initial=0) == 0, "constrained unknowns take part in coarse functions")
        Ps.append(Pm)
        sm = amg.GetSmoother(l) if S[l].part else None
        Sm.append(smoother(mpi, S[l], sm, A, False, free if l == 0 else None, "smoother of " + msg))
        SB.append(smoother(mpi, S[l], sm, A, True, free if l == 0 else None, "backward smoother of " + msg))
        e = np.abs(Sm[l] - SB[l].T).max(initial=0)
        need(e <= 1e-8 * np.abs(Sm[l]).max(initial=0), "%s: backward smoothing is not the adjoint of forward smoothing: %g of %g" % (msg, e, np.abs(Sm[l]).max(initial=0)))
    if reg: cl.append("regularized")
    if nl < 2: return nl, 1.0
    w = np.linalg.eigvalsh(0.5 * (As[-1] + As[-1].T)) if As[-1] is not None else []
    # rounding errors of the entries of the coarsest matrix, relative to its smallest eigenvalue (twice: the sparse
    # Cholesky factorization of NgSolve inverts diagonal blocks explicitly)
    amp = absG.max(initial=0) / w[0] if len(w) and w[0] > 0 else 1.0
    if not len(w) or w[0] < 1e-9 * w[-1]: return nl, amp
    Ci = np.linalg.inv(As[-1])
    cyc = fl.get("mg_cycle", "V")

    def V(l, b):
        if l == nl - 1: return Ci @ b
        x = Sm[l] @ b
        x = x + Ps[l] @ V(l + 1, Ps[l].T @ (b - As[l] @ x))
        return x + SB[l] @ (b - As[l] @ x)

    def Wc(l, b):
        if l == nl - 1: return Ci @ b
        x = 0 * b
        for _ in range(2):
            x = x + Sm[l] @ (b - As[l] @ x)
            x = x + Ps[l] @ Wc(l + 1, Ps[l].T @ (b - As[l] @ x))
            x = x + SB[l] @ (b - As[l] @ x)
        return x

    def BS(l, b):
        if l == nl - 1: return Ci @ b
        x = V(l, b)
        x = x + Ps[l] @ BS(l + 1, Ps[l].T @ (b - As[l] @ x))
        return x + V(l, b - As[l] @ x)
    f = dict(V=V, W=Wc, BS=BS)[cyc]
    if cyc == "W" and nl > 6: return nl, amp
    if amp > 1e7: cl.append("nearly dependent coarse functions")
    cl.append("cycle " + cyc)
    B = f(0, np.eye(X.N))
    M = mpi.matrix(lambda x, y: amg.Mult(x, y), X, X, "multigrid cycle", dist=case["dist"])
    sc = np.abs(B).max(initial=0)
    e = np.abs(M - B).max(initial=0)
    need(e <= (1e-7 + 1e-16 * amp * amp) * sc, "operator is not the %s cycle of its %d levels: differs by %g of %g" % (cyc, nl, e, sc))
    return nl, amp


def smoother(mpi, S, sm, A, back, free, msg):
    """the operator of one step from zero; a random step with a start value and a residual"""
    x, b, r = S.mk(), S.mk(), S.mk()

    def call(xg, bg, rg, upd, ures, xz, dist):
        S.put(x, xg)
        S.put(b, bg, dist, 11)
        if rg is None:
            if S.part: nv(r)[:] = 0; r.SetParallelStatus(mpi.PS.DISTRIBUTED)
        else: S.put(r, rg, dist, 12)
        if S.part: (sm.SmoothBack if back else sm.Smooth)(x, b, r, upd, ures, xz)
        return S.get_raw(x, "result of " + msg, 1.0), S.get(r, "residual of " + msg, 10.0) if ures else None
    loc = np.zeros((len(S.gid), S.N))
    ok = True
    for j in range(S.N):
        e = np.zeros(S.N); e[j] = 1.0
        S.put(x, 0 * e); S.put(b, e, True, j)
        if S.part:
            nv(r)[:] = 0; r.SetParallelStatus(mpi.PS.DISTRIBUTED)
            (sm.SmoothBack if back else sm.Smooth)(x, b, r, False, False, False)
            ok &= x.GetParallelStatus() == mpi.PS.CUMULATED
            loc[:, j] = nv(x)
    mpi.allneed(ok, msg + ": result is not cumulated")
    M = S.gather(loc, "result of " + msg, 1.0)
    need(np.isfinite(M).all(), msg + " is not finite")
    rng = np.random.default_rng(17)
    x0, b0 = rng.standard_normal(S.N), rng.standard_normal(S.N)
    if free is not None: x0[~free] = 0.0
    r0 = b0 - A @ x0
    for upd, ures, xz in ((False, False, False), (True, True, False), (False, True, False), (True, False, False), (True, True, True), (False, True, True)):
        xs = 0 * x0 if xz else x0
        rs = b0 - A @ xs
        x1, r1 = call(xs, b0, rs if upd else None, upd, ures, xz, True)
        want = xs + M @ rs
        sc = np.abs(want).max(initial=0) + np.abs(M).max(initial=0) * np.abs(rs).max(initial=0)
        e = np.abs(x1 - want).max(initial=0)
        need(e <= 1e-8 * sc, "%s (res_updated=%d, update_res=%d, x_zero=%d): result is not x + S (b - A x), differs by %g of %g" % (msg, upd, ures, xz, e, sc))
        if ures:
            rr = b0 - A @ x1
            sc = np.abs(b0).max(initial=0) + np.abs(A).max(initial=0) * np.abs(x1).max(initial=0)
            d = np.abs(rr - r1)
            if free is not None: d = d[free]
            need(d.max(initial=0) <= 1e-9 * sc, "%s (res_updated=%d, x_zero=%d): reported residual is not b - A x, differs by %g of %g" % (msg, upd, xz, d.max(initial=0), sc))
    return M


FL = dict(gen.GS_FLAGS)
for g in (gen.CRS_FLAGS, gen.PROL_FLAGS): FL.update(g)
FL.update(mg_cycle=choice("V", "W", "BS"), sm_NG_MPI_overlap=st.booleans(), enable_redist=st.booleans(), rdaf=choice(0.01, 0.05, 0.5), first_rdaf=choice(0.05, 0.5), rdaf_scale=choice(1.0, 0.5), rd_crs_thresh=choice(0.5, 0.9),
          rd_loc_thresh=choice(0.0, 0.5, 0.9), rd_pfac=choice(0.25, 0.5), rd_min_nv_thresh=choice(0, 2, 10), rd_min_nv_gl=choice(1, 10, 100, 5000), rd_seq_nv=choice(1, 5, 20, 5000), rd_loc_gl=choice(0.5, 0.9))


@st.composite
def flags(draw):
    fl = dict(max_coarse_size=draw(choice(1, 2, 5)))
    # usually keep several processes alive for a while
    k = draw(ints(0, 5))
    if k >= 2: fl["enable_redist"] = False
    elif k: fl.update(rd_seq_nv=draw(choice(1, 2, 5)), rd_min_nv_gl=draw(choice(1, 2, 10)), rd_min_nv_thresh=draw(choice(0, 1, 3)), first_rdaf=draw(choice(0.01, 0.1)), rdaf=draw(choice(0.01, 0.1)))
    for k in draw(st.lists(st.sampled_from(sorted(FL)), max_size=5, unique=True)): fl[k] = draw(FL[k])
    return fl


@st.composite
def dcase(draw):
    n = draw(choice(2, 3, 3, 4, 4))
    lo = draw(choice(1, 2, 3))
    return dict(prob=draw(gen.problem(lo=lo, hi2=8, hi3=draw(choice(2, 2, 3)), orders=(1, 1, 1, 1, 2), nodalp2=True)), flags=draw(flags()), np=n, dist=draw(st.booleans()))


case = dcase()
SUBS = [Sub("dist", case, lambda c, res: res[c["np"]], quick=450, thorough=8000, shards=3, nps=lambda c: [c["np"]] if c else [4], rule="at least two processes own unknowns and there are at least two levels", min_nontrivial=30)]
ASSUMPTIONS = ["2 to 4 processes on one machine, OpenMPI, METIS partitions chosen by NgSolve", "at most 200 unknowns, condition number of the matrix below 1e7", "NgSolve assembly and parallel vectors are trusted"]
