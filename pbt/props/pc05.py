"""C05: the multigrid operator is the textbook V / W / BS cycle of its exposed parts, whatever was applied before."""
import numpy as np
from ..core import Sub
from ..util import *
from ..hier import Hier, smoother_dense
from .. import gen
from .pc01 import cond_ok
from .pc14 import setup_any, stokes_spd
from hypothesis import strategies as st


class Ref:
    """textbook cycles on dense matrices"""
    def __init__(self, H, clev):
        amg = H.amg
        self.n = H.n
        self.A = [H.A(l) for l in range(H.n - 1)]
        self.P = [H.prol(l) for l in range(H.n - 1)]
        self.S = [smoother_dense(amg.GetSmoother(l), H.size[l]) for l in range(H.n - 1)]
        self.SB = [smoother_dense(amg.GetSmoother(l), H.size[l], back=True) for l in range(H.n - 1)]
        nc = H.size[-1]
        if clev == "inv":
            Ac = dense(amg.GetMatrix(H.n - 1))
            self.C = self.coarse_inverse(dense(amg.SubAMGMatrix(H.n)), Ac)
        else:
            need(amg.GetMatrix(H.n - 1) is None, "there is a coarse matrix although no coarse inverse was requested")
            self.C = np.zeros((nc, nc))

    def coarse_inverse(self, C, Ac):
        """the coarse solver is checked on its own: exact inverse of the (regular) coarse matrix"""
        ev = np.linalg.eigvalsh(0.5 * (Ac + Ac.T))
        if ev.size and ev[0] > 1e-9 * ev[-1]:
            err = relerr(C @ Ac, np.eye(len(Ac)))
            need(err < 1e-5, "coarse solver is not the inverse of the coarsest matrix: %g" % err)
        return C

    def V(self, l, b):
        if l == self.n - 1: return self.C @ b
        A, P = self.A[l], self.P[l]
        x = self.S[l] @ b
        x = x + P @ self.V(l + 1, P.T @ (b - A @ x))
        return x + self.SB[l] @ (b - A @ x)

    def W(self, l, b):
        if l == self.n - 1: return self.C @ b
        A, P = self.A[l], self.P[l]
        x = 0 * b
        for _ in range(2):
            x = x + self.S[l] @ (b - A @ x)
            x = x + P @ self.W(l + 1, P.T @ (b - A @ x))
            x = x + self.SB[l] @ (b - A @ x)
        return x

    def BS(self, l, b):
        if l == self.n - 1: return self.C @ b
        A, P = self.A[l], self.P[l]
        x = self.V(l, b)
        x = x + P @ self.BS(l + 1, P.T @ (b - A @ x))
        return x + self.V(l, b - A @ x)

    def twoV(self, l, b):
        x = self.V(l, b)
        return x + self.V(l, b - self.A[l] @ x)

    def CGC(self, b):
        Ps = [b]
        for P in self.P: Ps.append(P.T @ Ps[-1])
        x = self.C @ Ps[-1]
        for P in reversed(self.P): x = P @ x
        return x


def run(case):
    fl = case["flags"]
    P, pc = setup_any(case["prob"], fl)
    amg = pc.GetAMGMatrix()
    fr = P.free
    if cond_ok(dense(P.a.mat)[np.ix_(fr, fr)]) is None: raise Reject("not spd")
    H = Hier(amg)
    clev = "inv" if fl.get("clev", "inv") == "inv" else "none"
    R = Ref(H, clev)
    cyc = fl.get("mg_cycle", "V")
    f = dict(V=R.V, W=R.W, BS=R.BS)[cyc]
    n0 = H.size[0]
    if cyc == "W" and R.n > 8: raise Reject("too many levels for the reference W cycle")
    B = np.stack([f(0, e) for e in np.eye(n0)], axis=1)
    if not np.isfinite(B).all(): raise Reject("reference not finite")
    Vm = None
    scale = np.abs(B).max(initial=0)
    if not 0 < scale < 1e30: raise Reject("trivial operator")
    tol = 1e-7 * scale
    L = [1e-3]

    def cmp(got, want, what, s=None):
        s = s if s is not None else scale
        d = np.abs(got - want).max(initial=0)
        need(np.isfinite(got).all() and d <= 1e-7 * s, "%s: differs from the %s cycle on %d levels by %g of %g (ops %s)" % (what, cyc, R.n, d, s, done))
    done = []
    rng = np.random.default_rng(case["seed"])
    amg2 = None
    for op in case["ops"]:
        done.append(op)
        b = rng.standard_normal(n0)
        s1 = scale * 10
        if op in ("mult", "pcmult", "trans"):
            M = pc if op == "pcmult" else amg
            xv, yv = M.CreateRowVector(), M.CreateColVector()
            nv(xv)[:] = b; nv(yv)[:] = 5.5e3
            if op == "trans":
                nv(yv)[:] = 1.0
                M.MultTrans(1.0, xv, yv)
                cmp(nv(yv).copy(), B @ b, op, s1)
            else:
                M.Mult(xv, yv)
                cmp(nv(yv).copy(), B @ b, op, s1)
            need(np.array_equal(nv(xv), b), "%s modified its input" % op)
        elif op == "full":
            cmp(dense(amg), B, "operator")
        elif op in ("add", "pcadd"):
            M = pc if op == "pcadd" else amg
            xv, yv = M.CreateRowVector(), M.CreateColVector()
            y0 = rng.standard_normal(n0) * scale
            nv(xv)[:] = b; nv(yv)[:] = y0
            s = float(rng.choice([1.0, -0.5, 2.0]))
            M.MultAdd(s, xv, yv)
            cmp(nv(yv).copy(), y0 + s * (B @ b), op, s1)
            need(np.array_equal(nv(xv), b), "MultAdd modified its input")
        elif op == "cgc":
            if clev != "inv": continue
            xv, bv = P.a.mat.CreateColVector(), P.a.mat.CreateRowVector()
            nv(bv)[:] = b; nv(xv)[:] = 5.5e3
            pc.CINV(xv, bv)
            w = R.CGC(b)
            cmp(nv(xv).copy(), w, "coarse grid correction", max(s1, np.abs(R.C).max(initial=0) * 10))
            need(np.array_equal(nv(bv), b), "CINV modified its right hand side")
        elif op == "bf":
            l = int(rng.integers(0, H.n))
            k = int(rng.integers(0, H.size[l]))
            xv = P.a.mat.CreateColVector()
            nv(xv)[:] = 5.5e3
            nd, bs = pc.GetNDBS(l)
            pc.GetBF(xv, l, k // bs, k % bs)
            w = np.eye(H.size[l])[k]
            for q in reversed(range(l)): w = R.P[q] @ w
            need(np.abs(nv(xv) - w).max() <= 1e-12 * max(1, np.abs(w).max()), "basis function %d of level %d is not the prolongated unit vector" % (k, l))
        elif op == "sub":
            l = int(rng.integers(0, H.n))
            M = amg.SubAMGMatrix(l)
            if l == H.n - 1 and clev != "inv":
                need(M is None, "there is a coarse solver although none was requested")
                continue
            bl = rng.standard_normal(H.size[l])
            w = f(0, bl) if l == 0 else (R.C @ bl if l == H.n - 1 else R.twoV(l, bl))
            xv, yv = M.CreateRowVector(), M.CreateColVector()
            nv(xv)[:] = bl; nv(yv)[:] = 5.5e3
            M.Mult(xv, yv)
            cmp(nv(yv).copy(), w, "operator from level %d" % l, max(s1, 10 * np.abs(R.C).max(initial=0), 10 * np.abs(w).max(initial=0)))
        elif op == "hand":
            import NgsAMG
            if amg2 is None:
                a = (amg.GetMatrix(H.n - 1), amg.SubAMGMatrix(H.n)) if clev == "inv" else ()
                amg2 = NgsAMG.AMGMatrix(H.map, [amg.GetSmoother(l) for l in range(H.n - 1)], *a)
            if Vm is None: Vm = np.stack([R.V(0, e) for e in np.eye(n0)], axis=1)
            y = apply(amg2, b)
            cmp(y, Vm @ b, "cycle assembled from the parts", s1 + 10 * np.abs(Vm).max())
    return dict(nontrivial=H.n > 2, classes=["levels=%d" % H.n, cyc, clev] + ["op:" + o for o in set(done)])


OPS = gen.choice("mult", "pcmult", "trans", "add", "pcadd", "cgc", "bf", "sub", "sub", "hand", "full")
case, gcase = [st.fixed_dictionaries(dict(
    prob=pr,
    flags=st.builds(lambda a, b: {**a, **b}, gen.flags(), st.fixed_dictionaries(dict(
        mg_cycle=gen.CYC_FLAGS["mg_cycle"], clev=gen.CYC_FLAGS["clev"], max_coarse_size=gen.choice(1, 2, 4)))),
    ops=st.lists(OPS, min_size=1, max_size=8), seed=gen.seeds)) for pr in (gen.problem(hi2=8, hi3=3, sub=True), gen.graph(hi=40))]
@st.composite
def scase(draw):
    prob, fl = draw(stokes_spd())
    for k in ("mg_cycle", "clev"): fl[k] = draw(gen.CYC_FLAGS[k])
    if draw(st.booleans()): fl["max_coarse_size"] = draw(gen.choice(1, 2, 4))
    return dict(prob=prob, flags=fl, ops=draw(st.lists(OPS, min_size=1, max_size=8)), seed=draw(gen.seeds))


SUBS = [Sub("cycle", case, run, quick=6000, thorough=60000, shards=8, rule="at least three levels", min_nontrivial=200),
        Sub("graph", gcase, run, quick=1500, thorough=40000, shards=8, rule="at least three levels", min_nontrivial=80),
        Sub("stokes", scase(), run, quick=700, thorough=30000, shards=8, rule="at least three levels", min_nontrivial=80)]
ASSUMPTIONS = ["level smoothers are applied from zero to obtain their matrices (their own contract is decided by C06)", "meshes of at most about 80 vertices"]
