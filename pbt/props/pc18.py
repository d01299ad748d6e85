"""C18: regularising elasticity matrices repairs exactly the singular directions of the diagonal blocks."""
import numpy as np
import ngsolve as ng
from ..core import Sub
from ..util import *
from .. import gen
from ..problem import Problem, make_or_refuse
from ..hier import Hier
from hypothesis import strategies as st

# carrier: (dim, n, refuse) -> coarse level matrix of a hierarchy with 3x3 / 6x6 entries; its values are overwritten by the cases
_car = {}


class Carrier:
    def __init__(self, dim, size):
        n = {2: [(4, 3), (6, 4), (8, 7)], 3: [(2, 2, 2), (3, 2, 2), (4, 3, 3)]}[dim][size]
        spec = dict(mesh=dict(dim=dim, n=list(n), simplex=True), pde="elast", order=1, diri=["left"])
        self.P = Problem(spec)
        self.pc = self.P.make_pc(dict(max_coarse_size=2))
        amg = self.pc.GetAMGMatrix()
        self.mat = amg.GetMatrix(1)
        self.bs = 3 if dim == 2 else 6
        v = nv(self.mat.AsVector())
        v[:] = np.arange(1, len(v) + 1)
        self.pos = dense(self.mat).round().astype(int)
        self.N = self.pos.shape[0]
        self.graph = self.pos > 0
        need(self.N % self.bs == 0 and len(v) == self.graph.sum(), "harness: level matrix layout")

    def set(self, D):
        v = nv(self.mat.AsVector())
        i, j = np.nonzero(self.graph)
        v[self.pos[i, j] - 1] = D[i, j]

    def get(self):
        v = nv(self.mat.AsVector())
        D = np.zeros((self.N, self.N))
        i, j = np.nonzero(self.graph)
        D[i, j] = v[self.pos[i, j] - 1]
        return D


def carrier(dim, size):
    if (dim, size) not in _car: _car[dim, size] = Carrier(dim, size)
    return _car[dim, size]


def draw_block(rng, bs, kind, dim):
    """spd block, or one with a kernel; returns (block, orthonormal kernel basis, eigenvalue range)"""
    ev = 10.0 ** rng.uniform(-3, 0, bs)
    if kind == "spd": Q = np.linalg.qr(rng.standard_normal((bs, bs)))[0]; k = 0
    elif kind == "zero": return np.zeros((bs, bs)), np.eye(bs)
    elif dim == 2 and kind == "kernel":  # the usual singular direction of a coarse 2d vertex is its rotation
        A = np.zeros((3, 3)); Q = np.linalg.qr(rng.standard_normal((2, 2)))[0]
        A[:2, :2] = (Q * ev[:2]) @ Q.T
        return (A + A.T) / 2, np.eye(3)[:, 2:]
    else:
        k = int(rng.integers(1, bs))
        if kind == "axes" and rng.random() < 0.5:   # rotations / coordinate directions
            Q = np.eye(bs)[:, rng.permutation(bs)]
        else: Q = np.linalg.qr(rng.standard_normal((bs, bs)))[0]
        ev[:k] = 0
    A = (Q * ev) @ Q.T
    return (A + A.T) / 2, Q[:, :k]


def run_blocks(c):
    C = carrier(c["dim"], c["size"])
    rng = np.random.default_rng(c["seed"])
    bs, n = C.bs, C.N // C.bs
    s = 10.0 ** c["scale"]
    # off-diagonal part: any symmetric values on the graph
    D = rng.standard_normal((C.N, C.N)); D = (D + D.T) * C.graph * s
    ker, kinds = [], []
    for k in range(n):
        kind = c["kinds"][k % len(c["kinds"])]
        B, K = draw_block(rng, bs, kind, c["dim"])
        I = slice(k * bs, (k + 1) * bs)
        D[I, I] = B * s
        ker.append(K); kinds.append(kind)
        if K.shape[1]:                  # a symmetric psd matrix has no coupling out of the kernel of a diagonal block
            Pr = np.eye(bs) - K @ K.T
            D[I, :] = np.where(C.graph[I, :], D[I, :], 0)
            for l in range(n):
                J = slice(l * bs, (l + 1) * bs)
                if l != k and C.graph[I, J].any():
                    D[I, J] = Pr @ D[I, J]; D[J, I] = D[I, J].T
    C.set(D)
    before = C.get()
    C.pc.RegularizeMatrix(C.mat)
    after = C.get()
    need(np.isfinite(after).all(), "regularised matrix is not finite")
    nker = 0
    for k in range(n):
        I = slice(k * bs, (k + 1) * bs)
        B0, B1, K = before[I, I], after[I, I], ker[k]
        off0, off1 = before[I].copy(), after[I].copy()
        off0[:, I] = 0; off1[:, I] = 0
        need(np.array_equal(off0, off1), "entries outside of diagonal block %d changed" % k)
        d = B1 - B0
        w = np.linalg.eigvalsh(B0)
        top = max(w[-1], 0)
        if K.shape[1] == 0:
            need(np.array_equal(B0, B1), "well conditioned diagonal block %d (eigenvalues %s) changed by %g" % (k, w, np.abs(d).max()))
            continue
        nker += 1
        sc = np.abs(B1).max()
        need(np.abs(d - d.T).max() <= 1e-10 * sc, "added term of block %d is not symmetric" % k)
        wd = np.linalg.eigvalsh((d + d.T) / 2)
        need(wd[0] >= -1e-10 * sc, "added term of block %d is not positive semidefinite: %s" % (k, wd))
        Pr = np.eye(bs) - K @ K.T
        need(np.abs(Pr @ d).max() <= 1e-9 * sc, "added term of block %d acts outside of its kernel: %g of %g" % (k, np.abs(Pr @ d).max(), sc))
        w1 = np.linalg.eigvalsh((B1 + B1.T) / 2)
        low = min([x for x in w if x > 1e-6 * top], default=0) if top > 0 else 0
        need(w1[0] > (1e-6 * low if c["dim"] == 3 else 0.0), "block %d is still singular after regularisation: %s" % (k, w1))
    # twice is the same as once
    C.pc.RegularizeMatrix(C.mat)
    again = C.get()
    need(np.abs(again - after).max() <= 1e-12 * np.abs(after).max(), "regularising twice differs from once by %g" % np.abs(again - after).max())
    return dict(nontrivial=nker > 0 and nker < n, classes=["dim%d" % c["dim"], "scale%d" % (c["scale"] // 4 * 4)] + sorted(set(kinds)))


def run_final(c):
    """the coarsest matrix of a hierarchy is the regularised projection: regularising it again changes nothing"""
    P = Problem(c["prob"])
    pc = make_or_refuse(P, c["flags"])
    amg = pc.GetAMGMatrix()
    n = pc.GetNLevels()
    dim, bs = c["prob"]["mesh"]["dim"], 3 if c["prob"]["mesh"]["dim"] == 2 else 6
    M = amg.GetMatrix(n - 1)
    if n < 2: raise Reject("one level")
    D = dense(M)
    need(np.isfinite(D).all(), "coarsest matrix is not finite")
    H = Hier(amg)
    Pr = H.prol(n - 2)
    G = Pr.T @ H.A(n - 2) @ Pr
    sc = np.abs(G).max()
    noise = 1e-9 * sc
    nreg = 0
    rot = np.array([D[k + 2, k + 2] for k in range(0, len(D), bs)]) if dim == 2 else None
    dis = max(max(D[k, k], D[k + 1, k + 1]) for k in range(0, len(D), bs))
    for k in range(0, len(D), bs):
        I = slice(k, k + bs)
        if dim == 2:
            need(D[k + 2, k + 2] > 1e-13 * rot.max(), "rotation entry %g of the coarsest matrix (largest: %g)" % (D[k + 2, k + 2], rot.max()))
            S = np.array([1.0, 1.0, (dis / rot.max()) ** 0.5])
            w = np.linalg.eigvalsh(S[:, None] * D[I, I] * S)
            need(w[0] > 1e-13 * w[-1], "a diagonal block of the coarsest matrix has eigenvalues %s" % w)
        else:
            w = np.linalg.eigvalsh(D[I, I])
            need(w[0] > 1e-13 * w[-1], "diagonal block of the coarsest matrix has eigenvalues %s" % w)
        nreg += np.abs(D[I, I] - G[I, I]).max() > noise
    pc.RegularizeMatrix(M)
    D1 = dense(M)
    need(relerr(D1, D) <= 1e-10, "coarsest matrix was not regularised: doing it (again) changes it by %g of %g" % (np.abs(D1 - D).max(), np.abs(D).max()))
    return dict(nontrivial=nreg > 0, classes=["dim%d" % dim, "levels=%d" % n] + (["regularised"] if nreg else []))


def run_wrong(c):
    """a matrix with other entries than those of coarse levels is refused, not modified"""
    C = carrier(c["dim"], c["size"])
    M = C.P.a.mat if c["which"] == "fine" else ng.la.SparseMatrixd.CreateFromCOO(list(range(4)), list(range(4)), [1.0, 0.0, 2.0, 1e-30], 4, 4)
    v = nv(M.AsVector()).copy()
    try:
        C.pc.RegularizeMatrix(M)
        raise Violation("a matrix with entries of another size was accepted")
    except Violation: raise
    except Exception: pass
    need(np.array_equal(v, nv(M.AsVector())), "refused matrix was modified")
    return dict(nontrivial=True, classes=["dim%d" % c["dim"], c["which"]])


blocks = st.fixed_dictionaries(dict(dim=gen.choice(2, 3), size=gen.ints(0, 2), kinds=st.lists(gen.choice("spd", "kernel", "axes", "spd", "zero"), min_size=1, max_size=6),
                                    scale=gen.ints(-12, 12), seed=gen.seeds))
final = st.fixed_dictionaries(dict(prob=gen.problem(pdes=("elast",), rots=False, lo=2, hi2=8, hi3=3, orders=(1, 1, 1, 2)), flags=st.tuples(gen.flags(groups=(gen.CRS_FLAGS, gen.PROL_FLAGS)), gen.choice({}, dict(max_levels=2), dict(max_levels=2, spw_rounds=1, crs_alg="spw"), dict(max_levels=3, spw_rounds=1, crs_alg="spw"))).map(lambda t: {**t[0], **t[1]})))
wrong = st.fixed_dictionaries(dict(dim=gen.choice(2, 3), size=gen.ints(0, 2), which=gen.choice("fine", "scalar")))
SUBS = [Sub("blocks", blocks, run_blocks, quick=2400, thorough=60000, shards=6, rule="some, but not all diagonal blocks have a kernel", min_nontrivial=300),
        Sub("final", final, run_final, quick=1200, thorough=40000, shards=8, rule="a diagonal block of the coarsest matrix differs from the projected one", min_nontrivial=40),
        Sub("wrong", wrong, run_wrong, quick=20, thorough=100, shards=1, rule="a matrix of another kind", min_nontrivial=4)]
ASSUMPTIONS = ["nonzero eigenvalues of a diagonal block within three orders of magnitude", "2d: displacement and rotation entries of comparable size"]
