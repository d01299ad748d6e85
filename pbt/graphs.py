"""weighted graph Laplacians as problems for the matrix interface (no mesh, no finite element space)"""
import numpy as np
import ngsolve as ng
from . import sp


def laplacian(n, seed, kind, pin, wt="int"):
    """weighted graph Laplacian + non-negative diagonal; wt int: all entries are integers"""
    rng = np.random.default_rng(seed)
    w = (lambda: float(rng.integers(1, 9))) if wt == "int" else (lambda: 10.0 ** rng.uniform(-2, 2)) if wt == "log" else (lambda: 1.0)
    W = np.zeros((n, n))
    if kind == "path":
        for i in range(n - 1): W[i, i + 1] = w()
    elif kind == "grid":
        m = max(2, int(round(n ** 0.5)))
        for i in range(n):
            if (i + 1) % m and i + 1 < n: W[i, i + 1] = w()
            if i + m < n: W[i, i + m] = w()
    elif kind == "star":
        c = int(rng.integers(n))
        for i in range(n):
            if i != c: W[min(i, c), max(i, c)] = w()
    elif kind == "complete":
        for i in range(n):
            for j in range(i): W[j, i] = w()
    elif kind == "parts":
        for _ in range(n):
            i, j = rng.integers(0, n, 2)
            if i != j: W[i, j] = w()
    else:
        pr = rng.permutation(n)
        for k in range(1, n): W[pr[k], pr[rng.integers(0, k)]] = 2.0 ** rng.integers(0, 7) if wt == "int" else w()
        if kind != "tree":
            for _ in range(int(rng.integers(0, 2 * n))):
                i, j = rng.integers(0, n, 2)
                if i != j: W[i, j] = w()
    W = np.maximum(W, W.T)
    d = (rng.random(n) < 0.2) * (rng.integers(1, 4, n) if wt != "log" else 10.0 ** rng.uniform(-2, 2, n)) if pin else np.zeros(n)
    return np.diag(W.sum(1) + d) - W, d


def free_mask(g, A, d):
    """random mask that leaves the matrix definite: every connected part has a constrained or pinned unknown"""
    n = g["n"]
    rng = np.random.default_rng(g["seed"] + 1)
    free = rng.random(n) > g["fix"]
    lab = np.arange(n)
    for _ in range(n):
        new = np.array([min(lab[np.nonzero(A[i])[0]], default=lab[i]) for i in range(n)]) if n else lab
        new = np.minimum(new, lab)
        if (new == lab).all(): break
        lab = new
    for c in set(lab.tolist()):
        m = np.nonzero(lab == c)[0]
        if free[m].all() and not d[m].any(): free[m[int(rng.integers(len(m)))]] = False
    return free


def bits(mask):
    b = ng.BitArray(len(mask)); b.Clear()
    for i in np.nonzero(mask)[0]: b.Set(int(i))
    return b


class _Mesh:
    def __init__(self, n): self.nv, self.dim = n, 0


class _Space:
    def __init__(self, mask):
        self.ndof = len(mask); self.mask = mask; self.mesh = _Mesh(len(mask))
    def FreeDofs(self, elim=False): return bits(self.mask)


class _Form:
    def __init__(self, make):
        self.make = make; self.mat = make()
    def Assemble(self): pass


class GraphProblem:
    """same interface as problem.Problem"""
    def __init__(self, spec):
        self.spec = spec
        g = spec["g"]
        self.D, self.pin = laplacian(g["n"], g["seed"], g["kind"], g["pin"], g["wt"])
        self.D = self.D * spec.get("coef", [1.0])[0]
        self.mask = free_mask(g, self.D, self.pin)
        self.V = _Space(self.mask)
        self.mesh = self.V.mesh
        self.a = _Form(lambda: sp.scalar(self.D))
        self.bs, self.pcname = 1, "h1_scal"

    def make_pc(self, flags=None, assemble=True):
        import NgsAMG
        from .problem import amgflags
        self.pc = NgsAMG.h1_scal(self.a.mat, bits(self.mask), **amgflags(flags or {}))
        return self.pc

    @property
    def free(self): return self.mask.copy()
