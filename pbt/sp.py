"""random sparse matrices (scalar and block-entry), and strategies for them"""
import numpy as np
import ngsolve as ng
from .util import *


def pattern(n, m, dens, rng):
    return rng.random((n, m)) < dens


def scalar(D, extra=None):
    """ngsolve sparse matrix from a dense array; extra: boolean array of additional (zero) entries in the graph"""
    nz = D != 0
    if extra is not None: nz = nz | extra
    i, j = np.nonzero(nz)
    return ng.la.SparseMatrixd.CreateFromCOO([int(x) for x in i], [int(x) for x in j], [float(D[a, b]) for a, b in zip(i, j)], *D.shape)


def values(n, m, dens, rng, kind="int"):
    P = pattern(n, m, dens, rng)
    V = rng.integers(-4, 5, (n, m)).astype(float) if kind == "int" else rng.standard_normal((n, m)) * 10.0 ** rng.integers(-6, 7, (n, m))
    return V * P, P


def spd(n, dens, rng, scale=False):
    """symmetric positive definite scalar matrix with random graph"""
    P = pattern(n, n, dens, rng); P = P | P.T
    V = rng.uniform(-1, 1, (n, n)); V = (V + V.T) / 2 * P
    np.fill_diagonal(V, 0)
    V += np.diag(np.abs(V).sum(1) * rng.uniform(1.0, 1.3) + rng.uniform(0.1, 1, n))
    if scale:
        s = 10.0 ** rng.uniform(-2, 2, n); V = V * s[:, None] * s[None, :]
    return V


def block_carrier(bs, nx, ny):
    """assembled matrix with Mat<bs,bs> entries over a small mesh (its values can be overwritten)"""
    from . import meshes
    mesh = meshes.build(dict(dim=2, n=[nx, ny], simplex=True))
    V = ng.H1(mesh, order=1, dim=bs)
    u, v = V.TnT()
    a = ng.BilinearForm(ng.InnerProduct(ng.Grad(u), ng.Grad(v)) * ng.dx + ng.InnerProduct(u, v) * ng.dx)
    a.Assemble()
    return a


def block_random(bs, nx, ny, rng, zero=0.3):
    a = block_carrier(bs, nx, ny)
    v = nv(a.mat.AsVector())
    n = len(v) // (bs * bs)
    V = rng.integers(-4, 5, (n, bs * bs)).astype(float)
    V[rng.random(n) < zero] = 0
    v[:] = V.reshape(-1)
    return a


class BlockMat:
    """matrix with Mat<bs,bs> entries and a given symmetric graph is not constructible from outside, so the graph is the one of a
    small mesh; its entries are set from a dense array"""
    def __init__(self, bs, nx, ny):
        self.bs = bs
        self.a = block_carrier(bs, nx, ny)
        self.mat = self.a.mat
        v = nv(self.mat.AsVector())
        v[:] = np.arange(1, len(v) + 1)
        self.pos = dense(self.mat).round().astype(int)      # where each stored value sits
        self.n = self.pos.shape[0]
        self.graph = self.pos > 0

    def set(self, D):
        v = nv(self.mat.AsVector())
        i, j = np.nonzero(self.graph)
        v[self.pos[i, j] - 1] = D[i, j]
        return self.mat


def spd_on(graph, rng, scale=False):
    """symmetric, strictly diagonally dominant (up to scaling) with the given graph"""
    n = graph.shape[0]
    V = rng.uniform(-1, 1, (n, n)); V = (V + V.T) / 2 * graph
    np.fill_diagonal(V, 0)
    V += np.diag(np.abs(V).sum(1) * rng.uniform(1.0, 1.3) + rng.uniform(0.1, 1, n))
    if scale:
        s = 10.0 ** rng.uniform(-2, 2, n); V = V * s[:, None] * s[None, :]
    return V
