"""Global dense picture of distributed vectors and operators.

A distributed space is described by a template vector on every participating process.  Which local entries are the same
global unknown is found out with the vectors' own Cumulate (random 44 bit integers summed over the sharing processes), and
cross-checked by the caller against what is known from the sequential problem.
"""
import numpy as np
from .util import *
import ngsolve as ng
from mpi4py import MPI

PS = ng.la.PARALLEL_STATUS
W = MPI.COMM_WORLD


class Space:
    """mk(): a vector of the space, or None on processes that do not take part"""
    def __init__(self, mk):
        self.mk = mk
        v = mk()
        self.part = v is not None
        n = len(nv(v)) if self.part else 0
        key = np.zeros(0)
        if self.part:
            r = np.random.default_rng(1000 + W.rank)
            v.SetParallelStatus(PS.DISTRIBUTED)
            nv(v)[:] = r.integers(1, 1 << 44, n).astype(float)
            v.Cumulate()
            key = nv(v).copy()
        allk = W.allgather(key)
        self.ids = {}
        for ks in allk:
            for k in ks: self.ids.setdefault(k, len(self.ids))
        self.N = len(self.ids)
        self.gid = np.array([self.ids[k] for k in key], dtype=int)
        self.all = [np.array([self.ids[k] for k in ks], dtype=int) for ks in allk]
        self.share = np.bincount(np.concatenate(self.all), minlength=self.N) if self.N else np.zeros(0, int)
        self.np = sum(len(a) > 0 for a in self.all)
        first = np.full(self.N, W.size)
        for r in reversed(range(W.size)): first[self.all[r]] = r
        self.first = [first[a] == r for r, a in enumerate(self.all)]     # is this process the first one that has the unknown

    def gather(self, loc, what="vector", scale=0.0):
        """global values of a cumulated local vector; they have to agree up to rounding (relative to scale)"""
        al = W.allgather(np.array(loc))
        sc = max([np.abs(a).max(initial=0) for a in al] + [scale])
        g = np.full((self.N,) + np.shape(loc)[1:], np.nan)
        bad = None
        for r, a in enumerate(al):
            idx = self.all[r]
            if not len(idx): continue
            d = np.abs(g[idx] - a)
            d = d[~np.isnan(d)]
            if len(d) and d.max() > 1e-12 * sc: bad = (r, float(d.max()))
            new = np.isnan(g[idx])
            g[idx] = np.where(new, a, g[idx])
        need(bad is None, "%s is not the same on all processes that share an unknown: differs by %s of %g" % (what, bad, sc))
        return g

    def put(self, v, x, dist=False, junk=None):
        """load the global vector x; dist: as a sum over the processes, split at random"""
        if not self.part: return
        if not dist:
            nv(v)[:] = x[self.gid]
            v.SetParallelStatus(PS.CUMULATED)
            return
        # split so that the sum over the sharing processes is x: all but the first sharer get random parts
        rs = np.random.default_rng(7 + (junk or 0))
        tot = x.copy()
        sc = np.abs(x).max(initial=0)
        for r, idx in enumerate(self.all):
            part = rs.standard_normal(len(idx)) * sc
            part[self.first[r]] = 0
            tot[idx] -= part
            if r == W.rank: mine = part
        nv(v)[:] = mine + np.where(self.first[W.rank], tot[self.gid], 0.0)
        v.SetParallelStatus(PS.DISTRIBUTED)

    def get(self, v, what="vector", scale=0.0):
        """global values of a result, whatever its parallel status"""
        loc = np.zeros(0)
        if self.part:
            v.Cumulate()
            loc = nv(v).copy()
        return self.gather(loc, what, scale)

    def get_raw(self, v, what="vector", scale=0.0):
        """global values of a vector that claims to be cumulated"""
        loc = np.zeros(0)
        if self.part:
            need(v.GetParallelStatus() == PS.CUMULATED, "%s is not cumulated" % what)
            loc = nv(v).copy()
        return self.gather(loc, what, scale)


def allneed(ok, msg):
    """a condition that may only be visible on some processes; collective"""
    al = W.allgather(None if ok else msg)
    for r, m in enumerate(al): need(m is None, "process %d: %s" % (r, m))


def matrix(f, X, Y, what, dist=False, cum=False, cols=None):
    """columns of the operator f(x, y): X -> Y; dist: the inputs are distributed vectors"""
    x, y = X.mk(), Y.mk()
    cols = range(X.N) if cols is None else cols
    loc = np.zeros((len(Y.gid), len(cols)))
    ok = True
    for k, j in enumerate(cols):
        e = np.zeros(X.N); e[j] = 1.0
        X.put(x, e, dist, j)
        if y is not None: nv(y)[:] = 3.3e3
        if X.part or Y.part: f(x, y)
        if Y.part:
            if cum: ok &= y.GetParallelStatus() == PS.CUMULATED
            else: y.Cumulate()
            loc[:, k] = nv(y)
    allneed(ok, "%s is not cumulated" % what)
    return Y.gather(loc, what, 1.0 if dist else 0.0)


def assemble(mat, X):
    """global matrix as the sum of the local ones (the semantics of a distributed matrix)"""
    L = np.zeros((0, 0))
    if X.part and len(X.gid):
        loc = mat.local_mat if hasattr(mat, "local_mat") else mat
        L = dense(loc)
    A = np.zeros((X.N, X.N))
    for r, l in enumerate(W.allgather(L)):
        idx = X.all[r]
        A[np.ix_(idx, idx)] += l
    return A
