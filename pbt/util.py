import numpy as np


class Violation(Exception):
    """the property is broken by this case"""


class Reject(Exception):
    """case outside of the domain (nothing is asserted)"""


def need(cond, msg):
    if not cond:
        raise Violation(msg)


def nv(v):
    """flat numpy view of an ngsolve vector (block entries flattened)"""
    return v.FV().NumPy().reshape(-1)


def mkvec(M, arr, col=True):
    v = M.CreateColVector() if col else M.CreateRowVector()
    nv(v)[:] = arr
    return v


def dense(M, transpose=False):
    """dense array of a linear operator, column by column (unit vectors)"""
    rv, cv = M.CreateRowVector(), M.CreateColVector()
    n, m = len(nv(cv)), len(nv(rv))
    if transpose:
        D = np.zeros((m, n))
        for k in range(n):
            cv[:] = 0.0; nv(cv)[k] = 1.0
            rv[:] = 0.0
            M.MultTrans(1.0, cv, rv)
            D[:, k] = nv(rv)
        return D
    D = np.zeros((n, m))
    for k in range(m):
        rv[:] = 0.0; nv(rv)[k] = 1.0
        nv(cv)[:] = 7.7e3
        M.Mult(rv, cv)
        D[:, k] = nv(cv)
    return D


def apply(M, x):
    rv, cv = M.CreateRowVector(), M.CreateColVector()
    nv(rv)[:] = x
    nv(cv)[:] = 7.7e3
    M.Mult(rv, cv)
    return nv(cv).copy()


def relerr(a, b, scale=None):
    a = np.asarray(a); b = np.asarray(b)
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return np.inf
    s = scale if scale is not None else max(np.abs(a).max(initial=0), np.abs(b).max(initial=0))
    d = np.abs(a - b).max(initial=0)
    return d / s if s > 0 else d
