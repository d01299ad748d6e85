"""dense picture of a multigrid hierarchy: level operators, grid transfers, smoothers, as seen through the public interface"""
import numpy as np
from .util import *


def vec(M, x=None):
    v = M.CreateRowVector()
    if x is not None: nv(v)[:] = x
    return v


class Hier:
    def __init__(self, amg):
        self.amg = amg
        self.map = amg.GetMap()
        self.n = self.map.GetNLevels()
        self.size = [len(nv(self.map.CreateVector(l))) for l in range(self.n)]

    def A(self, l):
        M = self.amg.GetMatrix(l)
        return dense(M)

    def prol(self, l, step=None):
        """columns: coarse unit vectors prolongated with the step l -> l+1"""
        st = step or self.map.GetStep(l)
        fv, cv = self.map.CreateVector(l), self.map.CreateVector(l + 1)
        return c2f_dense(st, fv, cv)

    def rest(self, l, step=None):
        st = step or self.map.GetStep(l)
        fv, cv = self.map.CreateVector(l), self.map.CreateVector(l + 1)
        return f2c_dense(st, fv, cv)


def c2f_dense(st, fv, cv):
    P = np.zeros((len(nv(fv)), len(nv(cv))))
    for k in range(P.shape[1]):
        nv(cv)[:] = 0.0; nv(cv)[k] = 1.0
        nv(fv)[:] = 7.7e3
        st.C2F(fv, cv)
        P[:, k] = nv(fv)
    return P


def f2c_dense(st, fv, cv):
    R = np.zeros((len(nv(cv)), len(nv(fv))))
    for k in range(R.shape[1]):
        nv(fv)[:] = 0.0; nv(fv)[k] = 1.0
        nv(cv)[:] = 7.7e3
        st.F2C(fv, cv)
        R[:, k] = nv(cv)
    return R


def smooth(sm, x, b, res=None, res_updated=False, update_res=False, x_zero=False, back=False, k=None):
    """one call of the smoother on numpy data; returns (x, res) after"""
    xv, bv, rv = sm.CreateColVector(), sm.CreateColVector(), sm.CreateColVector()
    nv(xv)[:] = x; nv(bv)[:] = b
    nv(rv)[:] = res if res is not None else 3.3e3
    f = (sm.SmoothBackK if back else sm.SmoothK) if k is not None else (sm.SmoothBack if back else sm.Smooth)
    a = (k,) if k is not None else ()
    f(*a, xv, bv, rv, res_updated, update_res, x_zero)
    need(np.array_equal(nv(bv), b), "smoothing modified the right hand side")
    return nv(xv).copy(), nv(rv).copy()


def smoother_dense(sm, n, back=False):
    """S: b -> x after one smoothing step from x=0"""
    S = np.zeros((n, n))
    xv, bv, rv = sm.CreateColVector(), sm.CreateColVector(), sm.CreateColVector()
    f = sm.SmoothBack if back else sm.Smooth
    for k in range(n):
        nv(xv)[:] = 0.0; nv(bv)[:] = 0.0; nv(bv)[k] = 1.0; nv(rv)[:] = 3.3e3
        f(xv, bv, rv, False, False, False)
        S[:, k] = nv(xv)
    return S
