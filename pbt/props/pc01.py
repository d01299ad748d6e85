"""C01: the AMG preconditioner is a symmetric positive definite operator supported on the free dofs, with M^-1 never overshooting."""
import numpy as np
from ..core import Sub
from ..util import *
from ..problem import Problem, make_or_refuse
from .. import gen
from hypothesis import strategies as st


def cond_ok(Aff, lim=1e7):
    ev = np.linalg.eigvalsh(0.5 * (Aff + Aff.T))
    if ev.size == 0 or ev[0] <= 0 or ev[-1] / ev[0] > lim:
        return None
    return ev[-1] / ev[0]


def run(case):
    P = Problem(case["prob"])
    pc = make_or_refuse(P, case["flags"])
    A = dense(P.a.mat)
    f = P.free
    nf = int(f.sum())
    if nf == 0: raise Reject("no free dofs")
    Aff = A[np.ix_(f, f)]
    k = cond_ok(Aff)
    if k is None: raise Reject("not spd")
    B = dense(pc)
    need(np.isfinite(B).all(), "operator has non-finite entries")
    need(np.abs(B[~f]).max(initial=0) == 0, "output on constrained dofs: %g" % np.abs(B[~f]).max(initial=0))
    need(np.abs(B[:, ~f]).max(initial=0) == 0, "input on constrained dofs used: %g" % np.abs(B[:, ~f]).max(initial=0))
    Bff = B[np.ix_(f, f)]
    es = relerr(Bff, Bff.T)
    need(es < 1e-7, "not symmetric: %g" % es)
    L = np.linalg.cholesky(0.5 * (Aff + Aff.T))
    ev = np.linalg.eigvalsh(L.T @ (0.5 * (Bff + Bff.T)) @ L)
    need(ev[0] > 1e-7, "not positive definite: lam_min(M^-1 A)=%g" % ev[0])
    if case["flags"].get("sm_type") != "jacobi":
        need(ev[-1] < 1 + 1e-6, "overshoots: lam_max(M^-1 A) - 1 = %g" % (ev[-1] - 1))
    nl = pc.GetNLevels(0)
    return dict(nontrivial=nl > 1 and nf > 2, classes=["levels=%d" % nl, case["prob"]["pde"], "dim%d" % case["prob"]["mesh"]["dim"]])


case = st.fixed_dictionaries(dict(prob=gen.problem(sub=True), flags=gen.flags(groups=(gen.GS_FLAGS, gen.CRS_FLAGS, gen.PROL_FLAGS, dict(mg_cycle=gen.CYC_FLAGS["mg_cycle"])))))

gcase = st.fixed_dictionaries(dict(prob=gen.graph(), flags=gen.flags(groups=(gen.GS_FLAGS, gen.CRS_FLAGS, gen.PROL_FLAGS, dict(mg_cycle=gen.CYC_FLAGS["mg_cycle"])))))

SUBS = [Sub("lo", case, run, quick=6000, thorough=150000, shards=8, rule="at least two levels and more than two free unknowns, matrix condition below 1e7", min_nontrivial=200),
        Sub("graph", gcase, run, quick=1500, thorough=40000, shards=8, rule="at least two levels and more than two free unknowns", min_nontrivial=150)]
ASSUMPTIONS = ["meshes of at most about 150 vertices", "matrices with condition number above 1e7 are skipped", "NgSolve assembly and vector access are trusted"]
