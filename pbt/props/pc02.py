"""C02: conjugate gradients with the preconditioner converge quickly, independent of size, contrast and scaling."""
import numpy as np
import ngsolve as ng
from ..core import Sub
from ..util import *
from .. import gen
from ..problem import Problem, make_or_refuse
from hypothesis import strategies as st


def pcg(A, B, b, x, tol, maxit):
    """preconditioned CG on ngsolve operators; returns iterations, estimates of the extreme eigenvalues of B A"""
    r, z, p, q = [A.CreateColVector() for _ in range(4)]
    nv(x)[:] = 0
    nv(r)[:] = nv(b)
    B.Mult(r, z)
    nv(p)[:] = nv(z)
    rz = rz0 = float(nv(r) @ nv(z))
    al, be, its = [], [], 0
    if rz0 <= 0: return 0, 1.0, 1.0, rz0
    while its < maxit:
        A.Mult(p, q)
        pq = float(nv(p) @ nv(q))
        if not pq > 0: return its, 0, 0, -1
        a = rz / pq
        nv(x)[:] += a * nv(p); nv(r)[:] -= a * nv(q)
        B.Mult(r, z)
        new = float(nv(r) @ nv(z))
        its += 1
        al.append(a)
        if not np.isfinite(new): return its, 0, 0, -1
        if abs(new) <= tol ** 2 * rz0: break
        if new <= 0: return its, 0, 0, -1
        be.append(new / rz)
        nv(p)[:] = nv(z) + be[-1] * nv(p)
        rz = new
    n = len(al)
    T = np.zeros((n, n))
    for k in range(n):
        T[k, k] = 1 / al[k] + (be[k - 1] / al[k - 1] if k else 0)
        if k: T[k, k - 1] = T[k - 1, k] = np.sqrt(be[k - 1]) / al[k - 1]
    w = np.linalg.eigvalsh(T)
    return its, w[0], w[-1], 1


def solve(c):
    P = Problem(c["prob"])
    pc = make_or_refuse(P, c["flags"])
    f = P.free
    if not f.any(): raise Reject("nothing free")
    rng = np.random.default_rng(c["seed"])
    A = P.a.mat
    b, x = A.CreateColVector(), A.CreateColVector()
    nv(b)[:] = np.where(f, rng.standard_normal(len(f)), 0)
    its, lo, hi, ok = pcg(A, pc, b, x, 1e-8, 400)
    return P, pc, b, x, its, lo, hi, ok


def run(c):
    p = c["prob"]
    P, pc, b, x, its, lo, hi, ok = solve(c)
    n = int(P.free.sum())
    need(ok > 0, "preconditioned CG broke down in iteration %d" % its)
    co = p.get("coef", [1.0])
    ratio = max(co) / min(co)
    tame = ratio < 11
    # bounds: about 1.5 / 0.5 times the worst ones seen in 40000 generated problems
    d, pw = p["mesh"]["dim"], c["flags"].get("prol_type") == "piecewise"
    maxits, minlam = (50, 0.02) if pw else {("elast", 2): (45, 0.025), ("elast", 3): (36, 0.06)}.get((p["pde"], d), (34, 0.06) if d == 2 else (24, 0.07))
    if tame:
        need(its <= maxits, "%d CG iterations for %d unknowns, comparable coefficients" % (its, n))
        need(lo >= minlam, "smallest eigenvalue %g of the preconditioned matrix, comparable coefficients, %d unknowns" % (lo, n))
    elif p["pde"] != "elast":
        need(its <= 260, "%d CG iterations for %d unknowns, material contrast %g" % (its, n, ratio))
    need(its >= 400 or hi <= 1.1, "largest eigenvalue %g" % hi)
    if its < 400:
        # energy norm of the error: at most 1e-8 / sqrt(lo) of the solution's
        A = P.a.mat
        xd, e, q = [A.CreateColVector() for _ in range(3)]
        inv = A.Inverse(P.V.FreeDofs(), inverse="sparsecholesky")
        inv.Mult(b, xd)
        A.Mult(xd, q)
        res = np.abs(np.where(P.free, nv(q) - nv(b), 0)).max()
        nx = float(nv(xd) @ nv(q))
        need(np.all(nv(x)[~P.free] == 0), "solution on constrained unknowns")
        if res < 1e-6 and nx > 0 and (tame or p["pde"] != "elast"):
            nv(e)[:] = nv(xd) - nv(x)
            A.Mult(e, q)
            err = np.sqrt(max(float(nv(e) @ nv(q)), 0) / nx)
            bound = 1e-6 if tame else 1e-6 + 1e-7 / np.sqrt(max(lo, 1e-12))
            need(err <= bound, "solution differs from the direct one by %g in the energy norm" % err)
    cl = [p["pde"] + str(p["mesh"]["dim"]), "levels=%d" % pc.GetNLevels(), "contrast" if not tame else "comparable", "n=%d" % (10 ** int(np.log10(max(n, 1))))]
    return dict(nontrivial=n > 100 and pc.GetNLevels() > 1, classes=cl)


@st.composite
def prob(draw):
    big = int(draw(gen.ints(0, 5)) == 0)
    dim = draw(gen.choice(2, 3))
    pde = draw(gen.choice("h1", "h1v", "elast"))
    if dim == 2:
        hi = {0: 24, 1: 60}[big] if pde == "h1" else {0: 16, 1: 40}[big]
        n = [draw(gen.ints(6, hi)), draw(gen.ints(6, hi))]
    else:
        hi = {0: 8, 1: 15}[big] if pde == "h1" else {0: 6, 1: 10}[big]
        n = [draw(gen.ints(3, hi)) for _ in range(3)]
    m = dict(dim=dim, n=n, simplex=draw(st.booleans()))
    if draw(st.booleans()): m["amp"] = draw(gen.choice(0.1, 0.25)); m["jig"] = draw(gen.ints(0, 10**6))
    # elements of bounded aspect ratio
    h = [1.0 / k for k in n]
    m["scale"] = [k * draw(gen.choice(1.0, 1.0, 1.5)) for k in n]
    s = gen.SIDES[dim][:2 * dim]
    p = dict(mesh=m, pde=pde, diri=draw(st.lists(gen.choice(*s), min_size=1, max_size=3, unique=True)))
    if draw(st.booleans()):
        m["nmat"] = draw(gen.ints(2, 3))
        m["mats"] = draw(st.lists(gen.ints(0, m["nmat"] - 1), min_size=2, max_size=12))
        p["coef"] = [10.0 ** draw(gen.ints(-3, 3)) for _ in range(m["nmat"])]
    if draw(gen.ints(0, 3)) == 0:
        f = 10.0 ** draw(gen.ints(-6, 6))
        p["coef"] = [f * v for v in p.get("coef", [1.0])]
    if pde == "h1v": p["dim"] = draw(gen.choice(2, 3))
    if pde == "elast" and draw(gen.ints(0, 2)) == 0:
        p["rots"] = True
        p["compound"] = True
    return p


FL = dict(crs_alg=gen.choice("mis", "spw"), prol_type=gen.choice("aux_smoothed", "semi_aux_smoothed", "piecewise"), sm_symm=st.booleans(), sm_steps=gen.choice(1, 2),
          sm_type=gen.choice("gs", "bgs"), mg_cycle=gen.choice("V", "W"), max_coarse_size=gen.choice(5, 20), ecw_geom=st.booleans())
case = st.fixed_dictionaries(dict(prob=prob(), flags=gen.flags(groups=(FL,), maxn=4), seed=gen.seeds))
SUBS = [Sub("cg", case, run, quick=2400, thorough=40000, shards=8, rule="more than 100 unknowns and two levels", min_nontrivial=500)]
ASSUMPTIONS = ["elements of aspect ratio at most 1.5 (times the jitter of the vertices)", "elasticity with large material contrast: no iteration bound"]
