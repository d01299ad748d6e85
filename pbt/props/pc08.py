"""C08: maps between levels compose, split and concatenate consistently."""
import numpy as np
import ngsolve as ng
from ..core import Sub
from ..util import *
from .. import sp, gen
from ..problem import Problem, make_or_refuse
from ..hier import Hier
from hypothesis import strategies as st


def chain(Ps, a, b):
    """dense prolongation from level b to level a (a <= b)"""
    M = None
    for l in range(a, b): M = Ps[l] if M is None else M @ Ps[l]
    return M


def close(got, want, what, tol=1e-11, sc=None):
    got, want = np.asarray(got), np.asarray(want)
    need(got.shape == want.shape, "%s: has size %s instead of %s" % (what, got.shape, want.shape))
    s = max(np.abs(want).max(initial=0), sc or 0, 1e-300)
    d = np.abs(got - want).max(initial=0)
    need(np.isfinite(got).all() and d <= tol * s, "%s: off by %g of %g" % (what, d, s))


def transfer(mp, a, b, x, n_out):
    vi, vo = mp.CreateVector(a), mp.CreateVector(b)
    need(len(nv(vi)) == len(x) and len(nv(vo)) == n_out, "CreateVector gives the wrong length for levels %d, %d: %d %d instead of %d %d" % (a, b, len(nv(vi)), len(nv(vo)), len(x), n_out))
    nv(vi)[:] = x; nv(vo)[:] = 4.4e3
    mp.Transfer(a, vi, b, vo)
    need(np.array_equal(nv(vi), x), "Transfer changed its input")
    return nv(vo).copy()


def run(c):
    P = Problem(c["prob"])
    pc = make_or_refuse(P, c["flags"])
    amg = pc.GetAMGMatrix()
    H = Hier(amg)
    mp, n = H.map, H.n
    Ps = [H.prol(l) for l in range(n - 1)]
    Rs = [H.rest(l) for l in range(n - 1)]
    for l in range(n - 1): close(Rs[l], Ps[l].T, "restriction of step %d vs. its transposed prolongation" % l, tol=1e-13)
    rng = np.random.default_rng(c["seed"])
    concs = {}
    subs = {}
    done = set()

    def check_map(m, lv, what, a, b):
        """m: a map whose levels are the levels lv of the hierarchy"""
        need(m.GetNLevels() == len(lv), "%s has %d levels instead of %d" % (what, m.GetNLevels(), len(lv)))
        x = rng.standard_normal(H.size[lv[a]])
        got = transfer(m, a, b, x, H.size[lv[b]])
        la, lb = lv[a], lv[b]
        if a == b: want = x
        elif a < b: want = chain(Ps, la, lb).T @ x
        else: want = chain(Ps, lb, la) @ x
        close(got, want, "%s: transfer from level %d to %d" % (what, la, lb), sc=np.abs(x).max(initial=0) * 1e-3)

    def check_step(s, f, cc, what):
        fv, cv = mp.CreateVector(f), mp.CreateVector(cc)
        Pf = chain(Ps, f, cc)
        x, y = rng.standard_normal(H.size[f]), rng.standard_normal(H.size[cc])
        nv(fv)[:] = x; nv(cv)[:] = 1e3
        s.F2C(fv, cv)
        close(nv(cv), Pf.T @ x, "%s: restriction %d -> %d" % (what, f, cc), sc=1e-3)
        need(np.array_equal(nv(fv), x), "%s: restriction changed its input" % what)
        nv(cv)[:] = y; nv(fv)[:] = 1e3
        s.C2F(fv, cv)
        close(nv(fv), Pf @ y, "%s: prolongation %d -> %d" % (what, cc, f), sc=1e-3)
        need(np.array_equal(nv(cv), y), "%s: prolongation changed its input" % what)

    def matrix(f):
        """some matrix on level f, and its dense form"""
        M = P.a.mat if f == 0 else amg.GetMatrix(f)
        v = None if M is None else nv(M.AsVector()) if hasattr(M, "AsVector") else None
        if M is None or v is None or not isinstance(M, ng.BaseMatrix): return None, None
        if H.size[f] == M.height and rng.random() < 0.7:
            N = H.size[f]
            D, Pt = sp.values(N, N, 0.2, rng)
            return sp.scalar(D, Pt), D
        return M, H.A(f) if f else dense(P.a.mat)

    def project(s, f, cc, what):
        M, D = matrix(f)
        if M is None: return
        C = s.ProjectMatrix(M)
        if C is None: return        # level matrices that are not sparse (dynamic blocks)
        Pf = chain(Ps, f, cc)
        close(dense(C), Pf.T @ D @ Pf, "%s: projected matrix %d -> %d" % (what, f, cc), sc=(np.abs(Pf.T) @ np.abs(D) @ np.abs(Pf)).max(initial=1e-6))
        done.add("project")

    def conc(f, cc):
        if (f, cc) not in concs:
            concs[f, cc] = mp.ConcStep(f, cc)
        return concs[f, cc]

    for op in c["ops"]:
        t = op["t"]
        a, b = sorted((op["a"] % n, op["b"] % n))
        done.add(t)
        if t == "map":
            check_map(mp, list(range(n)), "map", *((a, b) if op["r"] else (b, a)))
        elif t == "sub":
            if a == b: continue
            if (a, b) not in subs: subs[a, b] = mp.SubMap(a, b)
            i, j = op["i"] % (b - a + 1), op["j"] % (b - a + 1)
            check_map(subs[a, b], list(range(a, b + 1)), "map of the levels %d to %d" % (a, b), i, j)
        elif t == "step":
            if a == b:
                need(mp.ConcStep(a, b) is None, "there is a step from a level to itself")
                continue
            check_step(conc(a, b), a, b, "concatenated step")
        elif t == "project":
            if a == b: continue
            project(conc(a, b), a, b, "concatenated step")
        elif t == "cc":             # concatenate two (concatenated) steps by hand
            m = a + (op["i"] % max(1, b - a))
            if not a < m < b: continue
            s = conc(a, m).Concatenate(conc(m, b))
            if s is None: continue
            check_step(s, a, b, "step %d-%d concatenated with %d-%d" % (a, m, m, b))
            project(s, a, b, "step %d-%d concatenated with %d-%d" % (a, m, m, b))
        elif t == "rebuild":        # map made of concatenated steps
            cuts = [0] + [l for l in range(1, n - 1) if op["mask"] >> l & 1] + [n - 1]
            m = None
            import NgsAMG
            m = NgsAMG.DOFMap([conc(f, cc) if op["r"] else (mp.GetStep(f) if cc == f + 1 else conc(f, cc)) for f, cc in zip(cuts[:-1], cuts[1:])])
            i, j = op["i"] % len(cuts), op["j"] % len(cuts)
            check_map(m, cuts, "map made of steps %s" % cuts, i, j)
            if len(cuts) > 2: done.add("rebuild3")
        elif t == "two":            # two-level method through a concatenated step (uses the adding variant)
            if n < 3 or b < 1: continue
            import NgsAMG
            if amg.GetMatrix(n - 1) is None: continue
            sm = amg.GetSmoother(0)
            m = NgsAMG.DOFMap([conc(0, n - 1)])
            T = NgsAMG.AMGMatrix(m, [sm], amg.GetMatrix(n - 1), amg.SubAMGMatrix(n))
            if "A0" not in concs:
                from ..hier import smoother_dense
                concs["A0"] = (H.A(0), smoother_dense(sm, H.size[0]), smoother_dense(sm, H.size[0], back=True), dense(amg.SubAMGMatrix(n)))
            A, S, SB, C = concs["A0"]
            r = rng.standard_normal(H.size[0])
            Pf = chain(Ps, 0, n - 1)
            x = S @ r
            x = x + Pf @ (C @ (Pf.T @ (r - A @ x)))
            w = x + SB @ (r - A @ x)
            close(apply(T, r), w, "two-level method with the concatenated step", tol=1e-7, sc=max(np.abs(S).max(), np.abs(C).max()))
    for l in range(n - 1):
        close(H.prol(l), Ps[l], "step %d after all operations" % l, tol=1e-15)
    return dict(nontrivial=n > 3 and len(done) > 1, classes=["levels=%d" % n] + ["op:" + d for d in done])


OP = st.fixed_dictionaries(dict(t=gen.choice("map", "map", "sub", "sub", "step", "step", "project", "cc", "cc", "rebuild", "rebuild", "two"), a=gen.ints(0, 11), b=gen.ints(0, 11),
                                i=gen.ints(0, 11), j=gen.ints(0, 11), r=st.booleans(), mask=gen.ints(0, 255)))
case = st.fixed_dictionaries(dict(
    prob=gen.problem(lo=2, hi2=11, hi3=4, orders=(1, 1, 1, 2), nodalp2=True),
    flags=st.builds(lambda a, b: {**a, **b}, gen.flags(), st.fixed_dictionaries(dict(max_coarse_size=gen.choice(1, 1, 2, 4)))),
    ops=st.lists(OP, min_size=2, max_size=14), seed=gen.seeds))
SUBS = [Sub("maps", case, run, quick=2400, thorough=50000, shards=8, rule="at least four levels and two kinds of operations", min_nontrivial=200)]
ASSUMPTIONS = ["at most about 150 vertices", "adding variants are observed through two-level methods only"]
