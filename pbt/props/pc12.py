"""C12: setup is deterministic, repeatable, leaves its inputs alone, and scales with the matrix."""
import gc
import numpy as np
import ngsolve as ng
from ..core import Sub
from ..util import *
from .. import gen, sp
from ..graphs import laplacian, free_mask, bits
from ..problem import Problem, make_or_refuse, amgflags
from . import pc14
from .pc01 import cond_ok
from hypothesis import strategies as st


def csr(M):
    v, c, p = M.CSR()
    return np.array(v.FV().NumPy() if hasattr(v, "FV") else v).reshape(-1).copy(), np.array(c).copy(), np.array(p).copy()


def freebits(P):
    if isinstance(P, pc14.Stokes): return P.free
    f = P.V.FreeDofs(P.spec.get("elim", False))
    return np.array([bool(f[i]) for i in range(P.V.ndof)])


def close(got, want, what, tol):
    s = max(np.abs(want).max(initial=0), 1e-300)
    d = np.abs(got - want).max(initial=0)
    need(np.isfinite(got).all() and d <= tol * s, "%s: differs by %g of %g" % (what, d, s))


def run_history(c):
    probs = c["probs"]
    ref = {}        # index -> dense operator
    vals = {}
    live = {}
    done = set()
    rng = np.random.default_rng(c["seed"])
    checks = 0

    def create(i):
        q = probs[i]["prob"]
        return pc14.Stokes(q) if "disc" in q else Problem(q)

    def setup(i):
        P = create(i)
        pc = P.make(probs[i]["flags"]) if isinstance(P, pc14.Stokes) else make_or_refuse(P, probs[i]["flags"])
        return P, pc

    def check(i, P, pc, what):
        nonlocal checks
        v = nv(P.a.mat.AsVector()).copy()
        B = dense(pc)
        if i in ref:
            close(v, vals[i], "%s: system matrix of problem %d" % (what, i), 1e-12)
            close(B, ref[i], "%s: operator of problem %d" % (what, i), 1e-8)
            checks += 1
        else: ref[i], vals[i] = B, v
        need(np.array_equal(nv(P.a.mat.AsVector()), v), "%s: applying the preconditioner changed the matrix" % what)

    for op in c["ops"]:
        t, i = op["t"], op["i"] % len(probs)
        done.add(t)
        if t == "setup":
            live[i] = setup(i)
            P, pc = live[i]
            # the setup leaves matrix and free unknowns alone: compare with the same problem without preconditioner
            Q = create(i); Q.a.Assemble()
            close(nv(P.a.mat.AsVector()), nv(Q.a.mat.AsVector()), "setup changed the system matrix", 1e-13)
            need(np.array_equal(freebits(P), freebits(Q)), "setup changed the free unknowns")
            check(i, *live[i], "set up")
        elif i not in live: continue
        elif t == "again":
            P, pc = live[i]
            check(i, P, pc, "applied again")
        elif t == "reassemble":
            P, pc = live[i]
            P.a.Assemble()
            check(i, P, pc, "reassembled")
        elif t == "update":
            P, pc = live[i]
            pc.Update()
            check(i, P, pc, "updated")
        elif t == "second":         # another preconditioner for the same form
            P, pc = live[i]
            Q, qc = setup(i)
            check(i, Q, qc, "second set up")
            check(i, P, pc, "old one after second set up")
        elif t == "del":
            del live[i]
            gc.collect()
        elif t == "rhs":
            P, pc = live[i]
            b, x = P.a.mat.CreateColVector(), P.a.mat.CreateColVector()
            y = rng.standard_normal(len(nv(b)))
            nv(b)[:] = y; nv(x)[:] = 5e3
            pc.Mult(b, x)
            need(np.array_equal(nv(b), y), "applying the preconditioner changed the right hand side")
            close(nv(x), ref[i] @ y, "application", 1e-8)
            x1 = nv(x).copy()
            nv(x)[:] = -7e2
            pc.Mult(b, x)
            close(nv(x), x1, "second application", 1e-13)
    return dict(nontrivial=checks > 0 and len(done) > 2, classes=["op:" + d for d in done])


def run_scale(c):
    res = []
    stokes = "disc" in c["prob"]
    # factors are even powers of two: these commute with every rounding, also that of square roots
    # neither form has a factor of exactly one: NgSolve drops it, and rounds differently
    for s in (3.0, 3.0 * 2.0 ** c["exp"]):
        P = scaled_stokes(c["prob"], s) if stokes else ScaledProblem(c["prob"], s)
        pc = P.make(c["flags"]) if stokes else make_or_refuse(P, c["flags"])
        f = P.free
        A = dense(P.a.mat)
        if not res:
            k = cond_ok(A[np.ix_(f, f)])
            if k is None: raise Reject("not spd")
        res.append((A, dense(pc), pc.GetNLevels()))
    (A0, B0, n0), (A1, B1, n1) = res
    s = 2.0 ** c["exp"]
    close(A1 / s, A0, "harness: scaled matrix", 1e-11)
    need(n0 == n1, "%d levels for the form, %d for %g times the form" % (n0, n1, s))
    close(B1 * s, B0, "operator for %g times the form" % s, 1e-6)
    return dict(nontrivial=n0 > 1 and abs(c["exp"]) > 9, classes=["exp%d" % (c["exp"] // 16 * 16), c["prob"]["disc" if stokes else "pde"], "levels=%d" % n0])


class SameMesh:
    """problems on the same space that differ in coefficients and constraints"""
    def __init__(self, prob, variants):
        self.P = []
        for v in variants:
            q = dict(prob, coef=v["coef"])
            if "diri" in v: q["diri"] = v["diri"]
            self.P.append(Problem(q, mesh=self.P[0].mesh if self.P else None))
            self.P[-1].a.Assemble()


def outcome(make, free, M):
    """preconditioner and its dense operator after a setup with this matrix and these free unknowns; None if refused"""
    try:
        pc = make()
        pc.InitLevel(free); pc.FinalizeLevel(M)
    except Exception as e:
        if "Failed to construct any coarse levels" not in str(e): raise
        return None, None
    return pc, dense(pc)


def run_resetup(c):
    """one object, set up again and again with other matrices and other free unknowns: each time as if it was the first"""
    import NgsAMG
    fl = amgflags(dict(c["flags"], rots=True) if c.get("prob", {}).get("rots") else c["flags"])
    if "prob" in c:
        S = SameMesh(c["prob"], c["variants"])
        mats = [P.a.mat for P in S.P]
        frees = [P.V.FreeDofs(c["prob"].get("elim", False)) for P in S.P]
        cls = getattr(NgsAMG, S.P[0].pcname)
        make = lambda m, f: cls(S.P[m].a, **fl)
    else:
        mats, frees = [], []
        for v in c["variants"]:
            A, d = laplacian(c["n"], v["seed"], v["kind"], v["pin"])
            fr = free_mask(dict(n=c["n"], fix=v["fix"], seed=v["seed"]), A, d)
            mats.append(sp.scalar(A)); frees.append(bits(fr))
        make = lambda m, f: NgsAMG.h1_scal(mats[m], frees[f], **fl)
    fresh = {}
    n_ok = changed = 0
    pc = None
    last = None
    for k, (m, f) in enumerate(c["steps"]):
        m, f = m % len(mats), f % len(mats)
        if frees[f].NumSet() < 2: continue
        if "prob" in c: f = m if c["own"] else f
        if (m, f) not in fresh and "prob" not in c:
            fr = np.array([bool(frees[f][i]) for i in range(c["n"])])
            if cond_ok(dense(mats[m])[np.ix_(fr, fr)]) is None: fresh[m, f] = None, None
        if (m, f) not in fresh: fresh[m, f] = outcome(lambda: make(m, f), frees[f], mats[m])
        if fresh[m, f][1] is None: continue
        _, B = outcome(lambda: pc or make(m, f), frees[f], mats[m])
        pc = pc or _
        need(B is not None, "set up of problem %s is refused for an object that was set up for %s before" % ((m, f), last))
        close(B, fresh[m, f][1], "set up with matrix %d and free unknowns %d, after %s" % (m, f, last), 1e-8)
        n_ok += 1
        changed += last is not None and last != (m, f)
        last = (m, f)
    return dict(nontrivial=changed > 0, classes=["form" if "prob" in c else "matrix", "changes=%d" % changed] + ([c["prob"]["pde"]] if "prob" in c else []))


class ScaledProblem(Problem):
    def __init__(self, spec, s):
        sp = dict(spec)
        sp["coef"] = [s * v for v in spec.get("coef", [1.0])]
        for k in ("mass", "lam"):
            if spec.get(k): sp[k] = s * spec[k]
        super().__init__(sp)


def scaled_stokes(prob, s):
    return pc14.Stokes(dict(prob, coef=[s * v for v in prob["coef"]], lam=s * prob["lam"], mass=s * prob["mass"]))


HOP = st.fixed_dictionaries(dict(t=gen.choice("setup", "setup", "again", "reassemble", "update", "second", "del", "rhs"), i=gen.ints(0, 5)))
ONE = st.fixed_dictionaries(dict(prob=gen.problem(lo=2, hi2=7, hi3=2, orders=(1, 1, 1, 2), nodalp2=True),
                                 flags=gen.flags(groups=(gen.GS_FLAGS, gen.CRS_FLAGS, gen.PROL_FLAGS, gen.CYC_FLAGS))))
hist = st.fixed_dictionaries(dict(probs=st.lists(ONE, min_size=1, max_size=3), ops=st.lists(HOP, min_size=3, max_size=10), seed=gen.seeds))


@st.composite
def scaled(draw):
    """half of the factors are large; the steps that compare with thresholds (smoothed prolongation with few entries per row, pseudo inverses) are frequent"""
    prob = draw(gen.problem(lo=2, hi2=8, hi3=3, orders=(1, 1, 1, 2)))
    fl = draw(gen.flags(groups=(gen.GS_FLAGS, gen.CRS_FLAGS, gen.PROL_FLAGS, gen.CYC_FLAGS)))
    for k, v in dict(sp_improve_its=(1, 2), sp_max_per_row=(2, 3), sp_max_per_row_classic=(1, 2), crs_robust=(True, False), regularize_cmats=(True,)).items():
        if draw(gen.ints(0, 3)) == 0: fl[k] = draw(gen.choice(*v))
    e = draw(gen.ints(0, 19)) if draw(st.booleans()) else draw(gen.ints(12, 19))
    return dict(prob=prob, flags=fl, exp=2 * (e if draw(st.booleans()) else -e))


scal = scaled()


stokes1 = lambda: pc14.stokes_spd().map(lambda t: dict(prob=t[0], flags=t[1]))
shist = st.fixed_dictionaries(dict(probs=st.lists(st.one_of(stokes1(), stokes1(), ONE), min_size=1, max_size=2), ops=st.lists(HOP, min_size=3, max_size=10), seed=gen.seeds))
sscal = st.builds(lambda p, e, neg: dict(p, exp=-2 * e if neg else 2 * e), stokes1(), st.one_of(gen.ints(0, 19), gen.ints(8, 19)), st.booleans())
STEPS = st.lists(st.tuples(gen.ints(0, 2), gen.ints(0, 2)).map(list), min_size=2, max_size=6)
FL = gen.flags(groups=(gen.GS_FLAGS, gen.CRS_FLAGS, gen.PROL_FLAGS, gen.CYC_FLAGS))
regraph = st.fixed_dictionaries(dict(n=gen.ints(4, 60), variants=st.lists(st.fixed_dictionaries(dict(seed=gen.seeds, kind=gen.choice("path", "grid", "tree", "random", "star", "parts"), pin=st.booleans(), fix=gen.choice(0.0, 0.05, 0.2, 0.5))), min_size=2, max_size=3),
                                     steps=STEPS, flags=FL))


DIRI = {2: (["left"], ["bottom"], ["left", "top"], ["right", "bottom"]), 3: (["left"], ["back"], ["left", "top"], ["right", "front"])}


@st.composite
def reform(draw):
    prob = draw(gen.problem(lo=3, hi2=7, hi3=2, orders=(1, 1, 1, 2), nodalp2=True))
    vs = []
    for k in range(draw(gen.ints(2, 3))):
        v = dict(coef=draw(st.lists(gen.choice(0.01, 0.1, 0.5, 1.0, 3.0, 100.0), min_size=1, max_size=3)))
        if draw(st.booleans()): v["diri"] = draw(gen.choice(*DIRI[prob["mesh"]["dim"]]))
        vs.append(v)
    return dict(prob=prob, variants=vs, steps=draw(STEPS), flags=draw(FL), own=True)


SUBS = [Sub("resetup", st.one_of(regraph, reform()), run_resetup, quick=900, thorough=30000, shards=8, rule="another matrix or other free unknowns for the same object", min_nontrivial=150),
        Sub("history", hist, run_history, quick=900, thorough=20000, shards=8, rule="an operator was compared and three kinds of operations", min_nontrivial=100),
        Sub("shistory", shist, run_history, quick=600, thorough=15000, shards=8, rule="an operator was compared and three kinds of operations", min_nontrivial=100),
        Sub("sscale", sscal, run_scale, quick=500, thorough=15000, shards=8, rule="two levels and a factor of at least 1000", min_nontrivial=100),
        Sub("scale", scal, run_scale, quick=1500, thorough=40000, shards=8, rule="two levels and a factor of at least 1000", min_nontrivial=200)]
ASSUMPTIONS = ["at most about 100 vertices"]
