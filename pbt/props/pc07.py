"""C07: smoothers built from others act like their parts, one after the other."""
import numpy as np
import ngsolve as ng
from ..core import Sub
from ..util import *
from .. import sp, gen
from ..problem import Problem, make_or_refuse
from ..hier import Hier, smoother_dense
from .pc06 import drive, bits, dofs_of, OPS, draw_free, base
from hypothesis import strategies as st


# every node is (smoother object, once(x, b, back)) -- once is the reference for one step
def sweep_ref(A, steps):
    def once(x, b, back):
        x = x.copy()
        for d, Di in (reversed(steps) if back else steps):
            x[d] += Di @ (b[d] - A[d] @ x)
        return x
    return once


def gs_leaf(M, A, bs, n, fr, fac=None):
    import NgsAMG
    steps = [(dofs_of([k], bs), np.linalg.inv(A[k * bs:(k + 1) * bs, k * bs:(k + 1) * bs])) for k in range(n) if fr is None or fr[k]]
    sm = NgsAMG.CreateHybridGSS(M, None if fr is None else bits(fr), **(fac or {}))
    return sm, sweep_ref(A, steps)


def block_leaf(M, A, bs, n, rng, fac=None):
    import NgsAMG
    nb = max(1, int(rng.integers(1, n + 1)))
    lab = rng.integers(0, nb, n)
    blocks = [[int(x) for x in np.nonzero(lab == k)[0]] for k in range(nb)]
    blocks = [b for b in blocks if b]
    sm = NgsAMG.CreateHybridBlockGSS(M, blocks, **(fac or {}))
    return sm, sweep_ref(A, [(dofs_of(b, bs), np.linalg.inv(A[np.ix_(dofs_of(b, bs), dofs_of(b, bs))])) for b in blocks])


def rich(A, C, om):
    return lambda x, b, back: x + om * (C @ (b - A @ x))


def jac_leaf(M, A, bs, n, fr):
    import NgsAMG
    C = np.zeros_like(A)
    for k in range(n):
        if fr is None or fr[k]:
            d = dofs_of([k], bs)
            C[np.ix_(d, d)] = np.linalg.inv(A[np.ix_(d, d)])
    return NgsAMG.CreateJacobiSmoother(M, None if fr is None else bits(fr)), rich(A, C, 0.9)


def dis_leaf(M, A, bs, n, fr, fac=None):
    import NgsAMG
    C = np.zeros_like(A)
    d = dofs_of([k for k in range(n) if fr is None or fr[k]], bs)
    if len(d) == 0: raise Reject("NgSolve's direct solver without unknowns")
    C[np.ix_(d, d)] = np.linalg.inv(A[np.ix_(d, d)])
    return NgsAMG.CreateHybridDISmoother(M, None if fr is None else bits(fr), **(fac or {})), rich(A, C, 1.0)


def repeat(once, k, symm):
    """k steps; symmetric: every step is a forward and a backward one, in both directions"""
    def f(x, b, back):
        for _ in range(k):
            if symm: x = once(once(x, b, False), b, True)
            else: x = once(x, b, back)
        return x
    return f


def node(spec, M, A, bs, n, fr, rng):
    import NgsAMG
    t = spec["t"]
    if t == "proxy":
        sm, once = node(spec["sub"], M, A, bs, n, fr, rng)
        k, s = spec["k"], spec["symm"]
        return NgsAMG.ProxySmoother(sm, k, s), repeat(once, k, s)
    fac = {}
    k, s = spec.get("k", 1), spec.get("symm", False)
    if t in ("gs", "bgs", "dis") and spec.get("fac"): fac = dict(symm=s, nsteps=k)
    else: k, s = 1, False
    if t == "gs": sm, once = gs_leaf(M, A, bs, n, fr, fac)
    elif t == "bgs": sm, once = block_leaf(M, A, bs, n, rng, fac)
    elif t == "jac": sm, once = jac_leaf(M, A, bs, n, fr)
    elif t == "dis": sm, once = dis_leaf(M, A, bs, n, fr, fac)
    elif t == "hipt": return hipt_node(spec, M, A, n, fr, rng)
    return sm, repeat(once, k, s)


def hipt_node(spec, M, A, n, fr, rng):
    """first the potential space, then the range space (backwards: the other way round)"""
    import NgsAMG
    m = spec["m"]
    D = sp.values(n, m, 0.4, rng)[0]
    if fr is not None: D[~fr] = 0
    if spec["indep"]:           # the matrix used in the potential space does not have to be the projected one
        P = sp.pattern(m, m, 0.4, rng); P = P | P.T; np.fill_diagonal(P, True)
        Ap = sp.spd_on(P, rng)
    else:
        Ap = D.T @ A @ D
        Ap += np.diag(np.where(np.diag(Ap) > 1e-10, 0, 1.0)) + 1e-2 * np.abs(Ap).max(initial=0) * np.eye(m)
    MD, MDT, MP = sp.scalar(D), sp.scalar(D.T.copy()), sp.scalar(Ap, np.eye(m, dtype=bool))
    pot, ponce = node(spec["pot"], MP, Ap, 1, m, None, rng)
    rng_sm, ronce = node(spec["rng"], M, A, 1, n, fr, rng)
    args = [pot, rng_sm, MP, M, MD] + ([MDT] if spec["dt"] else [])
    sm = NgsAMG.HiptMairSmoother(*args)

    def once(x, b, back):
        pc = lambda x: x + D @ ponce(np.zeros(m), D.T @ (b - A @ x), back)
        if back: return pc(ronce(x, b, True))
        return ronce(pc(x), b, False)
    return sm, once


def run(c):
    rng = np.random.default_rng(c["seed"])
    from .pc06 import system
    M, A, bs, n, keep = system(dict(c, sing=False), rng)
    if c["t"]["t"] == "hipt" or (c["t"]["t"] == "proxy" and has_hipt(c["t"])):
        if bs != 1: raise Reject("scalar only")
    fr = draw_free(c, n, rng)
    if not uses_free(c["t"]): fr = None
    sm, once = node(c["t"], M, A, bs, n, fr, rng)

    def ref(k, x, b, back):
        for _ in range(k): x = once(x, b, back)
        return x
    N = A.shape[0]
    T = [np.stack([once(np.zeros(N), e, bool(k)) for e in np.eye(N)], axis=1) for k in (0, 1)]
    # error propagation: values can grow if the composition is no contraction (e.g. Jacobi), tolerance follows
    E = np.eye(N) - T[0] @ A
    g = max(1.0, np.linalg.norm(E, 2)) ** 3
    if not np.isfinite(g) or g > 1e6: raise Reject("strongly divergent")
    con = np.zeros(0, int) if fr is None else dofs_of(np.nonzero(~fr)[0], bs)
    drive(sm, A, ref, c["ops"], rng, con, label(c["t"]), tol=(1e-7 if c["scale"] else 1e-9) * g)
    # linear operator of one step from zero; adjointness
    S = smoother_dense(sm, N)
    SB = smoother_dense(sm, N, back=True)
    tl = (1e-7 if c["scale"] else 1e-9) * g
    need(relerr(S, T[0]) < tl and relerr(SB, T[1]) < tl, "%s: operator of one step is not that of its parts" % label(c["t"]))
    need(relerr(SB, S.T) < tl, "%s: backward step is not the adjoint of the forward step" % label(c["t"]))
    if c["t"]["t"] == "proxy" and c["t"]["symm"]:
        need(relerr(S, S.T) < tl, "symmetric smoother is not self-adjoint")
    return dict(nontrivial=c["t"]["t"] in ("proxy", "hipt") or bool(c["t"].get("fac")), classes=["bs%d" % bs, label(c["t"])])


def label(t):
    if t["t"] == "proxy": return "proxy(%s)" % label(t["sub"])
    if t["t"] == "hipt": return "hipt(%s,%s)" % (label(t["pot"]), label(t["rng"]))
    return t["t"]


def has_hipt(t): return t["t"] == "hipt" or (t["t"] == "proxy" and has_hipt(t["sub"]))


def uses_free(t):
    if t["t"] == "proxy": return uses_free(t["sub"])
    if t["t"] == "hipt": return uses_free(t["rng"])
    return t["t"] != "bgs"


fixed = st.fixed_dictionaries
leaf = fixed(dict(t=gen.choice("gs", "gs", "bgs", "jac", "dis"), fac=st.booleans(), k=gen.ints(1, 3), symm=st.booleans()))
prox = fixed(dict(t=st.just("proxy"), sub=leaf, k=gen.ints(1, 3), symm=st.booleans()))
prox2 = fixed(dict(t=st.just("proxy"), sub=prox, k=gen.ints(1, 2), symm=st.booleans()))
hip = fixed(dict(t=st.just("hipt"), m=gen.ints(1, 7), pot=st.one_of(leaf, prox), rng=st.one_of(leaf, prox), indep=st.booleans(), dt=st.booleans()))
hip2 = fixed(dict(t=st.just("hipt"), m=gen.ints(1, 7), pot=hip, rng=st.one_of(leaf, hip), indep=st.booleans(), dt=st.booleans()))
phip = fixed(dict(t=st.just("proxy"), sub=hip, k=gen.ints(1, 3), symm=st.booleans()))
tree = fixed(dict(base, free=gen.choice("none", "most", "half", "all"), t=st.one_of(leaf, prox, prox2)))
htree = fixed(dict(base, bs=st.just(1), free=gen.choice("none", "most", "half", "all"), t=st.one_of(hip, hip, phip, hip2)))


# ---------------------------------------------------------------- multi-step / symmetric level smoothers, multigrid as smoother
STEP = dict(sm_steps=gen.choice(1, 2, 3), sm_symm=st.booleans())


def run_level(c):
    """sm_steps / sm_symm: the smoother of every level is that many (symmetric) steps of the plain one"""
    P1, P2 = Problem(c["prob"]), Problem(c["prob"])
    k, s = c["k"], c["symm"]
    a1 = make_or_refuse(P1, dict(c["flags"], sm_steps=k, sm_symm=s)).GetAMGMatrix()
    a2 = make_or_refuse(P2, dict(c["flags"], sm_steps=1, sm_symm=False)).GetAMGMatrix()
    H1, H2 = Hier(a1), Hier(a2)
    need(H1.size == H2.size, "number of smoothing steps changes the levels: %s %s" % (H1.size, H2.size))
    rng = np.random.default_rng(c["seed"])
    for l in range(H1.n - 1):
        A = H1.A(l)
        need(relerr(A, H2.A(l)) < 1e-10, "number of smoothing steps changes the level matrices")
        S, SB = smoother_dense(a2.GetSmoother(l), len(A)), smoother_dense(a2.GetSmoother(l), len(A), back=True)
        sc = max(1.0, np.abs(S).max() * np.abs(A).max())
        if not np.isfinite(sc) or sc > 1e6: raise Reject("badly scaled")
        once = repeat(lambda x, b, back: x + (SB if back else S) @ (b - A @ x), k, s)

        def ref(kk, x, b, back):
            for _ in range(kk): x = once(x, b, back)
            return x
        drive(a1.GetSmoother(l), A, ref, c["ops"], rng, np.zeros(0, int), "level %d of %d, %d %s steps" % (l, H1.n, k, "symmetric" if s else "plain"), tol=1e-10 * max(sc, 10))
    return dict(nontrivial=H1.n > 2 and (k > 1 or s), classes=["levels=%d" % H1.n, "k%d" % k + ("s" if s else ""), c["flags"].get("sm_type", "default")])


F = dict(gen.GS_FLAGS)
for q in ("sm_steps", "sm_symm", "sm_steps_spec", "sm_symm_spec"): F.pop(q)
level = fixed(dict(prob=gen.problem(lo=2, hi2=11, hi3=3), flags=gen.flags(groups=(F,), maxn=4), k=gen.ints(1, 4), symm=st.booleans(), seed=gen.seeds, ops=OPS))

SUBS = [
    Sub("tree", tree, run, quick=3000, thorough=60000, shards=8, rule="nested repeated/symmetric smoother, or several steps", min_nontrivial=300),
    Sub("hipt", htree, run, quick=3000, thorough=60000, shards=8, rule="every case (potential and range smoother)", min_nontrivial=300),
    Sub("level", level, run_level, quick=600, thorough=20000, shards=8, rule="at least three levels and several or symmetric steps", min_nontrivial=50),
]
ASSUMPTIONS = ["matrices of at most 14 (block) rows; hierarchies of at most 100 vertices", "smoothers of a multigrid hierarchy used as smoothers are decided by C05 (operator from level l)"]
