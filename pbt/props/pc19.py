"""C19: queries on the hierarchy report what the operator uses."""
import numpy as np
import ngsolve as ng
from ..core import Sub
from ..util import *
from .. import gen
from ..hier import Hier
from .pc14 import setup_any, stokes_spd
from hypothesis import strategies as st


def close(got, want, what, tol=1e-11, sc=0):
    got, want = np.asarray(got), np.asarray(want)
    need(got.shape == want.shape, "%s: has size %s instead of %s" % (what, got.shape, want.shape))
    s = max(np.abs(want).max(initial=0), sc, 1e-300)
    d = np.abs(got - want).max(initial=0)
    need(np.isfinite(got).all() and d <= tol * s, "%s: off by %g of %g" % (what, d, s))


def run(c):
    P, pc = setup_any(c["prob"], c["flags"])
    amg = pc.GetAMGMatrix()
    H = Hier(amg)
    n = H.n
    Ps = [H.prol(l) for l in range(n - 1)]
    N0 = len(P.free)
    need(H.size[0] == N0, "level 0 has %d unknowns, the space %d" % (H.size[0], N0))
    chain = [np.eye(N0)]
    for Q in Ps: chain.append(chain[-1] @ Q)
    rng = np.random.default_rng(c["seed"])
    bss = []
    done = set()

    def sizes(l):
        nd, bs = pc.GetNDBS(l)
        need(nd * bs == H.size[l], "level %d: %d unknowns of block size %d reported, vectors have %d entries" % (l, nd, bs, H.size[l]))
        need(pc.GetNDof(l) == nd and pc.GetBlockSize(l) == bs, "level %d: GetNDBS gives %s, GetNDof/GetBlockSize %s" % (l, (nd, bs), (pc.GetNDof(l), pc.GetBlockSize(l))))
        return nd, bs

    def bf(l, d, k):
        v = P.a.mat.CreateColVector()
        nv(v)[:] = 3.1e3
        pc.GetBF(v, l, d, k)
        return nv(v).copy()

    nl = pc.GetNLevels()
    need(nl == n and amg.GetNLevels() == n, "%d levels reported, the grid transfers have %d" % (nl, n))
    need(len(nv(P.a.mat.CreateColVector())) == N0 and amg.height == P.a.mat.height, "operator has height %d, the matrix %d" % (amg.height, P.a.mat.height))
    Cd = None
    x0 = rng.standard_normal(N0)
    y0 = apply(pc.mat, x0)
    for op in c["ops"]:
        t, l = op["t"], op["l"] % n
        done.add(t)
        if t == "meta":
            need(pc.GetNLevels() == n, "number of levels changed to %d" % pc.GetNLevels())
            need(pc.GetNProcs(l) == 1, "%d processes reported on level %d" % (pc.GetNProcs(l), l))
            nd, bs = sizes(l)
            M = amg.GetMatrix(l)
            if M is not None: need(M.height * (len(nv(M.CreateColVector())) // max(1, M.height) if M.height else 1) == H.size[l], "matrix of level %d has height %d" % (l, M.height))
            s = pc.GetSmoother(l)
            need((s is not None) == (l < n - 1), "smoother on level %d of %d: %s" % (l, n, s))
            need(pc.GetSmoother(n - 1 + op["i"] % 3) is None, "there is a smoother on the coarsest level or behind it")
            need(pc.GetMap().GetNLevels() == n, "GetMap has %d levels" % pc.GetMap().GetNLevels())
        elif t == "bf":
            nd, bs = sizes(l)
            if nd == 0: continue
            d, k = op["i"] % nd, op["k"] % bs
            close(bf(l, d, k), chain[l][:, d * bs + k], "basis function %d.%d of level %d" % (d, k, l), sc=1e-3)
        elif t == "bfall":
            nd, bs = sizes(l)
            F = np.array([bf(l, d, k) for d in range(nd) for k in range(bs)]).T.reshape(N0, nd * bs)
            close(F, chain[l], "basis functions of level %d" % l, sc=1e-3)
        elif t == "bfbad":
            nd, bs = sizes(l)
            d, k, r, ll = op["i"] % max(nd, 1), op["k"] % bs, 0, l
            w = op["bad"]
            if w == "dof": d = nd + [0, 1, 1000][op["i"] % 3]
            if w == "comp": k = bs + [0, 1, 7][op["i"] % 3]
            if w == "compneg": k = -1
            if w == "rank": r = 1 + op["i"] % 2
            if w == "rankneg": r = -1
            if w == "level": ll = n + op["i"] % 3
            if w == "levelneg": ll = -1
            v = P.a.mat.CreateColVector(); nv(v)[:] = 3.1e3
            try:
                pc.GetBF(v, ll, d, k, r)
                need(not nv(v).any() or (nv(v) == 3.1e3).all(), "basis function %d.%d of level %d rank %d does not exist, but something was delivered" % (d, k, ll, r))
            except Exception as e:
                if isinstance(e, Violation): raise
            if w == "level": need(pc.GetNDof(ll) == 0, "level %d does not exist but has unknowns" % ll)
            if w == "rank": need(pc.GetNDof(l, r) == 0, "rank %d does not exist but has unknowns" % r)
            for j in range(n): sizes(j)
        elif t == "cinv":
            if c["flags"].get("clev", "inv") != "inv": continue
            if Cd is None: Cd = dense(amg.SubAMGMatrix(n))
            b = rng.standard_normal(N0)
            bv, xv = P.a.mat.CreateColVector(), P.a.mat.CreateColVector()
            nv(bv)[:] = b; nv(xv)[:] = 5.1e3
            pc.CINV(xv, bv)
            need(np.array_equal(nv(bv), b), "CINV changed the right hand side")
            R = chain[-1]
            close(nv(xv), R @ (Cd @ (R.T @ b)), "coarse grid correction", tol=1e-9, sc=np.abs(Cd).max(initial=0) * np.abs(b).max())
            if n > 2: done.add("cinv3")
        elif t == "apply":
            need(np.array_equal(apply(pc.mat, x0), y0), "queries changed the operator")
    need(np.array_equal(apply(pc.mat, x0), y0), "queries changed the operator")
    for l in range(n - 1):
        need(np.array_equal(H.prol(l), Ps[l]), "queries changed the grid transfer %d" % l)
    return dict(nontrivial=n > 2 and len(done) > 1, classes=["levels=%d" % n] + ["op:" + d for d in done])


OP = st.fixed_dictionaries(dict(t=gen.choice("bf", "bf", "bfall", "bfbad", "bfbad", "cinv", "meta", "apply"), l=gen.ints(0, 11), i=gen.ints(0, 400), k=gen.ints(0, 5),
                                bad=gen.choice("dof", "comp", "compneg", "rank", "rankneg", "level", "levelneg")))
case, gcase = [st.fixed_dictionaries(dict(
    prob=pr,
    flags=st.builds(lambda a, b: {**a, **b}, gen.flags(groups=(gen.GS_FLAGS, gen.CRS_FLAGS, gen.PROL_FLAGS, gen.CYC_FLAGS)), st.fixed_dictionaries(dict(max_coarse_size=gen.choice(1, 1, 2, 4)))),
    ops=st.lists(OP, min_size=2, max_size=12), seed=gen.seeds)) for pr in (gen.problem(lo=2, hi2=9, hi3=3, orders=(1, 1, 1, 2), nodalp2=True), gen.graph(hi=40))]
@st.composite
def scase(draw):
    prob, fl = draw(stokes_spd())
    for k in ("mg_cycle", "clev"): fl[k] = draw(gen.CYC_FLAGS[k])
    if draw(st.booleans()): fl["max_coarse_size"] = draw(gen.choice(1, 1, 2, 4))
    return dict(prob=prob, flags=fl, ops=draw(st.lists(OP, min_size=2, max_size=12)), seed=draw(gen.seeds))


SUBS = [Sub("queries", case, run, quick=2000, thorough=40000, shards=8, rule="at least three levels and two kinds of queries", min_nontrivial=200),
        Sub("graph", gcase, run, quick=700, thorough=20000, shards=8, rule="at least three levels and two kinds of queries", min_nontrivial=60),
        Sub("stokes", scase(), run, quick=700, thorough=20000, shards=8, rule="at least three levels and two kinds of queries", min_nontrivial=60)]
ASSUMPTIONS = ["at most about 120 vertices"]
