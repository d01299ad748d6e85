"""C11: aggregates are valid, and the level sizes respect the limits."""
import numpy as np
import ngsolve as ng
from ..core import Sub
from ..util import *
from .. import gen
from ..problem import Problem, make_or_refuse
from ..hier import Hier
from hypothesis import strategies as st


def pattern(M):
    """stored positions of a sparse matrix (block rows)"""
    G = np.zeros((M.height, M.width), bool)
    try:
        r, c, v = M.COO()
        G[np.asarray(r), np.asarray(c)] = True
    except Exception:
        _, col, ptr = M.CSR()
        col, ptr = np.asarray(col), np.asarray(ptr)
        for i in range(M.height): G[i, col[ptr[i]:ptr[i + 1]]] = True
    return G


def blocks(D, br, bc):
    """boolean: which br x bc blocks are non-zero"""
    n, m = D.shape
    return (D.reshape(n // br, br, m // bc, bc) != 0).any(axis=(1, 3))


def components(G, S):
    """connected components of the graph G restricted to the vertices S"""
    S = list(S)
    left, out = set(S), []
    while left:
        q = [left.pop()]; comp = set(q)
        while q:
            v = q.pop()
            for w in [w for w in left if G[v, w] or G[w, v]]:
                left.discard(w); comp.add(w); q.append(w)
        out.append(comp)
    return out


def run(c):
    P = Problem(c["prob"])
    fl = dict(c["flags"])
    fl["prol_type"] = "piecewise"
    fl.pop("prol_type_spec", None)
    try: pc = make_or_refuse(P, fl)
    except Violation:
        if fl.get("min_coarse_size", 0) > 1: raise Reject("the first coarse level would be too small")
        raise
    H = Hier(pc.GetAMGMatrix())
    n = H.n
    nv_ = P.V.mesh.nv
    spec = c["prob"]
    # vertex graph, free vertices on the finest level
    Pat = pattern(P.a.mat)
    free0 = P.free
    bs = [pc.GetNDBS(l)[1] for l in range(n)]
    if P.bs == 1 and spec.get("compound"):
        k = len(free0) // nv_
        vert = lambda D: np.stack([D[j * nv_:(j + 1) * nv_] for j in range(k)], axis=1).reshape(nv_ * k, -1)
        G = np.zeros((nv_, nv_), bool)
        for i in range(k):
            for j in range(k): G |= Pat[i * nv_:(i + 1) * nv_, j * nv_:(j + 1) * nv_]
        fb = k
    else:
        vert = lambda D: D
        fb = P.bs
        G = Pat
    fr = vert(free0.astype(float).reshape(-1, 1)).reshape(-1, fb).any(axis=1)
    mass = bool(spec.get("mass"))
    vth = "vert_thresh" in fl

    def pinned(l, v):
        """dominated by the lower order term or the constrained neighbours (only asked for with vert_thresh)"""
        if not vth: return False
        if spec["pde"] not in ("h1", "graph"): return mass or bool(spec["diri"])
        if l not in As: As[l] = H.A(l)
        r = As[l][v]
        if l == 0: r = r[free0]
        return r.sum() > 0.1 * fl["vert_thresh"] * As[l][v, v]

    As = {}
    sizes = []
    dropped = 0
    for l in range(n - 1):
        D = H.prol(l)
        if l == 0: D = vert(D)
        F = blocks(D, fb if l == 0 else bs[l], bs[l + 1])
        nf, nc = F.shape
        sizes.append(int(fr.sum()) if l == 0 else nf)
        cnt = F.sum(axis=1)
        need((cnt <= 1).all(), "level %d: vertex %d is in %d aggregates" % (l, int(np.argmax(cnt)), int(cnt.max(initial=0))))
        need(not (cnt[~fr] > 0).any(), "level %d: a constrained vertex is in an aggregate" % l)
        need((F.sum(axis=0) > 0).all(), "level %d: an aggregate is empty" % l)
        need(nc < nf, "level %d has %d vertices, the next coarser one %d" % (l, nf, nc))
        Gf = G & fr[:, None] & fr[None, :]
        np.fill_diagonal(Gf, False)
        for v in np.nonzero(fr & (cnt == 0))[0]:
            dropped += 1
            need(pinned(l, v) or not Gf[v].any(), "level %d: vertex %d is not in any aggregate although it is connected to vertex %s" % (l, v, np.nonzero(Gf[v])[0][:5]))
        for a in range(nc):
            co = components(Gf, np.nonzero(F[:, a])[0])
            need(len(co) == 1, "level %d: aggregate %d is not connected: %s" % (l, a, [sorted(int(x) for x in y)[:8] for y in co]))
        G = (F.T.astype(int) @ Gf.astype(int) @ F.astype(int)) > 0
        fr = np.ones(nc, bool)
    nl = len(fr)
    maxl, maxc = fl.get("max_levels", 10), fl.get("max_coarse_size", 50)
    need(n <= maxl, "%d levels, configured are at most %d" % (n, maxl))
    for l in range(1, n - 1):
        need(sizes[l] > maxc, "level %d has only %d vertices (maximal coarse size is %s), but was coarsened further" % (l, sizes[l], maxc))
    minc = fl.get("min_coarse_size", 0)
    need(nl >= minc, "coarsest level has %d vertices, at least %d are configured" % (nl, minc))
    np.fill_diagonal(G, False)
    stuck = n < maxl and nl > maxc
    prem = False
    if minc <= 1 and not vth and spec["pde"] in ("h1", "graph") and "edge_thresh" not in fl and n < maxl and nl > 1:
        # no vertex is pinned much, and all connections are about as strong: there is no reason not to coarsen
        A = H.A(n - 1)
        if A is not None and A.shape[0] == nl:
            w = -A[G]
            prem = (A.sum(axis=1) <= 0.1 * np.diag(A)).all() and len(w) > 0 and w.min() > 0 and w.max() <= 4 * w.min() and G.any(axis=1).all()
            need(not (stuck and prem), "coarsening stopped at %d vertices (sizes before: %s, maximal coarse size %d)" % (nl, sizes, maxc))
    return dict(nontrivial=n > 2 and nl > 0, classes=["levels=%d" % n, "stuck" if stuck else "ends at size", "dropped" if dropped else "nodrop", "must go on" if prem else "may stop"])


case, gcase = [st.fixed_dictionaries(dict(
    prob=pr,
    flags=st.builds(lambda a, b: {**a, **b}, gen.flags(groups=(gen.CRS_FLAGS,), maxn=6),
                    st.fixed_dictionaries(dict(max_coarse_size=gen.choice(1, 1, 2, 4, 9)), optional=dict(max_levels=gen.choice(2, 3, 4), min_coarse_size=gen.choice(0, 3, 6)))))) for pr in (gen.problem(lo=2, hi2=12, hi3=4, orders=(1,)), gen.graph())]
SUBS = [Sub("aggregates", case, run, quick=2400, thorough=60000, shards=8, rule="at least three levels", min_nontrivial=300),
        Sub("graph", gcase, run, quick=1500, thorough=40000, shards=8, rule="at least three levels", min_nontrivial=150)]
ASSUMPTIONS = ["at most about 170 vertices", "unsmoothed prolongation on all levels"]
