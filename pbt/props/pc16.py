"""C16: the ways of handing a problem to the preconditioner agree; only the matrix and the free unknowns matter."""
import numpy as np
import ngsolve as ng
from ..core import Sub
from ..util import *
from .. import gen, sp
from ..graphs import laplacian, free_mask, bits
from ..problem import Problem, make_or_refuse, amgflags
from .pc01 import cond_ok
from hypothesis import strategies as st

REFUSED = "Failed to construct any coarse levels"


class Op:
    """dense operator + level sizes, or a refusal"""
    def __init__(self, make, A):
        try: pc = make()
        except Exception as e:
            if REFUSED not in str(e): raise
            self.B, self.size = None, None
            return
        self.pc = pc
        n = len(nv(A.CreateColVector()))
        x, y = A.CreateColVector(), A.CreateColVector()
        self.B = np.zeros((n, n))
        for k in range(n):
            nv(x)[:] = 0; nv(x)[k] = 1; nv(y)[:] = 3.3e3
            pc.Mult(x, y)
            self.B[:, k] = nv(y)
        m = pc.GetAMGMatrix().GetMap() if hasattr(pc, "GetAMGMatrix") else None
        self.size = [len(nv(m.CreateVector(l))) for l in range(m.GetNLevels())] if m else None


def agree(a, b, what, idx=None, tol=1e-9):
    need((a.B is None) == (b.B is None), "%s: one of the setups is refused" % what)
    if a.B is None: return
    A = a.B if idx is None else a.B[np.ix_(idx, idx)]
    d = np.abs(A - b.B).max(initial=0)
    need(np.isfinite(d) and d <= tol * max(np.abs(b.B).max(initial=0), 1e-300), "%s: operators differ by %g of %g" % (what, d, np.abs(b.B).max(initial=0)))
    if idx is None and a.size and b.size: need(a.size == b.size, "%s: level sizes %s and %s" % (what, a.size, b.size))


def coo(M, rng=None, dup=False):
    """the matrix again, from a shuffled list of entries (optionally each entry given as several exact parts)"""
    i, j, v = [np.array(x) for x in M.COO()]
    v = np.array(v, float)
    if dup:
        w = rng.integers(0, 3, len(v))
        h = np.where(w > 0, v / 2, v)
        i, j, v = np.concatenate([i, i[w > 0]]), np.concatenate([j, j[w > 0]]), np.concatenate([h, v[w > 0] / 2])
    if rng is not None:
        p = rng.permutation(len(i))
        i, j, v = i[p], j[p], v[p]
    return ng.la.SparseMatrixd.CreateFromCOO([int(x) for x in i], [int(x) for x in j], [float(x) for x in v], M.height, M.width)


def run_ways(c):
    import NgsAMG
    prob, flags = c["prob"], dict(c["flags"])
    P = Problem(prob)
    base = amgflags(dict(flags, rots=True) if prob.get("rots") else flags)
    cls = getattr(NgsAMG, P.pcname)
    elim = prob.get("elim", False)
    P.a.Assemble()
    fd = lambda Q: Q.V.FreeDofs(elim)
    def assembled():
        Q = Problem(prob, mesh=P.mesh)
        pc = cls(Q.a, **base); Q.a.Assemble()
        return Q, pc
    Q0 = Problem(prob, mesh=P.mesh)
    def m0():
        pc = cls(Q0.a, **base); Q0.a.Assemble(); return pc
    ref = Op(m0, P.a.mat)
    need(np.array_equal(nv(Q0.a.mat.AsVector()), nv(P.a.mat.AsVector())), "assembly with preconditioner gives another matrix")
    n_ok = 0
    for w in c["ways"]:
        Q = Problem(prob, mesh=P.mesh)
        if w == "registry":
            pc = ng.Preconditioner(Q.a, "NgsAMG." + P.pcname, **base)
            def mk():
                Q.a.Assemble(); return pc
        elif w == "reassembled":
            if ref.B is None: continue
            pc = cls(Q.a, **base); Q.a.Assemble()
            def mk():
                Q.a.Assemble(); return pc
        elif w == "two-step":
            if flags.get("energy") == "elmat": continue      # no element matrices are seen
            Q.a.Assemble()
            pc = cls(Q.a, **base)
            def mk():
                pc.InitLevel(fd(Q)); pc.FinalizeLevel(Q.a.mat); return pc
        elif w == "two-step default":
            if flags.get("energy") == "elmat" or flags.get("on_dofs") == "select": continue
            Q.a.Assemble()
            pc = cls(Q.a, **base)
            def mk():
                pc.InitLevel(); pc.FinalizeLevel(); return pc
        elif w == "two-step again":      # after the automatic setup, with a matrix of other values before the right one
            if flags.get("energy") == "elmat" or ref.B is None: continue
            pc = cls(Q.a, **base); Q.a.Assemble()
            v = nv(Q.a.mat.AsVector()); keep = v.copy()
            v[:] = 3 * keep
            try: pc.InitLevel(fd(Q)); pc.FinalizeLevel(Q.a.mat)
            except Exception as e:
                if REFUSED not in str(e): raise
            v[:] = keep
            def mk():
                pc.InitLevel(fd(Q)); pc.FinalizeLevel(Q.a.mat); return pc
        else:                            # "matrix", "entries", "entries twice"
            if P.pcname.startswith("elast") or prob.get("compound") or elim: continue
            if flags.get("energy") == "elmat" or flags.get("subset") == "nodalp2" or "lo" in flags: continue
            Q.a.Assemble()
            M = Q.a.mat
            if w != "matrix":
                if P.bs != 1: continue
                M = coo(M, np.random.default_rng(c["seed"]), w == "entries twice")
            nd = P.V.ndof
            fl = dict(base)
            if prob.get("order", 1) > 1 and flags.get("on_dofs") != "select": fl["ngs_amg_lower"], fl["ngs_amg_upper"] = 0, P.mesh.nv
            if prob["mesh"]["dim"] == 2: fl.setdefault("ngs_amg_sp_min_frac", 0.15)     # the library assumes three space dimensions without a mesh
            # same library defaults, whatever the source of the problem
            r = Op(lambda: assembled2(cls, prob, P, fl), P.a.mat) if fl != base else ref
            def mk(): return cls(M, fd(Q), **fl)
            agree(Op(mk, M), r, w); n_ok += 1
            continue
        agree(Op(mk, P.a.mat), ref, w); n_ok += 1
    if ref.B is None: raise Reject("refused")
    return dict(nontrivial=n_ok > 1 and len(ref.size) > 2, classes=["ways=%d" % n_ok, prob["pde"], "energy=%s" % flags.get("energy")] + ["w:" + w for w in c["ways"]])


def assembled2(cls, prob, P, fl):
    Q = Problem(prob, mesh=P.mesh)
    pc = cls(Q.a, **fl); Q.a.Assemble()
    pc.keep = Q
    return pc


def run_graph(c):
    import NgsAMG
    n = c["n"]
    rng = np.random.default_rng(c["seed"] + 1)
    A, d = laplacian(n, c["seed"], c["kind"], c["pin"])
    free = free_mask(c, A, d)
    if free.sum() < 2: raise Reject("nothing free")
    flags = dict(c["flags"])
    fl = amgflags(flags)
    def mk(D, fr, order=None, nofree=False):
        if order is None: M = sp.scalar(D)
        else:
            i, j = np.nonzero(D)
            p = order.permutation(len(i)); i, j = i[p], j[p]
            M = ng.la.SparseMatrixd.CreateFromCOO([int(x) for x in i], [int(x) for x in j], [float(x) for x in D[i, j]], *D.shape)
        return Op(lambda: NgsAMG.h1_scal(M, **fl) if nofree else NgsAMG.h1_scal(M, bits(fr), **fl), M)
    ref = mk(A, free)
    if ref.B is None: raise Reject("refused")
    need(not ref.B[~free].any() and not ref.B[:, ~free].any(), "constrained unknowns are not ignored")
    agree(mk(A, free, order=rng), ref, "entries in another order")
    if free.all(): agree(mk(A, free, nofree=True), ref, "all unknowns free / no information about free unknowns")
    # one object, first set up for other free unknowns, equally many or not
    first = free[rng.permutation(n)] if c["seed"] % 2 else free & (rng.random(n) > 0.2)
    if first.sum() > 1 and cond_ok(A[np.ix_(first, first)]) is not None:
        M = sp.scalar(A)
        try: pc = NgsAMG.h1_scal(M, bits(first), **fl)
        except Exception as e:
            if REFUSED not in str(e): raise
            pc = None
        def again():
            pc.InitLevel(bits(free)); pc.FinalizeLevel(M)
            return pc
        if pc is not None: agree(Op(again, M), ref, "set up before for other free unknowns")
    # rows of constrained unknowns: only the connection to free ones matters
    C = A.copy()
    ci = np.nonzero(~free)[0]
    for i in ci:
        C[i, i] *= float(rng.integers(1, 5))
    # unknowns that are constrained and connected to nothing
    k = c["extra"]
    N = n + k
    where = np.sort(rng.permutation(N)[:n])
    E = np.zeros((N, N)); E[np.ix_(where, where)] = A
    fr = np.zeros(N, bool); fr[where] = free
    for i in set(range(N)) - set(where.tolist()): E[i, i] = 1.0
    g = mk(E, fr)
    agree(g, ref, "additional constrained unknowns without connection", idx=where)
    cl = [c["kind"], "levels=%d" % len(ref.size)]
    return dict(nontrivial=len(ref.size) > 2, classes=cl)


def run_union(c):
    """two copies of the same system, numbers interleaved"""
    import NgsAMG
    n = c["n"]
    rng = np.random.default_rng(c["seed"] + 1)
    A, d = laplacian(n, c["seed"], c["kind"], c["pin"])
    free = free_mask(c, A, d)
    if free.sum() < 2: raise Reject("nothing free")
    fl = amgflags(dict(c["flags"], max_coarse_size=1))
    fl2 = amgflags(dict(c["flags"], max_coarse_size=2))
    M = sp.scalar(A)
    ref = Op(lambda: NgsAMG.h1_scal(M, bits(free), **fl), M)
    if ref.B is None: raise Reject("refused")
    own = np.concatenate([np.zeros(n, int), np.ones(n, int)])
    if c["inter"] == "alternate": own = np.arange(2 * n) % 2
    elif c["inter"] == "random": own = own[rng.permutation(2 * n)]
    i0, i1 = np.nonzero(own == 0)[0], np.nonzero(own == 1)[0]
    D = np.zeros((2 * n, 2 * n)); fr = np.zeros(2 * n, bool)
    for i in (i0, i1):
        D[np.ix_(i, i)] = A; fr[i] = free
    M2 = sp.scalar(D)
    g = Op(lambda: NgsAMG.h1_scal(M2, bits(fr), **fl2), M2)
    need(g.B is not None, "two copies of an accepted system are refused")
    need(g.size == [2 * s for s in ref.size], "level sizes %s for two copies of a system with level sizes %s" % (g.size, ref.size))
    s = np.abs(ref.B).max()
    need(np.abs(g.B[np.ix_(i0, i1)]).max() <= 1e-12 * s, "systems without connection influence each other")
    agree(g, ref, "first of two copies", idx=i0)
    agree(g, ref, "second of two copies", idx=i1)
    return dict(nontrivial=len(ref.size) > 2, classes=[c["kind"], c["inter"], "levels=%d" % len(ref.size)])


WAYS = ("registry", "reassembled", "two-step", "two-step default", "two-step again", "matrix", "entries", "entries twice")


@st.composite
def ways_case(draw):
    prob = draw(gen.problem(lo=2, hi2=8, hi3=3, orders=(1, 1, 1, 2), span=3, nodalp2=True, elim=True, pdes=("h1", "h1", "h1v", "elast")))
    fl = draw(gen.flags((gen.GS_FLAGS, gen.CRS_FLAGS, gen.PROL_FLAGS, gen.CYC_FLAGS), 4))
    if prob["pde"] == "h1": e = draw(gen.choice(None, None, "triv", "alg", "elmat"))
    else: e = draw(gen.choice(None, None, "alg", "triv")) if prob["pde"] == "h1v" else draw(gen.choice(None, None, "alg"))
    if e: fl["energy"] = e
    return dict(prob=prob, flags=fl, ways=draw(st.lists(gen.choice(*WAYS), min_size=3, max_size=5, unique=True)), seed=draw(gen.seeds))


def graph_case(**kw):
    return st.fixed_dictionaries(dict(n=gen.ints(2, 60), seed=gen.seeds, kind=gen.choice("path", "grid", "tree", "random", "star", "parts"), pin=st.booleans(), fix=gen.choice(0.0, 0.05, 0.2, 0.5),
                                      flags=gen.flags((gen.GS_FLAGS, gen.CRS_FLAGS, gen.PROL_FLAGS, gen.CYC_FLAGS), 3), **kw))


SUBS = [Sub("ways", ways_case(), run_ways, quick=900, thorough=30000, shards=8, rule="three levels, at least two other ways", min_nontrivial=150),
        Sub("graph", graph_case(extra=gen.ints(0, 8)), run_graph, quick=1200, thorough=40000, shards=8, rule="three levels", min_nontrivial=150),
        Sub("union", graph_case(inter=gen.choice("after", "alternate", "random")), run_union, quick=600, thorough=20000, shards=8, rule="three levels", min_nontrivial=80)]
ASSUMPTIONS = ["serial", "matrix interfaces: H1 only (there is no other), at most 70 unknowns"]
