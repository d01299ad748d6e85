"""C13: higher-order, compound, multi-component and condensed spaces: definite everywhere, coarse space made of the selected functions only."""
import numpy as np
import ngsolve as ng
from ..core import Sub
from ..util import *
from .. import gen
from ..hier import Hier
from ..problem import Problem, make_or_refuse, amgflags
from .pc01 import cond_ok
from hypothesis import strategies as st


# ------------------------------------------------------------------ which unknown is what
def compound(V):
    try: return len(V.components) > 0
    except Exception: return False


def leaves(V, off=0):
    if compound(V):
        r = []
        for W in V.components:
            r += leaves(W, off)
            off += W.ndof
        return r
    return [(V, off)]


class Layout:
    """scalar index of every component of every vertex / edge function"""
    def __init__(self, V, mesh):
        bs = 1 if compound(V) else V.dim
        L = leaves(V)
        v, e = [], []
        for W, off in L:
            for k in range(bs):
                v.append([(W.GetDofNrs(ng.NodeId(ng.VERTEX, i))[0] + off) * bs + k for i in range(mesh.nv)])
                d = [W.GetDofNrs(ng.NodeId(ng.EDGE, i)) for i in range(mesh.nedge)]
                e.append([(x[0] + off) * bs + k if len(x) else -1 for x in d])
        self.v = np.array(v).T          # vertex x component
        self.e = np.array(e).T if mesh.nedge else np.zeros((0, len(v)), int)
        self.n = V.ndof * bs


def modes(P, L, mask):
    """kernel vectors on the selected unknowns (zero elsewhere); None where the value is not defined"""
    mesh, spec = P.mesh, P.spec
    d = mesh.dim
    X = np.array([list(v.point) for v in mesh.vertices])
    mid = np.array([0.5 * (X[e.vertices[0].nr] + X[e.vertices[1].nr]) for e in mesh.edges]) if len(L.e) else np.zeros((0, d))
    c = X.mean(axis=0); X = X - c; mid = mid - c
    nc = L.v.shape[1]
    K = []
    def put(f):
        m = np.zeros(L.n)
        m[L.v] = f(X)
        g = f(mid)
        ok = L.e >= 0
        m[L.e[ok]] = g[ok]
        K.append(np.where(mask, m, 0))
    if spec["pde"] in ("h1", "h1v"):
        for k in range(nc): put(lambda Y, k=k: np.eye(nc)[k][None, :].repeat(len(Y), 0))
        return np.array(K).T
    for k in range(d): put(lambda Y, k=k: np.eye(nc)[k][None, :].repeat(len(Y), 0))
    for k in range(d * (d - 1) // 2):
        def rot(Y, k=k):
            m = np.zeros((len(Y), nc))
            if d == 2: m[:, 0], m[:, 1] = -Y[:, 1], Y[:, 0]
            else: m[:, :3] = np.cross(np.eye(3)[k][None, :], Y)
            if nc > d: m[:, d + k] = 1
            return m
        put(rot)
    return np.array(K).T


def selection(c, P, L):
    """flags that select a subset, mask of the unknowns in it; None if this selection does not exist for the space"""
    spec, sel = P.spec, c["sel"]
    d, order = P.mesh.dim, spec.get("order", 1)
    nod = spec.get("nodalp2") and order > 1
    multi = len(leaves(P.V)) > 1
    vm = np.zeros(L.n, bool); vm[L.v] = True
    em = vm.copy()
    ok = L.e >= 0
    em[L.e[ok]] = True
    if sel == "default": return {}, vm
    if sel == "default lo": return dict(lo=True), vm
    if sel == "range":
        if multi: return None
        return dict(lower=0, upper=P.mesh.nv), vm
    if sel == "ranges":
        r = [(off, off + P.mesh.nv) for W, off in leaves(P.V)]
        return dict(lower=[x for x, y in r], upper=[y for x, y in r]), vm
    if sel == "ranges split":
        r = []
        for W, off in leaves(P.V):
            k = c["seed"] % (P.mesh.nv + 1)
            r += [(off, off + k), (off + k, off + P.mesh.nv)]
        return dict(lower=[x for x, y in r], upper=[y for x, y in r]), vm
    if sel in ("ranges unordered", "ranges overlapping"):     # refused, or as good as the ordered ones
        r = []
        for W, off in leaves(P.V):
            k = c["seed"] % (P.mesh.nv + 1)
            k2 = k if sel == "ranges unordered" else min(k + 1 + c["seed"] // 7 % 4, P.mesh.nv)
            a = [(off, off + k2), (off + k, off + P.mesh.nv)]
            r += a[::-1] if sel == "ranges unordered" or c["seed"] % 2 else a
        return dict(lower=[x for x, y in r], upper=[y for x, y in r]), vm
    if sel == "select nodalp2":
        if d == 2 and multi: return None
        if d == 2: return dict(on_dofs="select", subset="nodalp2"), vm
        if not nod: return None
        return dict(on_dofs="select", subset="nodalp2"), em
    if sel == "select free":
        f = P.free
        if order == 1: return dict(on_dofs="select", subset="free"), vm & f
        if order == 2 and nod and d == 3 and spec["mesh"].get("simplex", True): return dict(on_dofs="select", subset="free"), em & f
        return None
    if sel == "all":
        # quadratic functions inside of quadrilaterals are no nodal functions
        if order > 1 and not (order == 2 and nod and spec["mesh"].get("simplex", True)): return None
        m = np.ones(L.n, bool)
        fl = dict(lo=False)
        if d == 2: fl["force_nolo"] = True
        return fl, m
    if sel == "p2emb":
        if spec["pde"] != "elast" or spec.get("rots") or spec.get("compound") or order != 2 or not nod: return None
        fl = dict(lo=False, dof_ordering="p2Emb")
        if d == 2: fl["force_nolo"] = True
        return fl, em
    raise ValueError(sel)


def make(P, fl, free, sel=None):
    """a set up may be refused if there is nothing to coarsen, and for ranges that are not sorted"""
    try: return make_or_refuse(P, fl)
    except Exception as e:
        if sel in SORTED: raise Reject("refused")
        if free.any() or not isinstance(e, Violation): raise
        raise Reject("nothing free in the selection")


SORTED = ("ranges unordered", "ranges overlapping")
SELS = ("default", "default lo", "range", "ranges", "ranges split", "select nodalp2", "select free", "all", "p2emb")


def coarse_rows(H, P, mask, free, what, fl={}):
    Q = H.prol(0)
    need(np.isfinite(Q).all(), "%s: prolongation not finite" % what)
    need(Q.shape[0] == len(mask), "%s: finest level has %d unknowns, the space %d" % (what, Q.shape[0], len(mask)))
    bad = np.abs(Q[~mask]).max(initial=0)
    need(bad == 0, "%s: coarse functions contribute %g to unknowns outside of the selection" % (what, bad))
    if fl.get("smooth_after_emb"): return Q     # the first transfer is the embedding alone, its constrained unknowns are left out by the level below
    bad = np.abs(Q[~free]).max(initial=0)
    need(bad == 0, "%s: coarse functions contribute %g to constrained unknowns" % (what, bad))
    return Q


def run_spd(c):
    P = Problem(c["prob"])
    L = Layout(P.V, P.mesh)
    s = selection(c, P, L)
    if s is None: raise Reject("no such selection")
    fl = dict(c["flags"], **s[0])
    f, mask = P.free, s[1]
    if fl.get("smooth_lo_only"):
        if len(leaves(P.V)) > 1 or mask.sum() != P.mesh.nv * P.bs: raise Reject("no low-order space")
        f = f & mask        # a preconditioner for the low-order part only
    pc = make(P, fl, f & mask, c["sel"])
    A = dense(P.a.mat)
    if f.sum() == 0: raise Reject("no free dofs")
    need(len(f) == L.n == len(A), "harness: sizes")
    H = Hier(pc.GetAMGMatrix())
    what = "%s" % c["sel"]
    if H.n > 1: coarse_rows(H, P, mask, P.free, what, fl)
    Aff = A[np.ix_(f, f)]
    if cond_ok(Aff) is None: raise Reject("not spd")
    B = dense(pc)
    need(np.isfinite(B).all(), "%s: operator has non-finite entries" % what)
    need(np.abs(B[~f]).max(initial=0) == 0, "%s: output on constrained dofs: %g" % (what, np.abs(B[~f]).max(initial=0)))
    need(np.abs(B[:, ~f]).max(initial=0) == 0, "%s: input on constrained dofs used: %g" % (what, np.abs(B[:, ~f]).max(initial=0)))
    Bff = B[np.ix_(f, f)]
    es = relerr(Bff, Bff.T)
    need(es < 1e-7, "%s: not symmetric: %g" % (what, es))
    C = np.linalg.cholesky(0.5 * (Aff + Aff.T))
    ev = np.linalg.eigvalsh(C.T @ (0.5 * (Bff + Bff.T)) @ C)
    need(ev[0] > 1e-7, "%s: not positive definite: lam_min(M^-1 A)=%g" % (what, ev[0]))
    need(ev[-1] < 1 + 1e-6, "%s: overshoots: lam_max(M^-1 A) - 1 = %g" % (what, ev[-1] - 1))
    return dict(nontrivial=H.n > 1 and (~mask & f).sum() + len(leaves(P.V)) + P.bs > 2, classes=["sel:" + c["sel"], P.spec["pde"], "order%d" % P.spec.get("order", 1), "dim%d" % P.mesh.dim]
                + [k for k in ("elim", "full_free", "nodalp2", "compound", "rots") if P.spec.get(k)] + (["lo only"] if fl.get("smooth_lo_only") else []))


def run_kernel(c):
    P = Problem(c["prob"])
    L = Layout(P.V, P.mesh)
    s = selection(c, P, L)
    if s is None: raise Reject("no such selection")
    fl = dict(c["flags"], clev="none", **s[0])
    mask = s[1]
    pc = make(P, fl, mask, c["sel"])
    H = Hier(pc.GetAMGMatrix())
    if H.n < 2: raise Reject("one level")
    if P.spec.get("nodalp2") and P.mesh.dim == 3 and P.spec.get("order", 1) > 1 and not s[1][L.e[L.e >= 0]].any(): raise Reject("functions of the vertices alone do not add up to the constant")
    if P.spec.get("nodalp2") and P.spec.get("order", 1) > 1 and not P.spec["mesh"].get("simplex", True): raise Reject("the functions of vertices and edges do not add up to the constant")
    if c["sel"] == "all" and P.mesh.dim == 2 and P.spec.get("order", 1) > 1: raise Reject("in two dimensions there are no nodal quadratic functions")
    what = "%s" % c["sel"]
    Q = coarse_rows(H, P, mask, P.free, what)
    K = modes(P, L, mask)
    need(np.abs(Q[mask]).max(axis=1).min() > 0, "%s: %d of the selected unknowns are not reached by any coarse function" % (what, (np.abs(Q[mask]).max(axis=1) == 0).sum()))
    X, *_ = np.linalg.lstsq(Q, K, rcond=1e-10)
    E = np.abs(Q @ X - K)
    need(E.max() <= 1e-7 * max(1, np.abs(K).max()), "%s: coarse functions miss a kernel function by %g at unknown %d" % (what, E.max(), E.max(axis=1).argmax()))
    if P.spec["pde"] in ("h1", "h1v"):
        k = pc.GetNDBS(1)[1]
        e = np.abs(Q.reshape(len(Q), -1, k).sum(axis=1) - K)
        need(e.max() <= 1e-9, "%s: coarse functions add up to %g instead of the constant" % (what, 1 + e.max()))
    return dict(nontrivial=bool(H.n > 1 and Q.shape[1] > K.shape[1]), classes=["sel:" + c["sel"], P.spec["pde"], "order%d" % P.spec.get("order", 1), "dim%d" % P.mesh.dim] + [k for k in ("nodalp2", "compound", "rots") if P.spec.get(k)])


def run_agree(c):
    """selections that select the same unknowns"""
    ops = {}
    for sel in c["sels"]:
        P = Problem(c["prob"])
        L = Layout(P.V, P.mesh)
        s = selection(dict(c, sel=sel), P, L)
        if s is None: continue
        pc = make(P, dict(c["flags"], **s[0]), P.free & s[1])
        H = Hier(pc.GetAMGMatrix())
        Q = coarse_rows(H, P, s[1], P.free, sel, c["flags"]) if H.n > 1 else np.zeros((L.n, 0))
        key = tuple(s[1].tolist()) + (sel == "p2emb",)     # another kind of coarse space
        ops.setdefault(key, []).append((sel, dense(pc), Q, H.size))
    n = 0
    for g in ops.values():
        for sel, B, Q, size in g[1:]:
            what = "%s / %s" % (g[0][0], sel)
            need(size == g[0][3], "%s: level sizes %s and %s" % (what, g[0][3], size))
            need(relerr(Q, g[0][2]) <= 1e-10, "%s: prolongations differ by %g" % (what, relerr(Q, g[0][2])))
            need(relerr(B, g[0][1]) <= 1e-8, "%s: operators differ by %g" % (what, relerr(B, g[0][1])))
            n += len(size) > 1
    return dict(nontrivial=n > 0, classes=["pairs=%d" % n, P.spec["pde"], "order%d" % P.spec.get("order", 1)] + ["sel:" + x for x in c["sels"]])


# ------------------------------------------------------------------ layouts
def run_layout(c):
    """the same vector-valued problem on differently stored spaces"""
    import NgsAMG
    base = Problem(dict(c["prob"], pde="h1", compound=False))       # mesh only
    mesh = base.mesh
    d = mesh.dim
    spec = c["prob"]
    k = spec["dim"] if spec["pde"] == "h1v" else d
    order = spec.get("order", 1)
    diri = "|".join(spec["diri"]) or "nosuchboundary"
    mu = base_coef(mesh, spec)
    res = []
    # elasticity derives the weights of the connections in another way from matrices with block entries
    lays = [l for l in c["lays"] if not (l == "VectorH1" and k != d) and not (l == "dim" and spec["pde"] == "elast")]
    for lay in lays:
        perm = list(range(k))
        if lay == "permuted": perm = [int(x) for x in np.random.default_rng(c["seed"]).permutation(k)]
        H1 = lambda **kw: ng.H1(mesh, order=order, dirichlet=diri, **kw)
        V = H1(dim=k) if lay == "dim" else ng.VectorH1(mesh, order=order, dirichlet=diri) if lay == "VectorH1" else ng.FESpace([H1() for _ in range(k)])
        if lay in ("dim", "VectorH1"):
            u, v = V.TnT()
            gu, gv = ng.Grad(u), ng.Grad(v)
            uu, vv = [u[i] for i in range(k)], [v[i] for i in range(k)]
        else:
            u, v = V.TnT()
            uu, vv = [None] * k, [None] * k
            for i, p in enumerate(perm): uu[p], vv[p] = u[i], v[i]
            gu = ng.CF(tuple(ng.grad(x)[j] for x in uu for j in range(d)), dims=(k, d))
            gv = ng.CF(tuple(ng.grad(x)[j] for x in vv for j in range(d)), dims=(k, d))
        if spec["pde"] == "elast":
            sym = lambda X: 0.5 * (X + X.trans)
            form = mu * ng.InnerProduct(sym(gu), sym(gv)) * ng.dx
            name = "elast_%dd" % d
        else:
            form = mu * ng.InnerProduct(gu, gv) * ng.dx
            if spec.get("mass"): form = form + spec["mass"] * sum((uu[i] * vv[i] for i in range(1, k)), uu[0] * vv[0]) * ng.dx
            name = "h1_%dd" % k
        a = ng.BilinearForm(V, symmetric=False, eliminate_internal=bool(spec.get("elim")))
        a += form
        pc = getattr(NgsAMG, name)(a, **amgflags(c["flags"]))
        try: a.Assemble()
        except Exception as e:
            if "Failed to construct any coarse levels" not in str(e): raise
            res.append((lay, None)); continue
        nd = H1().ndof
        # scalar position of component q of function i
        pos = np.zeros((nd, k), int)
        for q in range(k):
            pos[:, q] = np.arange(nd) * k + q if lay == "dim" else (list(range(k)) if lay == "VectorH1" else perm).index(q) * nd + np.arange(nd)
        A = dense(a.mat)[np.ix_(pos.reshape(-1), pos.reshape(-1))]
        Hh = Hier(pc.GetAMGMatrix())
        Q = Hh.prol(0)[pos.reshape(-1)] if Hh.n > 1 else None
        bk = pc.GetNDBS(1)[1] if Hh.n > 1 else 0
        if Q is not None and spec["pde"] != "elast":      # coarse components are numbered like the fine ones
            Q = Q.reshape(len(Q), -1, bk)[:, :, [perm.index(q) for q in range(k)]].reshape(len(Q), -1)
        elif Q is not None and perm != list(range(k)): Q = None     # vector-valued problems depend on which component points where
        sm = [dense(pc)[np.ix_(pos.reshape(-1), pos.reshape(-1))], Hh.size[1:]]
        res.append((lay, (A, Q, sm)))
    if len(res) < 2: raise Reject("one layout")
    need(len(set(r is None for _, r in res)) == 1, "one of the layouts %s is refused" % [l for l, r in res if r is None])
    if res[0][1] is None: raise Reject("refused")
    (l0, (A0, Q0, s0)) = res[0]
    n = 0
    for l, (A, Q, s) in res[1:]:
        what = "%s / %s" % (l0, l)
        need(relerr(A, A0) < 1e-11, "harness: matrices of the layouts differ by %g" % relerr(A, A0))
        if Q is None or Q0 is None: continue
        need(s[1] == s0[1], "%s: level sizes %s and %s" % (what, s0[1], s[1]))
        need(relerr(Q, Q0) < 1e-8, "%s: prolongations differ by %g" % (what, relerr(Q, Q0)))
        # Jacobi on the finest level, so that the order of the unknowns does not matter
        if "dim" not in (l0, l) and np.isfinite(s0[0]).all():
            need(relerr(s[0], s0[0]) < 1e-7, "%s: operators differ by %g" % (what, relerr(s[0], s0[0])))
        n += 1
    return dict(nontrivial=n > 0 and len(s0[1]) > 1, classes=[spec["pde"], "k%d" % k, "order%d" % order] + ["lay:" + l for l in lays])


def base_coef(mesh, spec):
    from ..problem import coef
    return coef(mesh, spec.get("coef", [1.0]))


FL = (gen.GS_FLAGS, gen.CRS_FLAGS, gen.PROL_FLAGS, dict(mg_cycle=gen.CYC_FLAGS["mg_cycle"], smooth_after_emb=st.booleans(), sm_use_fes_blocks=st.booleans()))


@st.composite
def spd_case(draw):
    p = draw(gen.problem(lo=1, hi2=5, hi3=2, orders=(1, 2, 2, 3, 4), span=2, nodalp2=True, elim=True, sub=True))
    fl = draw(gen.flags(groups=FL))
    if draw(gen.ints(0, 5)) == 0: fl["smooth_lo_only"] = True
    if p.get("elim") and draw(gen.ints(0, 2)) == 0: p["full_free"] = True
    if draw(gen.ints(0, 4)) == 0:
        fl["smooth_after_emb"] = True
        fl["sm_type"] = draw(gen.choice("gs", "bgs", "bgs"))
    return dict(prob=p, flags=fl, sel=draw(gen.choice(*SELS, *SORTED)), seed=draw(gen.seeds))


@st.composite
def kernel_case(draw):
    p = draw(gen.problem(lo=2, hi2=6, hi3=2, orders=(1, 2, 2, 3), span=2, mass=False, nodalp2=True))
    p["diri"] = []
    f = draw(gen.flags(groups=(gen.CRS_FLAGS, gen.PROL_FLAGS), drop=("vert_thresh",)))
    f["max_coarse_size"] = draw(gen.choice(1, 2, 4))
    return dict(prob=p, flags=f, sel=draw(gen.choice(*SELS, *SORTED)), seed=draw(gen.seeds))


@st.composite
def agree_case(draw):
    p = draw(gen.problem(lo=2, hi2=6, hi3=2, orders=(1, 2, 2, 3), span=2, nodalp2=True, elim=True))
    return dict(prob=p, flags=draw(gen.flags(groups=FL)), sels=draw(st.lists(gen.choice(*SELS), min_size=3, max_size=6, unique=True)), seed=draw(gen.seeds))


@st.composite
def layout_case(draw):
    p = draw(gen.problem(pdes=("h1v", "elast"), lo=2, hi2=6, hi3=2, orders=(1, 2, 3), span=2, rots=False, elim=True))
    p.pop("lam", None)
    p["mesh"].update(jig=draw(gen.ints(1, 10 ** 6)), amp=0.2)       # no two connections are equally strong
    if p["pde"] == "elast": p.pop("mass", None); p["diri"] = p["diri"] or ["left"]
    fl = draw(gen.flags(groups=(gen.CRS_FLAGS, gen.PROL_FLAGS), drop=("prol_type_spec",)))
    # the default smooths with the matrix where there is one for the vertices, i.e. not for compound spaces
    fl["prol_type"] = draw(gen.choice("piecewise", "aux_smoothed"))
    fl["sm_type_spec"] = ["jacobi"]
    lays = ["VectorH1", "list"] if p["pde"] == "elast" else draw(gen.choice(["list", "permuted"], ["dim", "list", "permuted"], ["VectorH1", "permuted"], ["dim", "VectorH1"]))
    return dict(prob=p, flags=fl, lays=lays, seed=draw(gen.seeds))


SUBS = [Sub("spd", spd_case(), run_spd, quick=1200, thorough=40000, shards=8, rule="two levels, unknowns outside of the selection or several components", min_nontrivial=100),
        Sub("kernel", kernel_case(), run_kernel, quick=1200, thorough=30000, shards=8, rule="more coarse functions than kernel functions", min_nontrivial=100),
        Sub("agree", agree_case(), run_agree, quick=700, thorough=30000, shards=8, rule="two selections of the same unknowns, at least two levels", min_nontrivial=80),
        Sub("layout", layout_case(), run_layout, quick=500, thorough=20000, shards=8, rule="two layouts, at least two levels", min_nontrivial=80)]
ASSUMPTIONS = ["serial", "meshes of at most about 40 vertices, orders up to 4", "NgSolve assembly, static condensation and vector access are trusted"]
