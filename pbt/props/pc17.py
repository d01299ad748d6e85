"""C17: the nonconforming auxiliary space and the embedding of low-order facet-type spaces."""
import numpy as np
from ..core import Sub
from ..util import *
from .. import gen, meshes
from hypothesis import strategies as st
from ..gen import choice, ints, seeds

REFV = {2: [(1, 0, 0), (0, 1, 0), (0, 0, 0)], 3: [(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, 0)]}


def to_np(M):
    r, c, v = M.COO()
    r, c = np.array(r, dtype=int), np.array(c, dtype=int)
    need(len(r) == 0 or (r.min() >= 0 and r.max() < M.height and c.min() >= 0 and c.max() < M.width), "matrix has entries outside of its %d x %d shape: columns %s .. %s" % (M.height, M.width, c.min(initial=0), c.max(initial=0)))
    D = np.zeros((M.height, M.width))
    np.add.at(D, (r, c), np.array(v))
    return D


def region(case, m):
    """(python definedon argument or None, ngsolve region, elements inside)"""
    mats = sorted(set(m.GetMaterials()))
    sel = [x for x in mats if x in ["m%d" % k for k in case.get("defon", [])]]
    if not sel or not case.get("defon"): return None, m.Materials(".*"), list(range(m.ne))
    els = [e.nr for e in m.Elements() if e.mat in sel]
    if not els: raise Reject("empty region")
    return "|".join(sel), m.Materials("|".join(sel)), els


def run_nc(case):
    import ngsolve as ng, NgsAMG
    m = meshes.build(case["mesh"])
    d = m.dim
    defon, reg, els = region(case, m)
    kw = dict(dim=case["dim"])
    if defon: kw["definedon"] = defon
    if case["diri"]: kw["dirichlet"] = "|".join(case["diri"])
    V = NgsAMG.NoCoH1(m, **kw)
    bs = case["dim"]
    inside = set(els)
    fac2dof = {}
    for e in m.Elements():
        dn = list(V.GetDofNrs(ng.ElementId(ng.VOL, e.nr)))
        if e.nr not in inside: continue
        fs = [f.nr for f in e.facets]
        need(len(dn) == len(fs), "element has %d unknowns, %d facets" % (len(dn), len(fs)))
        for f, k in zip(fs, dn):
            need(0 <= k < V.ndof, "unknown %d of %d" % (k, V.ndof))
            need(fac2dof.setdefault(f, k) == k, "two elements see different unknowns for facet %d" % f)
    need(len(set(fac2dof.values())) == len(fac2dof) == V.ndof, "%d unknowns for %d facets" % (V.ndof, len(fac2dof)))
    for f in range(m.nfacet):
        dn = [k for k in V.GetDofNrs(ng.NodeId(ng.FACET, f)) if k >= 0]
        need(dn == ([fac2dof[f]] if f in fac2dof else []), "unknowns of facet %d are %s" % (f, dn))
    # Dirichlet
    fixed = set()
    bfac = {}
    for e in m.Elements(ng.BND):
        f = (e.edges if d == 2 else e.faces)[0].nr
        bfac[f] = e
        if e.mat in case["diri"] and f in fac2dof: fixed.add(fac2dof[f])
    fr = V.FreeDofs()
    need([bool(fr[k]) for k in range(V.ndof)] == [k not in fixed for k in range(V.ndof)], "Dirichlet unknowns are not those of the facets on the Dirichlet boundary")
    # shape functions: mean over facet j is delta_ij; affine
    pts = {v.nr: np.array(v.point) for v in m.vertices}
    rng = np.random.default_rng(case["seed"])
    for e in m.Elements():
        if e.nr not in inside: continue
        fe = V.GetFE(ng.ElementId(ng.VOL, e.nr))
        vv = [v.nr for v in e.vertices]
        S = np.array([np.array(fe.CalcShape(*p)) for p in REFV[d]])         # vertex, shape
        for j, f in enumerate(e.facets):
            fv = [vv.index(v.nr) for v in m[f].vertices]
            mean = S[fv].mean(axis=0)
            need(np.abs(mean - np.eye(len(mean))[j]).max() < 1e-13, "facet means of the shape functions are %s" % mean)
        lam = rng.dirichlet(np.ones(d + 1))
        p = [float(lam @ np.array([q[i] for q in REFV[d]])) for i in range(3)]
        need(np.abs(np.array(fe.CalcShape(*p)) - lam @ S).max() < 1e-12, "shape functions are not affine")
        break
    # all elements at once: integrals over element boundaries against facet functions
    u, v = V.TnT()
    W = ng.FacetFESpace(m, order=0)
    wh = W.TestFunction()
    comp = (lambda x, c: x[c]) if bs > 1 else (lambda x, c: x)
    cnt = np.zeros(m.nfacet)
    for e in m.Elements():
        if e.nr in inside:
            for f in e.facets: cnt[f.nr] += 1
    area = facet_area(m, pts)
    wd = [list(W.GetDofNrs(ng.NodeId(ng.FACET, f)))[0] for f in range(m.nfacet)]
    x0 = rng.standard_normal((V.ndof, bs))
    gf = ng.GridFunction(V)
    gf.vec.FV().NumPy()[:] = x0.ravel()
    for c in range(bs):
        L = ng.LinearForm(W)
        L += comp(gf, c) * wh * ng.dx(element_boundary=True, definedon=reg)
        L.Assemble()
        got = L.vec.FV().NumPy()
        for f in range(m.nfacet):
            want = cnt[f] * area[f] * x0[fac2dof[f], c] if f in fac2dof else 0.0
            need(abs(got[wd[f]] - want) <= 1e-10 * area[f] * (1 + abs(x0).max()), "facet integral of a function is %g, its unknown times the area %g" % (got[wd[f]], want))
        # boundary
        L = ng.LinearForm(V)
        L += comp(v, c) * ng.ds
        L.Assemble()
        got = L.vec.FV().NumPy().reshape(V.ndof, bs)
        want = np.zeros((V.ndof, bs))
        for f in bfac:
            if f in fac2dof: want[fac2dof[f], c] += area[f]
        need(np.abs(got - want).max() <= 1e-10 * max(area), "boundary integrals of the basis functions are wrong by %g" % np.abs(got - want).max())
    # affine functions
    G = rng.standard_normal((bs, d))
    g0 = rng.standard_normal(bs)
    X = np.zeros((V.ndof, bs))
    for f, k in fac2dof.items():
        mid = np.mean([pts[w.nr] for w in m[ng.NodeId(ng.FACET, f)].vertices], axis=0)
        X[k] = g0 + G @ mid[:d]
    gf.vec.FV().NumPy()[:] = X.ravel()
    xyz = [ng.x, ng.y, ng.z][:d]
    F = [g0[c] + sum(G[c, i] * xyz[i] for i in range(d)) for c in range(bs)]
    vol = ng.Integrate(ng.CF(1), m, definedon=reg)
    big = (np.abs(g0).max() + np.abs(G).max() * 8)**2
    err = sum(ng.Integrate((comp(gf, c) - F[c])**2, m, definedon=reg) for c in range(bs))
    need(err < 1e-20 * big * vol, "affine functions are not reproduced: %g" % err)
    H = G.ravel() if bs > 1 else G[0]
    want = (G * G).sum() * vol
    # the operators for the gradient: Grad, grad and the trial function's own derivative
    ops = [("derivative", lambda z: z.Deriv())]
    ops.append(("Grad", ng.Grad) if bs > 1 else ("grad", ng.grad))
    for name, op in ops:
        a = ng.BilinearForm(V, symmetric=False)
        a += ng.InnerProduct(op(u), op(v)) * ng.dx(definedon=reg)
        a.Assemble()
        xv, yv = a.mat.CreateColVector(), a.mat.CreateColVector()
        sc = np.abs(to_np(a.mat) if bs == 1 else np.array([1.0])).max()
        for c in range(bs):
            o = np.zeros((V.ndof, bs)); o[:, c] = 1.0
            xv.FV().NumPy()[:] = o.ravel()
            yv.data = a.mat * xv
            ac = np.abs(yv.FV().NumPy()).max()
            need(ac <= 1e-9 * (1 + sc), "%s: stiffness matrix does not annihilate the constant %d: %g" % (name, c, ac))
        xv.FV().NumPy()[:] = X.ravel()
        yv.data = a.mat * xv
        en = float(xv.FV().NumPy() @ yv.FV().NumPy())
        need(abs(en - want) <= 1e-9 * (abs(want) + 1e-3), "%s: energy of an affine function is %g, not %g" % (name, en, want))
    cl = ["dim %d" % d, "components %d" % bs] + (["region"] if defon and len(els) < m.ne else []) + (["dirichlet"] if fixed else [])
    return dict(nontrivial=m.ne > 2, classes=cl)


def facet_area(m, pts):
    import ngsolve as ng
    out = []
    for f in range(m.nfacet):
        p = [pts[v.nr] for v in m[ng.NodeId(ng.FACET, f)].vertices]
        if len(p) == 2: out.append(np.linalg.norm(p[1] - p[0]))
        else: out.append(0.5 * np.linalg.norm(np.cross(p[1] - p[0], p[2] - p[0])))
    return out


def space(kind, m, order, kw):
    import ngsolve as ng, NgsAMG
    if kind == "facet": return ng.FacetFESpace(m, order=order, **kw)
    if kind == "hdiv": return ng.HDiv(m, order=order, **kw)
    if kind == "hdivrt": return ng.HDiv(m, order=order, RT=True, **kw)
    if kind == "hdivdf": return ng.HDiv(m, order=order, hodivfree=True, **kw)
    if kind == "hdivdc": return ng.HDiv(m, order=order, highest_order_dc=True, **kw)
    if kind == "facetdc": return ng.FacetFESpace(m, order=order, highest_order_dc=True, **kw)
    if kind == "tang": return ng.TangentialFacetFESpace(m, order=order, **kw)
    if kind == "nc": return NgsAMG.NoCoH1(m, **kw)
    raise Reject(kind)


def run_emb(case):
    import ngsolve as ng, NgsAMG
    m = meshes.build(case["mesh"])
    k0, k1 = case["pair"]
    if k1.endswith("dc") and (case["order"] == 0 or not case["mesh"]["simplex"]): raise Reject("not usable in NgSolve")
    if m.dim == 3 and "tang" in (k0, k1): raise Reject("two unknowns per facet")
    defon, reg, els = region(case, m)
    kwd = dict(dirichlet="|".join(case["diri"])) if case["diri"] else {}
    kwo = dict(kwd)
    if defon and k0 in ("nc", "facet") : kwo["definedon"] = defon
    if defon and case["both"]: kwd["definedon"] = defon
    VO, VD = space(k0, m, 0, kwo), space(k1, m, case["order"], kwd)
    f2 = None
    E0 = to_np(NgsAMG.LOToHOFacetEmbedding(VO, VD))
    need(E0.shape == (VD.ndof, VO.ndof), "shape of the embedding is %s" % (E0.shape,))
    rng = np.random.default_rng(case["seed"])
    if case["mask"] != "none":
        f2 = ng.BitArray(VD.FreeDofs()) if case["mask"] == "free" else ng.BitArray([bool(x) for x in rng.random(VD.ndof) < 0.5])
        E1 = to_np(NgsAMG.LOToHOFacetEmbedding(VO, VD, f2))
        keep = np.array([bool(f2[k]) for k in range(VD.ndof)])
        need(np.array_equal(E1, E0 * keep[:, None]), "the embedding restricted to a set of unknowns is not the restriction of the embedding")
    # same function (or same facet means for the nonconforming space)
    xo, xd = ng.GridFunction(VO), ng.GridFunction(VD)
    x = rng.standard_normal(VO.ndof)
    # functions are compared where both spaces are defined
    xo.vec.FV().NumPy()[:] = x
    xd.vec.FV().NumPy()[:] = E0 @ x
    rg = reg if defon else m.Materials(".*")
    if k0.startswith("hdiv"):
        T = ng.VectorL2(m, order=case["order"] + 2)
        w = T.TestFunction()
        Lo, Ld = ng.LinearForm(T), ng.LinearForm(T)
        Lo += xo * w * ng.dx(definedon=rg); Ld += xd * w * ng.dx(definedon=rg)
    elif k0 == "tang":
        T = ng.TangentialFacetFESpace(m, order=case["order"])
        w = T.TestFunction()
        Lo, Ld = ng.LinearForm(T), ng.LinearForm(T)
        Lo += xo * w * ng.dx(element_boundary=True, definedon=rg); Ld += xd * w * ng.dx(element_boundary=True, definedon=rg)
    else:
        T = ng.FacetFESpace(m, order=0 if k0 == "nc" else case["order"])
        w = T.TestFunction()
        Lo, Ld = ng.LinearForm(T), ng.LinearForm(T)
        Lo += xo * w * ng.dx(element_boundary=True, definedon=rg); Ld += xd * w * ng.dx(element_boundary=True, definedon=rg)
    Lo.Assemble(); Ld.Assemble()
    lo, ld = Lo.vec.FV().NumPy(), Ld.vec.FV().NumPy()
    err = np.abs(lo - ld).max(initial=0)
    need(err <= 1e-11 * max(np.abs(lo).max(initial=0), 1e-300), "embedded function differs from the low order function: %g of %g" % (err, np.abs(lo).max(initial=0)))
    return dict(nontrivial=VD.ndof > VO.ndof, classes=["%s > %s" % (k0, k1), "order %d" % case["order"], "mask " + case["mask"], "dim %d" % m.dim] + (["region"] if defon and len(els) < m.ne else []))


@st.composite
def mesh(draw, simplex=True, hi2=5, hi3=3):
    m = draw(gen.mesh2(hi=hi2, quads=not simplex) if draw(ints(0, 2)) else gen.mesh3(hi=hi3, hexes=not simplex))
    return m


@st.composite
def nc_case(draw):
    m = draw(mesh())
    sides = meshes.SIDES[m["dim"]]
    c = dict(mesh=m, dim=draw(choice(1, 1, 2, 3)), diri=draw(st.lists(choice(*sides), max_size=3, unique=True)), seed=draw(seeds))
    if draw(st.booleans()): c["defon"] = draw(st.lists(ints(0, 2), min_size=1, max_size=2, unique=True))
    return c


@st.composite
def emb_case(draw):
    pair = draw(choice(["facet", "facet"], ["facet", "facetdc"], ["hdiv", "hdiv"], ["hdiv", "hdivrt"], ["hdiv", "hdivdf"], ["hdiv", "hdivdc"], ["hdivrt", "hdiv"], ["tang", "tang"], ["nc", "facet"], ["nc", "nc"]))
    m = draw(mesh(simplex="nc" in pair or draw(st.booleans()), hi2=4, hi3=2))
    sides = meshes.SIDES[m["dim"]]
    c = dict(mesh=m, pair=pair, order=draw(ints(0, 4)), both=draw(st.booleans()), mask=draw(choice("none", "free", "random")), diri=draw(st.lists(choice(*sides), max_size=3, unique=True)), seed=draw(seeds))
    if draw(ints(0, 2)) == 0: c["defon"] = draw(st.lists(ints(0, 2), min_size=1, max_size=2, unique=True))
    return c


SUBS = [Sub("nc", nc_case(), run_nc, quick=800, thorough=20000, shards=8, rule="at least three elements", min_nontrivial=100),
        Sub("embed", emb_case(), run_emb, quick=1000, thorough=40000, shards=8, rule="the larger space has more unknowns", min_nontrivial=100)]
ASSUMPTIONS = ["simplicial meshes of at most about 100 elements for the nonconforming space", "NgSolve integration is trusted"]
