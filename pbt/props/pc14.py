"""C14: Stokes preconditioners: fluxes are conserved by the coarse functions, preserved fields are reproduced, loops are divergence free."""
import numpy as np
import ngsolve as ng
from ..core import Sub
from ..util import *
from .. import gen, meshes
from ..gen import choice, ints
from ..hier import Hier
from ..problem import Problem, make_or_refuse, amgflags, coef
from hypothesis import strategies as st

SIDES = meshes.SIDES


def matrix(b):
    r, c, v = b.mat.COO()
    M = np.zeros((b.mat.height, b.mat.width))
    np.add.at(M, (np.array(r), np.array(c)), np.array(v))
    return M


class Stokes:
    def __init__(self, case):
        import NgsAMG
        self.case = case
        self.mesh = mesh = meshes.build(case["mesh"])
        d = self.d = mesh.dim
        diri = "|".join(case["diri"]) or "nosuchboundary"
        mu, lam, mass = coef(mesh, case["coef"]), case["lam"], case["mass"]
        self.cond = bool(case.get("elim"))
        mats = mesh.GetMaterials()
        sub = [m for i, m in enumerate(mats) if i in case["sub"]] if case.get("sub") else None
        if sub is not None and not sub: raise Reject("no such material")
        self.els = [T for T in mesh.Elements(ng.VOL) if sub is None or T.mat in sub]
        don = {} if sub is None else dict(definedon=mesh.Materials("|".join(sub)))
        if case["disc"] == "nc":
            self.bs = d
            self.V = V = NgsAMG.NoCoH1(mesh, dim=d, dirichlet=diri, **don)
            u, v = V.TnT()
            gu, gv = ng.grad(u), ng.grad(v)
            self.a = ng.BilinearForm(V)
            self.a += (mu * ng.InnerProduct(gu, gv) + lam * ng.Trace(gu) * ng.Trace(gv)) * ng.dx(**don)
            if mass: self.a += mass * u * v * ng.dx(**don)
            self.name = "stokes_gg_%dd" % d
        else:
            self.bs = 1
            k = case["order"]
            self.W = W = ng.HDiv(mesh, order=k, dirichlet=diri, RT=(k == 0))
            self.F = F = ng.TangentialFacetFESpace(mesh, order=k, dirichlet=diri)
            self.V = V = W * F
            (u, uh), (v, vh) = V.TnT()
            n, h = ng.specialcf.normal(d), ng.specialcf.mesh_size
            self.tang = tang = lambda w: w - (w * n) * n
            du, dv = ng.Grad(u), ng.Grad(v)
            self.a = ng.BilinearForm(V, condense=self.cond)
            self.a += (mu * ng.InnerProduct(du, dv) + lam * ng.div(u) * ng.div(v)) * ng.dx
            if mass: self.a += mass * u * v * ng.dx
            self.dS = ng.dx(element_boundary=True)
            self.a += mu * (-ng.InnerProduct(du * n, tang(v - vh)) - ng.InnerProduct(dv * n, tang(u - uh))
                            + 10 * (k + 1) ** 2 / h * ng.InnerProduct(tang(u - uh), tang(v - vh))) * self.dS
            self.name = "stokes_hdiv_gg_%dd" % d

    def make(self, flags):
        import NgsAMG
        if "max_levels" not in flags: flags = dict(flags, max_levels=5)   # the default does not limit the coarsening by anything but the size
        try:
            self.pc = getattr(NgsAMG, self.name)(self.a, **amgflags(flags))
            self.a.Assemble()
        except Exception as e:
            if "Failed to construct any coarse levels" in str(e): raise Reject("no coarse level")
            if "Something strange must have happened with definedon" in str(e) and self.pinched(): raise Reject("mesh touches itself in a vertex / edge")
            raise
        return self.pc

    @property
    def free(self):
        f = self.V.FreeDofs(self.cond)
        return np.repeat(np.array([bool(f[i]) for i in range(self.V.ndof)]), self.bs)

    def pinched(self):
        """more than two boundary facets meet in a vertex (2d) / an edge (3d)"""
        nels, cnt = {}, {}
        for T in self.els:
            for F in self.facets(T): nels.setdefault(F.nr, []).append(F)
        for F in nels.values():
            if len(F) > 1: continue
            E = self.mesh[F[0]]
            for x in (E.vertices if self.d == 2 else E.edges): cnt[x.nr] = cnt.get(x.nr, 0) + 1
        return max(cnt.values(), default=0) > 2

    def facets(self, T):
        return T.edges if self.d == 2 else T.faces

    def facet_rows(self, F):
        """all scalar unknowns of a facet"""
        dn = [x for x in self.V.GetDofNrs(F) if x >= 0]
        return [x * self.bs + k for x in dn for k in range(self.bs)]

    def flux(self):
        """net flux of every function out of every element, and volumes"""
        mesh, d = self.mesh, self.d
        vol = ng.Integrate(ng.CoefficientFunction(1), mesh, element_wise=True).NumPy().copy()
        if self.case["disc"] == "hdiv":
            Q = ng.L2(mesh, order=0)
            b = ng.BilinearForm(trialspace=self.V, testspace=Q)
            u = self.V.TrialFunction()[0]
            b += ng.div(u) * Q.TestFunction() * ng.dx
            b.Assemble()
            return matrix(b), vol
        X = np.array([list(v.point) for v in mesh.vertices])
        D = np.zeros((mesh.ne, self.V.ndof * d))
        for T in self.els:
            bc = X[[v.nr for v in T.vertices]].mean(0)
            for F in self.facets(T):
                p = X[[v.nr for v in mesh[F].vertices]]
                if d == 2:
                    t = p[1] - p[0]; nn = np.array([t[1], -t[0]])
                else:
                    nn = np.cross(p[1] - p[0], p[2] - p[0]) / 2
                if nn @ (p.mean(0) - bc) < 0: nn = -nn
                i = self.V.GetDofNrs(F)[0]
                D[T.nr, i * d:i * d + d] += nn
        return D, vol

    def fields(self, linear):
        """unknowns of the constant (and linear) fields"""
        d = self.d
        co = (ng.x, ng.y, ng.z)
        E = np.eye(d)
        fs = [ng.CoefficientFunction(tuple(float(E[k, i]) for i in range(d))) for k in range(d)]
        if linear:
            fs += [ng.CoefficientFunction(tuple((co[j] if i == k else 0.0) for i in range(d))) for k in range(d) for j in range(d)]
        if self.case["disc"] == "nc":
            n = self.V.ndof
            return [np.tile(E[k], n) for k in range(d)]
        if not hasattr(self, "M"):
            uF, vF = self.F.TnT()
            b = ng.BilinearForm(self.F); b += ng.InnerProduct(self.tang(uF), self.tang(vF)) * self.dS; b.Assemble()
            self.M = matrix(b)
        res = []
        for f in fs:
            vF = self.F.TestFunction()
            lf = ng.LinearForm(self.F); lf += ng.InnerProduct(self.tang(f), self.tang(vF)) * self.dS; lf.Assemble()
            g = ng.GridFunction(self.W); g.Set(f)
            t = np.linalg.lstsq(self.M, nv(lf.vec), rcond=None)[0]
            res.append(np.concatenate([nv(g.vec), t]))
        return res


def cells(S, P, blk):
    """elements joined over those facets whose unknowns depend on more than one coarse facet: parts of the coarse cells"""
    mesh = S.mesh
    par = list(range(mesh.ne))
    def find(i):
        while par[i] != i:
            par[i] = par[par[i]]; i = par[i]
        return i
    sc = np.abs(P).max(initial=0)
    els = {}
    for T in S.els:
        for F in S.facets(T): els.setdefault(F.nr, (F, []))[1].append(T.nr)
    inter = 0
    for F, e in els.values():
        if len(e) < 2: continue
        r = S.facet_rows(F)
        nb = np.abs(P[r]).max(axis=0) > 1e-10 * sc
        if len(set(np.nonzero(nb)[0] // blk)) >= 2:
            par[find(e[0])] = find(e[1]); inter += 1
    return np.array([find(i) for i in range(mesh.ne)]), inter


def merged(S, cl, Z, tol):
    """at least the whole coarse cells: neighbouring parts where all functions have the same divergence"""
    cl = cl.copy()
    els = {}
    for T in S.els:
        for F in S.facets(T): els.setdefault(F.nr, []).append(T.nr)
    for e in els.values():
        if len(e) == 2 and cl[e[0]] != cl[e[1]] and np.abs(Z[e[0]] - Z[e[1]]).max(initial=0) <= tol:
            cl[cl == cl[e[1]]] = cl[e[0]]
    return cl


def run(case):
    S = Stokes(case)
    d, mesh = S.d, S.mesh
    flags = dict(case["flags"])
    pc = S.make(flags)
    f = S.free
    if f.sum() == 0: raise Reject("nothing free")
    A = dense(S.a.mat)
    Aff = A[np.ix_(f, f)]
    Aff = 0.5 * (Aff + Aff.T)
    ev = np.linalg.eigvalsh(Aff)
    if not (ev[0] > 0 and ev[-1] / ev[0] < 1e8): raise Reject("not definite")
    H = Hier(pc.GetAMGMatrix())
    cls = [case["disc"] + "%d" % d, "levels=%d" % H.n, "sm=" + flags.get("sm_type", "gs")]
    # ---- Galerkin
    need(relerr(H.A(0)[f], A[f]) < 1e-13, "finest level matrix is not the assembled one")
    G = A
    Ps = [np.eye(len(f))]
    for l in range(H.n - 1):
        P, R = H.prol(l), H.rest(l)
        need(np.isfinite(P).all(), "prolongation %d not finite" % l)
        need(relerr(R, P.T) < 1e-13, "restriction %d is not the transpose of the prolongation" % l)
        if l == 0: need(np.abs(P[~f]).max(initial=0) == 0, "constrained unknowns take part in coarse functions")
        sc = (np.abs(P).T @ np.abs(G) @ np.abs(P)).max(initial=0)
        G = P.T @ G @ P
        need(np.abs(H.A(l + 1) - G).max(initial=0) <= 1e-11 * sc, "level %d matrix is not the Galerkin projection: %g of %g" % (l + 1, np.abs(H.A(l + 1) - G).max(), sc))
        Ps.append(Ps[-1] @ P)
    # ---- operator
    B = dense(pc)
    need(np.isfinite(B).all(), "operator has non-finite entries")
    need(np.abs(B[~f]).max(initial=0) == 0 and np.abs(B[:, ~f]).max(initial=0) == 0, "constrained unknowns are touched")
    Bff = B[np.ix_(f, f)]
    condA = ev[-1] / ev[0]
    need(relerr(Bff, Bff.T) < 1e-14 * condA + 1e-9, "operator not symmetric: %g (cond %g)" % (relerr(Bff, Bff.T), condA))
    L = np.linalg.cholesky(Aff)
    lam = np.linalg.eigvalsh(L.T @ (0.5 * (Bff + Bff.T)) @ L)
    # the matrices inside of the AMG smoother are not quite projections of each other, so it may diverge (known finding)
    if not (flags.get("sm_type") == "amg_smoother" and H.n > 2) or case.get("strict"):
      need(lam[0] > 1e-9, "operator not positive definite: %g" % lam[0])
      need(lam[-1] < 1 + 1e-6 + 1e-13 * condA, "overshoots: lam_max(M^-1 A) - 1 = %g" % (lam[-1] - 1))
    if H.n < 2: return dict(nontrivial=False, classes=cls)
    # ---- conservation
    D, vol = S.flux()
    ref = None
    pres = flags.get("pres_vecs", "P0") if case["disc"] == "hdiv" else "P0"
    if case["disc"] == "hdiv" and pres != "RTZ":
        ref = Stokes(case); ref.make(dict(flags, pres_vecs="RTZ"))
        HR = Hier(ref.pc.GetAMGMatrix())
        need(HR.n == H.n, "number of levels depends on the preserved functions")
    PR = np.eye(len(f))
    dirfac = [any(not f[i] for i in S.facet_rows(F)) for F in (mesh.edges if d == 2 else mesh.faces)]
    ndf, ninter, nsafe, agg = sum(dirfac), 0, 0, [np.arange(mesh.ne)]
    for l in range(1, H.n):
        P = Ps[l]
        if ref is not None:
            PR = PR @ HR.prol(l - 1)
            cl, k = cells(S, PR, 1)
        else:
            cl, k = cells(S, P, d if case["disc"] == "nc" else 1)
        ninter += k
        agg.append(cl)
        Z = (D @ P) / vol[:, None]
        sc = np.abs(Z).max(initial=0)
        aZ = (np.abs(D) @ np.abs(P) / vol[:, None]).max(initial=0)
        for c in set(cl):
            z = Z[cl == c]
            s = np.abs(z - z[0]).max()
            need(s <= 1e-9 * sc + 1e-12 * aZ, "level %d: coarse functions have different divergence inside of a coarse cell: %g of %g" % (l, s, sc))
        # cells away from constrained facets
        cl = merged(S, cl, Z, 1e-8 * sc)
        agg[-1] = cl
        badc = set(cl[T.nr] for T in S.els if any(dirfac[F.nr] for F in S.facets(T)))
        safe = f.copy()
        for T in S.els:
            bad = cl[T.nr] in badc
            if bad:
                for F in S.facets(T): safe[S.facet_rows(F)] = False
            if case["disc"] == "hdiv" and (bad or S.cond):
                safe[[x for x in S.V.GetDofNrs(ng.NodeId(ng.ELEMENT, T.nr)) if x >= 0]] = False
        nsafe += int(safe.sum())
        if not safe.any() or pres == "RTZ": continue
        # inside of a coarse cell only those fields are reproduced that minimise the energy among the fields with the same divergence
        skel = safe.copy()
        els = {}
        for T in S.els:
            for F in S.facets(T): els.setdefault(F.nr, (F, []))[1].append(cl[T.nr])
        for F, e in els.values():
            if len(e) == 2 and e[0] == e[1]: skel[S.facet_rows(F)] = False
        c_in = case["mass"] == 0 or not S.cond
        l_in = case["mass"] == 0 and len(set(case["coef"])) == 1
        if case.get("order", 1) == 0 and pres != "P0": continue   # linear fields are not in the space
        fl = S.fields(pres != "P0")
        # P1: divergence free ones
        if pres == "P1":
            E = np.eye(d)
            lin = fl[d:]
            fl = fl[:d] + [lin[i * d + j] for i in range(d) for j in range(d) if i != j] + [lin[i * d + i] - lin[(i + 1) * d + i + 1] for i in range(d - 1)]
        if case["disc"] == "nc":
            for kk in range(d):
                w = np.tile(np.eye(d)[kk], P.shape[1] // d)
                e = np.abs((P @ w - fl[kk])[safe]).max()
                need(e < 1e-10, "level %d: constant field %d not reproduced: %g" % (l, kk, e))
        else:
            for i, c in enumerate(fl):
                m = safe if (c_in if i < d else l_in) else skel
                if not m.any(): continue
                w = np.linalg.lstsq(P[m], c[m], rcond=1e-12)[0]
                e = np.abs(P[m] @ w - c[m]).max() / max(np.abs(c).max(), 1e-300)
                need(e < (1e-6 if i < d else 1e-4), "level %d: preserved field %d of %s not reproduced: %g" % (l, i, pres, e))
    # ---- loops
    nloop = 0
    if flags.get("sm_type") == "hiptmair":
        v = S.a.mat.CreateColVector()
        for l in range(H.n - 1):
            nl = pc.GetNLoops(l, 0)
            Ls = []
            for kk in range(nl):
                nv(v)[:] = 7.7e3
                pc.GetLoop(v, l, kk, 0, False)
                Ls.append(nv(v).copy())
            if not Ls: continue
            nloop += nl
            Lm = np.array(Ls).T
            need(np.isfinite(Lm).all(), "loops not finite")
            need(np.abs(Lm[~f]).max(initial=0) == 0, "loop on constrained unknowns")
            fx = np.abs(D @ Lm)
            sc = (np.abs(D) @ np.abs(Lm)).max()
            badc = set(agg[l][T.nr] for T in S.els if any(dirfac[F.nr] for F in S.facets(T)))
            inner = np.array([c not in badc for c in agg[l]])
            if inner.any():
                need(fx[inner].max() <= 1e-10 * sc, "level %d: loop with flux %g out of an element away from constrained facets" % (l, fx[inner].max()))
            if ndf == 0 and not case["mesh"].get("holes") and not case.get("sub") and l == 0:
                rk = np.linalg.matrix_rank(Lm, tol=1e-9 * np.linalg.norm(Lm, 2))
                want = mesh.nfacet - mesh.ne
                need(rk == want, "loops span %d of %d divergence free fluxes" % (rk, want))
                cls.append("loopspan")
    cls.append("pres=" + pres)
    if case.get("sub"): cls.append("part of the mesh")
    return dict(nontrivial=ninter > 0 and nsafe > 0, classes=cls + (["loops"] if nloop else []))


STOKES_FLAGS = dict(
    sm_type=choice("gs", "bgs", "hiptmair", "hiptmair", "hiptmair", "amg_smoother"),
    sm_type_range=choice("gs", "bgs"),
    sm_type_pot=choice("gs"),   # bgs: known finding
    sm_steps=choice(1, 2, 3),
    sm_symm=st.booleans(),
    amg_sm_single_fls=st.booleans(),
    mg_cycle=choice("V", "W"),
    energy=choice("alg", "triv"),
    max_coarse_size=choice(1, 2, 5, 10, 20),
    max_levels=choice(2, 3, 4),
    crs_alg=choice("mis", "spw"),
    first_aaf=choice(0.05, 0.2),
    aaf=choice(0.05, 0.2),
    enable_multistep=st.booleans(),
    mis_dist2=st.booleans(),
    spw_rounds=choice(1, 2, 3),
    edge_thresh=choice(0.01, 0.05, 0.25),
    build_div_mats=st.booleans(),
)


@st.composite
def stokes(draw, disc):
    dim = draw(choice(2, 2, 3))
    c = dict(disc=disc)
    if disc == "nc":
        c["mesh"] = draw(gen.mesh2(lo=2, hi=7, quads=False)) if dim == 2 else draw(gen.mesh3(lo=1, hi=3, hexes=False))
        if dim == 3: c["mesh"]["n"][2] = min(c["mesh"]["n"][2], 2)
    else:
        c["order"] = draw(choice(0, 1, 1, 2)) if dim == 2 else draw(choice(0, 1))
        c["mesh"] = draw(gen.mesh2(lo=2, hi=5, quads=False)) if dim == 2 else draw(gen.mesh3(lo=1, hi=2, hexes=False))
        c["elim"] = draw(st.booleans()) and c["order"] > 0
    sides = SIDES[dim]
    c["diri"] = draw(st.lists(choice(*sides), max_size=2, unique=True))
    nm = c["mesh"].get("nmat", 1)
    c["coef"] = [draw(choice(1.0, 0.1, 10.0, 100.0)) for _ in range(nm)]
    c["lam"] = draw(choice(0.0, 1.0, 100.0, 1e4))
    c["mass"] = draw(choice(0.01, 1.0)) if not c["diri"] else draw(choice(0.0, 0.0, 1.0))
    fl = draw(gen.flags(groups=(STOKES_FLAGS,), maxn=5))
    if disc == "nc" and nm > 1 and draw(ints(0, 2)) == 0: c["sub"] = sorted(draw(st.lists(ints(0, nm - 1), min_size=1, max_size=nm - 1, unique=True)))
    if "sm_type" not in fl: fl["sm_type"] = draw(choice("gs", "hiptmair", "hiptmair", "amg_smoother"))
    if disc == "nc":   # block smoothers of the nonconforming space are not implemented
        for k in ("sm_type", "sm_type_range"):
            if fl.get(k) == "bgs": fl[k] = "gs"
    if disc == "hdiv" and draw(st.booleans()): fl["pres_vecs"] = draw(choice("RTZ", "P1", "FULL_P1" if c["order"] else "P1"))
    c["flags"] = fl
    return c


@st.composite
def stokes_spd(draw, amgsm=True):
    """Stokes problem and flags; the AMG smoother is only for properties that the known finding about it does not concern"""
    prob = draw(stokes(draw(choice("nc", "nc", "hdiv"))))
    fl = prob.pop("flags")
    if fl.get("sm_type") == "amg_smoother" and not amgsm: fl["sm_type"] = "hiptmair"
    if "sub" in prob and not prob["mass"]: prob["mass"] = 1.0   # the subdomain need not touch the constrained boundary: singular
    return prob, fl


def setup_any(prob, flags):
    """problem and preconditioner, Stokes or not"""
    if "disc" in prob:
        S = Stokes(prob)
        return S, S.make(flags)
    P = Problem(prob)
    return P, make_or_refuse(P, flags)


SUBS = [Sub("nc", stokes("nc"), run, quick=2600, thorough=100000, shards=8, rule="at least one facet inside of a coarse cell and cells away from constrained facets", min_nontrivial=400),
        Sub("hdiv", stokes("hdiv"), run, quick=1600, thorough=60000, shards=8, rule="at least one facet inside of a coarse cell and cells away from constrained facets", min_nontrivial=300)]
ASSUMPTIONS = ["serial", "simplicial meshes of at most about 100 triangles / 110 tetrahedra", "NgSolve assembly, integration and vector access are trusted"]
