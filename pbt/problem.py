"""Generated model problems: (mesh spec, pde, order, coefficients, Dirichlet parts, AMG flags)."""
import ngsolve as ng
import numpy as np
from . import meshes

QUIET = dict(ngs_amg_log_level="none", ngs_amg_log_level_pc="none", ngs_amg_print_log=False)


def amgflags(fl):
    d = dict(QUIET)
    for k, v in (fl or {}).items():
        d["ngs_amg_" + k] = v
    return d


def coef(mesh, vals):
    vals = [float(v) for v in vals] or [1.0]
    nm = len(mesh.GetMaterials())
    if len(vals) == 1 or nm == 1:
        return ng.CoefficientFunction(vals[0])
    return ng.CoefficientFunction([vals[i % len(vals)] for i in range(nm)])


class Problem:
    """spec: mesh, pde in {h1,h1v,elast}, order, dim (components, for h1v), compound, rots, nodalp2, diri, coef, mass, lam, elim"""
    def __new__(cls, spec, comm=None, mesh=None):
        if spec.get("pde") == "graph":
            from .graphs import GraphProblem
            return GraphProblem(spec)
        return object.__new__(cls)

    def __init__(self, spec, comm=None, mesh=None):
        self.spec = spec
        self.mesh = mesh if mesh is not None else meshes.build(spec["mesh"], comm)
        mesh = self.mesh
        d = mesh.dim
        pde = spec["pde"]
        order = spec.get("order", 1)
        fo = {}
        if spec.get("nodalp2"): fo["nodalp2"] = True
        dx = ng.dx
        if spec.get("sub"):     # the space lives on some of the materials only
            mats = [m for i, m in enumerate(mesh.GetMaterials()) if i in spec["sub"]]
            if mats:
                fo["definedon"] = mesh.Materials("|".join(mats))
                dx = ng.dx(definedon=fo["definedon"])
        diri = "|".join(spec.get("diri", [])) or "nosuchboundary"
        mu = coef(mesh, spec.get("coef", [1.0]))
        mass = spec.get("mass", 0.0)
        self.bs = 1
        if pde == "h1":
            V = ng.H1(mesh, order=order, dirichlet=diri, **fo)
            u, v = V.TnT()
            form = mu * ng.grad(u) * ng.grad(v) * dx
            if mass: form = form + mass * u * v * dx
            self.pcname = "h1_scal"
        elif pde == "h1v":
            k = spec.get("dim", 2)
            if spec.get("compound") and k == d:
                V = ng.VectorH1(mesh, order=order, dirichlet=diri, **fo)
                u, v = V.TnT()
                form = mu * ng.InnerProduct(ng.Grad(u), ng.Grad(v)) * dx
                if mass: form = form + mass * ng.InnerProduct(u, v) * dx
            else:
                V = ng.H1(mesh, order=order, dirichlet=diri, dim=k, **fo)
                u, v = V.TnT()
                form = mu * ng.InnerProduct(ng.Grad(u), ng.Grad(v)) * dx
                if mass: form = form + mass * ng.InnerProduct(u, v) * dx
                self.bs = k
            self.pcname = "h1_%dd" % k
        elif pde == "elast":
            lam = spec.get("lam", 0.0)
            rots = spec.get("rots", False)
            sym = lambda X: 0.5 * (X + X.trans)
            if not rots:
                if spec.get("compound"):
                    V = ng.VectorH1(mesh, order=order, dirichlet=diri, **fo)
                else:
                    V = ng.H1(mesh, order=order, dirichlet=diri, dim=d, **fo)
                    self.bs = d
                u, v = V.TnT()
                gu, gv = ng.Grad(u), ng.Grad(v)
                form = mu * ng.InnerProduct(sym(gu), sym(gv)) * dx
                if lam: form = form + lam * ng.Trace(gu) * ng.Trace(gv) * dx
                if mass: form = form + mass * ng.InnerProduct(u, v) * dx
            else:
                CF = ng.CoefficientFunction
                md = d + d * (d - 1) // 2
                if spec.get("compound"):
                    Vu = ng.VectorH1(mesh, order=order, dirichlet=diri, **fo)
                    Vw = Vu if d == 3 else ng.H1(mesh, order=order, dirichlet=diri, **fo)
                    V = ng.FESpace([Vu, Vw])
                    (u, w), (ut, wt) = V.TnT()
                    gu, gut = ng.Grad(u), ng.Grad(ut)
                    wl = [w] if d == 2 else [w[i] for i in range(3)]
                    wtl = [wt] if d == 2 else [wt[i] for i in range(3)]
                else:
                    V = ng.H1(mesh, order=order, dirichlet=diri, dim=md, **fo)
                    self.bs = md
                    t, s = V.TnT()
                    gu = CF(tuple(ng.Grad(t)[i, j] for i in range(d) for j in range(d)), dims=(d, d))
                    gut = CF(tuple(ng.Grad(s)[i, j] for i in range(d) for j in range(d)), dims=(d, d))
                    wl = [t[i] for i in range(d, md)]
                    wtl = [s[i] for i in range(d, md)]
                if d == 2:
                    sk = lambda x: CF((0, -x[0], x[0], 0), dims=(2, 2))
                else:
                    sk = lambda x: CF((0, -x[2], x[1], x[2], 0, -x[0], -x[1], x[0], 0), dims=(3, 3))
                form = mu * ng.InnerProduct(gu - sk(wl), gut - sk(wtl)) * dx
                if lam:
                    form = form + lam * ng.Trace(gu) * ng.Trace(gut) * dx
            self.pcname = "elast_%dd" % d
        else:
            raise ValueError(pde)
        self.V = V
        bl = {}
        if spec.get("elim"): bl["eliminate_internal"] = True
        self.a = ng.BilinearForm(V, symmetric=False, **bl)
        self.a += form
        self.pc = None

    def make_pc(self, flags=None, assemble=True):
        import NgsAMG
        fl = dict(flags if flags is not None else self.spec.get("flags", {}))
        if self.spec.get("rots"): fl["rots"] = True
        if self.spec.get("full_free"):      # the eliminated unknowns are told to be free, too
            self.a.Assemble()
            self.pc = getattr(NgsAMG, self.pcname)(self.a, **amgflags(fl))
            self.pc.InitLevel(self.V.FreeDofs()); self.pc.FinalizeLevel(self.a.mat)
            return self.pc
        self.pc = getattr(NgsAMG, self.pcname)(self.a, **amgflags(fl))
        if assemble: self.a.Assemble()
        return self.pc

    @property
    def free(self):
        """scalar free-dof mask"""
        f = self.V.FreeDofs(self.spec.get("elim", False))
        m = np.array([bool(f[i]) for i in range(self.V.ndof)])
        return np.repeat(m, self.bs)


def make_or_refuse(P, flags):
    """set up the preconditioner; the clean refusal (no coarse level can be built) is only accepted where it is justified:
    nothing is free, or the lower-order term may dominate all vertices"""
    from .util import Reject, Violation
    try:
        return P.make_pc(flags)
    except Exception as e:
        if "Failed to construct any coarse levels" in str(e):
            if P.free.sum() == 0: raise Reject("nothing free")
            if P.spec.get("mass") or P.spec.get("pde") == "graph": raise Reject("no coarse level")
            # vertices pinned by their constrained neighbours are dropped
            if any(flags.get(k) for k in ("vert_thresh", "vert_thresh_spec")): raise Reject("no coarse level")
            # strength of connection is relative to the diagonal: no connection of a vertex with many neighbours needs to be strong
            if max([flags.get("edge_thresh", 0)] + list(flags.get("edge_thresh_spec", []))) > 0.1: raise Reject("no coarse level")
            # the vertex part of a nodal P2 matrix has large row sums, just like a mass term
            if P.spec.get("nodalp2") and P.spec.get("pde", "h1") in ("h1", "h1v"): raise Reject("no coarse level")
            raise Violation("setup refused: " + str(e)[:200])
        raise
