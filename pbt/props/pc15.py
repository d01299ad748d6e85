"""C15: per-level options take effect on exactly the stated levels."""
import numpy as np
import ngsolve as ng
from ..core import Sub
from ..util import *
from .. import gen
from ..problem import Problem, make_or_refuse
from ..hier import Hier
from . import pc14
from hypothesis import strategies as st

B = (False, True)
AVG = ("min", "geom", "harm", "alg", "max")
# option -> (values, library default or None if it depends on the problem)
SMO = dict(sm_type=("gs", "bgs", "jacobi"), sm_steps=(1, 2, 3), sm_symm=B)
CRS = dict(crs_alg=("spw", "mis"), edge_thresh=(0.01, 0.05, 0.25), vert_thresh=(0.0, 0.05), crs_robust=B, spw_rounds=(1, 2, 3, 4),
           spw_pick_robust=B, spw_neib_boost=B, spw_cbs=B, spw_diag_stab_boost=(0.0, 0.3, 1.0), spw_big_soc_robust=B, spw_big_soc_hack_thresh=(0.0, 0.3),
           spw_orphan_treatment=B, spw_pick_avg=AVG, spw_big_soc_bdiag=B, check_isolated_vertices=B, ecw_stab_hack=B)
MIS = dict(mis_neib_boost=B, mis_lazy_neib_boost=B, mis_minmax_avg=AVG, mis_ecw_minmax=B, mis_dist2=B, mis_ecw_geom=B, ecw_geom=B, edge_thresh=(0.01, 0.05, 0.25))
PROL = dict(prol_type=("piecewise", "aux_smoothed", "semi_aux_smoothed"), sp_min_frac=(0.01, 0.08, 0.3), sp_max_per_row=(1, 2, 3, 5), sp_max_per_row_classic=(1, 2, 4),
            sp_omega=(0.3, 0.7, 1.0), sp_improve_its=(0, 1, 2), sp_use_roots=B, sp_use_asb=B, improve_avgs=B)
ROT = dict(rot_scale=(0.5, 1.0, 2.0))
DEFAULT = dict(sm_type="gs", sm_steps=1, sm_symm=False, spw_rounds=3, crs_alg="spw", prol_type="semi_aux_smoothed", sp_omega=1.0, sp_improve_its=0)


class Sig:
    """what the preconditioner does, level by level, seen with fixed probes"""
    def __init__(self, P, pc):
        self.H = H = Hier(pc.GetAMGMatrix())
        self.n = H.n
        self.size = H.size
        rng = np.random.default_rng(77)
        self.p, self.s, self.nb = [], [], []
        for l in range(H.n - 1):
            fv, cv = H.map.CreateVector(l), H.map.CreateVector(l + 1)
            nv(cv)[:] = rng.standard_normal(len(nv(cv)))
            st_ = H.map.GetStep(l)
            st_.C2F(fv, cv)
            self.p.append(nv(fv).copy())
            sm = pc.GetSmoother(l)
            b, x, r = sm.CreateColVector(), sm.CreateColVector(), sm.CreateColVector()
            g = rng.standard_normal(len(nv(b)))
            o = []
            for f in (sm.Smooth, sm.SmoothBack):
                nv(b)[:] = g; nv(x)[:] = 0; nv(r)[:] = 0
                f(x, b, r, False, False, True)
                o.append(nv(x).copy())
            self.s.append(np.concatenate(o))
        b = P.a.mat.CreateColVector(); x = P.a.mat.CreateColVector()
        nv(b)[:] = rng.standard_normal(len(nv(b)))
        pc.Mult(b, x)
        self.x = nv(x).copy()


def same(a, b): return a.shape == b.shape and np.isfinite(b).all() and np.abs(a - b).max(initial=0) <= 1e-9 * max(np.abs(a).max(initial=0), 1e-300)


def setup(P0, prob, flags):
    """None: refused (no coarse level)"""
    if "disc" in prob:
        S = pc14.Stokes(prob)
        try: return Sig(S, S.make(flags))
        except Reject: return None
    P = Problem(prob)
    try: pc = make_or_refuse(P, flags)
    except Reject: return None
    except Exception as e:
        if "Jacobi for block-size" in str(e): raise Reject("refused: Jacobi for large blocks")
        raise
    return Sig(P, pc)


def equal(a, b, fa, fb):
    need((a is None) == (b is None), "one of the equivalent flag sets is refused: %s and %s" % (fa, fb))
    if a is None: raise Reject("refused")
    need(a.size == b.size, "level sizes %s with %s, %s with %s" % (a.size, fa, b.size, fb))
    for l in range(a.n - 1):
        need(same(a.p[l], b.p[l]), "prolongation to level %d differs between %s and %s" % (l, fa, fb))
        need(same(a.s[l], b.s[l]), "smoother on level %d differs between %s and %s" % (l, fa, fb))
    need(same(a.x, b.x), "operator differs between %s and %s" % (fa, fb))


def prefix_equal(a, b, k, fa, fb):
    """everything above the grid transfer of level k agrees"""
    if a is None or b is None:
        need(k == 0, "one of the flag sets is refused, they only differ from level %d on: %s and %s" % (k, fa, fb)); return
    need(min(a.n - 1, k) == min(b.n - 1, k), "%d and %d levels with flags that agree on levels below %d: %s and %s" % (a.n, b.n, k, fa, fb))
    for l in range(min(a.n - 1, b.n - 1, k)):
        need(a.size[l + 1] == b.size[l + 1] and same(a.p[l], b.p[l]), "prolongation to level %d differs, the flags agree on levels below %d: %s and %s" % (l, k, fa, fb))


def run_spec(c):
    """list = single value, list past its end = default, entries beyond the list, locality"""
    prob, base, name, vals, d = c["prob"], dict(c["base"]), c["name"], c["vals"], c["d"]
    base["max_coarse_size"] = c["mcs"]
    if name in MIS and name not in CRS: base["crs_alg"] = "mis"
    sp = name + "_spec"
    f1 = dict(base, **{name: d, sp: vals})
    ref = setup(None, prob, f1)
    cl = ["opt:" + name]
    # the default of the entries past the end of the list
    f2 = dict(base, **{name: c["other"], sp: vals + [d] * (14 - len(vals))})
    equal(ref, setup(None, prob, f2), f1, f2)
    # the same value everywhere
    f3 = dict(base, **{name: d}); f4 = dict(base, **{name: c["other"], sp: [d] * 14})
    u = setup(None, prob, f3)
    equal(u, setup(None, prob, f4), f3, f4)
    # levels before the first different entry
    k = next((k for k, v in enumerate(vals) if v != d), len(vals))
    if name in SMO or name == "sm_type_range":
        need(ref.size == u.size, "%s changed the level sizes" % name)
        for l in range(ref.n - 1):
            need(same(ref.p[l], u.p[l]), "%s changed the prolongation to level %d" % (name, l))
            if (vals[l] if l < len(vals) else d) == d:
                need(same(ref.s[l], u.s[l]), "smoother on level %d is not that of %s=%s: %s" % (l, name, d, f1))
        for v in sorted(set(vals) - {d}, key=str):
            f5 = dict(base, **{name: v})
            w = setup(None, prob, f5)
            for l in range(min(ref.n - 1, len(vals))):
                if vals[l] == v: need(same(ref.s[l], w.s[l]), "smoother on level %d is not that of %s=%s: %s" % (l, name, v, f1))
    else:
        prefix_equal(ref, u, k, f1, f3)
        # entry j decides about level j: change all entries from j on
        j = c["j"] % (len(vals) + 1)
        f6 = dict(base, **{name: c["other"], sp: vals[:j]})
        prefix_equal(ref, setup(None, prob, f6), j, f1, f6)
    ml = c["base"].get("max_levels", 99)
    need(ref.n <= ml, "%d levels" % ref.n)
    changed = sum(1 for l in range(min(ref.n - 1, u.n - 1)) if not same(ref.p[l], u.p[l]) or not same(ref.s[l], u.s[l]))
    if changed: cl.append("eff:" + name)
    cl.append("levels=%d" % ref.n)
    return dict(nontrivial=ref.n > 2, classes=cl)


def run_effect(c):
    """options with an unmistakable effect on one level take effect there"""
    prob = c["prob"]
    base = dict(c["base"], max_coarse_size=1)
    k, kind = c["k"], c["kind"]
    u = setup(None, prob, base)
    if u is None or u.n < k + 2: raise Reject("too few levels")
    def agg(g, l):              # sizes of the agglomerates of a piecewise prolongation
        Pl = g.H.prol(l)
        nb = _entry(Pl, g.size, prob, l)
        cols = (np.abs(Pl).reshape(Pl.shape[0], -1, nb).max(axis=2) > 0)
        fine = Pl.shape[0] // nb if l else prob_verts(prob)
        if prob.get("compound") and not l: return cols.reshape(-1, fine, cols.shape[1]).any(axis=0).sum(axis=0)
        return cols.reshape(fine, -1, cols.shape[1]).any(axis=1).sum(axis=0)
    base["prol_type"] = "piecewise"
    if kind in ("stop", "stopalg"):     # no connection is strong enough on level k: nothing is merged there
        f = dict(base, crs_alg="mis", edge_thresh_spec=[0.025] * k + [1e6]) if kind == "stop" else dict(base, edge_thresh=1e6, crs_alg_spec=["spw"] * k + ["mis"])
        f0 = dict(f, edge_thresh_spec=[]) if kind == "stop" else dict(f, crs_alg_spec=[])
        u = setup(None, prob, f0)
        if u is None or u.n < k + 2: raise Reject("too few levels")
        try:
            P = Problem(prob)
            g = Sig(P, P.make_pc(f))
        except Exception as e:
            if "coarse levels" not in str(e): raise
            g = None
        if g is None: need(k == 0, "refused: %s" % f)
        elif g.n > k + 1:       # only hanging vertices may still be merged
            if few_neibs(g, k, prob): raise Reject("hanging vertices")
            m = agg(g, k)
            need(m.mean() <= 1.5, "agglomerates of %g vertices on level %d where coarsening is switched off: %s" % (m.mean(), k, f))
        if k: prefix_equal(g, u, k, f, f0)
        return dict(nontrivial=k > 0, classes=[kind, "k=%d" % k])
    base.pop("prol_type")
    if kind == "piecewise":     # exactly the levels asked for are piecewise constant
        pt = ["piecewise" if (c["mask"] >> l) & 1 else "semi_aux_smoothed" for l in range(10)]
        f = dict(base, prol_type_spec=pt)
        g = setup(None, prob, f)
        sm = 0
        for l in range(g.n - 1):
            Pl = g.H.prol(l)
            nb = _entry(Pl, g.size, prob, l)
            rows = (np.abs(Pl).reshape(Pl.shape[0], -1, nb).max(axis=2) > 0).sum(axis=1)
            if pt[l] == "piecewise": need(rows.max(initial=0) <= 1, "prolongation to level %d is not piecewise: %s" % (l, f))
            else: sm += rows.max(initial=0) > 1
        return dict(nontrivial=g.n > 2, classes=["piecewise"] + (["smoothed"] if sm else []))
    if kind == "rows":          # number of coarse vertices per row
        mp = [1 + (c["mask"] >> (2 * l)) % 4 for l in range(10)]
        f = dict(base, prol_type="aux_smoothed", sp_max_per_row=9, sp_max_per_row_spec=mp, sp_max_per_row_classic=9, sp_max_per_row_classic_spec=mp)
        g = setup(None, prob, f)
        for l in range(g.n - 1):
            Pl = g.H.prol(l)
            nb = _entry(Pl, g.size, prob, l)
            rows = (np.abs(Pl).reshape(Pl.shape[0], -1, nb).max(axis=2) > 0).sum(axis=1)
            need(rows.max(initial=0) <= max(1, mp[l]), "%d coarse vertices in a row of the prolongation to level %d, %d allowed: %s" % (rows.max(), l, mp[l], f))
        return dict(nontrivial=g.n > 2, classes=["rows"])
    if kind == "omega":         # without relaxation the prolongation is the piecewise one
        f = dict(base, sp_omega_spec=[0.0 if (c["mask"] >> l) & 1 else 1.0 for l in range(10)], prol_type="aux_smoothed")
        g = setup(None, prob, f)
        for l in range(g.n - 1):
            if not (c["mask"] >> l) & 1: continue
            Pl = g.H.prol(l)
            nb = _entry(Pl, g.size, prob, l)
            rows = (np.abs(Pl).reshape(Pl.shape[0], -1, nb).max(axis=2) > 1e-12 * np.abs(Pl).max()).sum(axis=1)
            need(rows.max(initial=0) <= 1, "prolongation to level %d is smoothed, omega is 0 there: %s" % (l, f))
        return dict(nontrivial=g.n > 2, classes=["omega"])


def few_neibs(g, l, prob):
    """some vertex that is not dropped has less than two neighbours that are not dropped"""
    Pl = g.H.prol(l)
    nb = _entry(Pl, g.size, prob, l)
    A = np.abs(np.asarray(g.H.A(l)))
    n = Pl.shape[0] // nb if l else prob_verts(prob)
    if A.shape[0] != Pl.shape[0]: return True
    own = np.arange(A.shape[0]) * n // A.shape[0] if prob.get("compound") and not l else np.arange(A.shape[0]) // (A.shape[0] // n)
    G = np.zeros((n, n), bool)
    r, c = np.nonzero(A)
    G[own[r], own[c]] = True
    act = np.zeros(n, bool)
    act[own[np.abs(Pl).max(axis=1) > 0]] = True
    np.fill_diagonal(G, False)
    return bool((G[np.ix_(act, act)].sum(axis=1) < 2).any()) or act.sum() < 6


def prob_verts(prob):
    from .. import meshes
    return meshes.build(prob["mesh"]).nv


def _entry(Pl, size, prob, l):
    d = prob["mesh"]["dim"]
    return 1 if prob["pde"] == "h1" else prob.get("dim", 2) if prob["pde"] == "h1v" else d + d * (d - 1) // 2


MISB = dict(crs_alg="mis")
ALIVE = dict(crs_alg=({}, "spw", "mis"), spw_rounds=({}, 1, 3), spw_pick_robust=({}, False, True), spw_pick_avg=({}, "min", "max"), edge_thresh=(MISB, 0.01, 0.4),
             mis_dist2=(MISB, False, True), mis_neib_boost=(MISB, False, True), mis_lazy_neib_boost=(dict(crs_alg="mis", mis_neib_boost=True), False, True), mis_ecw_minmax=(MISB, False, True),
             mis_ecw_geom=(MISB, False, True), ecw_geom=(MISB, False, True), mis_minmax_avg=(dict(crs_alg="mis", mis_ecw_minmax=True), "min", "max"),
             prol_type=({}, "piecewise", "semi_aux_smoothed"), sp_min_frac=({}, 0.01, 0.4), sp_max_per_row=(dict(prol_type="aux_smoothed"), 1, 4),
             sp_max_per_row_classic=({}, 1, 5), sp_omega=({}, 0.3, 1.0), sp_improve_its=({}, 0, 1))


def alive_problem(rng):
    n = [int(x) for x in rng.integers(12, 20, 2)]
    m = dict(dim=2, n=n, simplex=bool(rng.random() < 0.7), amp=0.5, jig=int(rng.integers(10**6)), nmat=3, mats=[int(x) for x in rng.integers(0, 3, 7)])
    if m["simplex"]: m["flip"] = int(rng.integers(10**6))
    return dict(mesh=m, pde="h1", diri=["left"], coef=[1.0, 10.0, 0.1])


def run_alive(c):
    """every option that is read on a level changes something there, for one of many irregular problems"""
    name, k = c["name"], c["k"]
    base, a, b = ALIVE[name]
    base = dict(base, max_coarse_size=1)
    rng = np.random.default_rng(c["seed"])
    for t in range(40):
        prob = alive_problem(rng)
        f = [dict(base, **{name: a, name + "_spec": [a] * k + [v]}) for v in (a, b)]
        x, y = [setup(None, prob, g) for g in f]
        prefix_equal(x, y, k, *f)
        if x is None or y is None or x.n < k + 2 or y.n < k + 2: continue
        if x.size[k + 1] != y.size[k + 1] or not same(x.p[k], y.p[k]): return dict(nontrivial=True, classes=["alive:%s:%d:%d" % (name, k, t)])
    raise Violation("%s=%s on level %d makes no difference to %s, for 40 problems" % (name, b, k, a))


def run_parse(c):
    """spelling of values"""
    prob, base = c["prob"], dict(c["base"])
    base["max_coarse_size"] = c["mcs"]
    a, b = dict(base), dict(base)
    kind, name = c["kind"], c["name"]
    v = c["v"]
    if kind == "intfloat":
        name = c["iname"]; v = c["iv"]
        a[name] = v; b[name] = float(v)
    elif kind == "listtype":
        name = c["iname"]; v = c["iv"]
        a[name + "_spec"] = [v, 1]; b[name + "_spec"] = [float(v), 1.0]
    elif kind == "boollist":
        name = c["bname"]
        a[name + "_spec"] = [bool(x) for x in c["bl"]]; b[name + "_spec"] = [float(x) for x in c["bl"]]
    elif kind == "unknown":       # an unknown name leaves the default
        name = c["sname"]
        b[name] = c["junk"]
    elif kind == "unknownspec":
        name = c["sname"]
        a[name + "_spec"] = [c["dflt"][name], c["good"][name]]; b[name + "_spec"] = [c["junk"], c["good"][name]]
    elif kind == "default":       # giving the default is giving nothing
        name = c["sname"]
        a.pop(name, None); b[name] = c["dflt"][name]
    elif kind == "dist2":         # the library default of this option is a list
        a["crs_alg"] = b["crs_alg"] = "mis"
        b["mis_dist2_spec"] = [True]
    elif kind == "extra":
        b["nosuchoption_" + c["junk"]] = 3; b["nosuchlist_spec"] = [1, 2]; b["nosuchstring"] = c["junk"]
    elif kind == "empty":
        b[c["bname"] + "_spec"] = []; b[c["sname"] + "_spec"] = []
    elif kind == "bare":          # without the prefix of the library the options are those of somebody else
        pass
    ra = setup(None, prob, a)
    if kind == "bare":
        P = Problem(prob)
        import NgsAMG
        from ..problem import amgflags
        try: pc = getattr(NgsAMG, P.pcname)(P.a, **dict(amgflags(dict(a, **({"rots": True} if prob.get("rots") else {}))), **{c["iname"]: c["iv"], c["sname"]: c["good"][c["sname"]], c["bname"]: c["bl"][0] > 0}))
        except Exception as e: raise Violation("refused options without prefix: %s" % e)
        try: P.a.Assemble(); rb = Sig(P, pc)
        except Exception as e:
            if "coarse levels" not in str(e): raise
            rb = None
    else: rb = setup(None, prob, b)
    equal(ra, rb, a, b)
    return dict(nontrivial=ra.n > 2, classes=["parse:" + kind])


@st.composite
def spec_case(draw):
    prob = draw(gen.problem(lo=3, hi2=10, hi3=4, orders=(1, 1, 1, 2), span=2))
    tab = draw(gen.choice(SMO, SMO, CRS, CRS, MIS, PROL, PROL, ROT if prob["pde"] == "elast" else PROL))
    name = draw(gen.choice(*sorted(tab)))
    v = gen.choice(*tab[name])
    base = {}
    # also other options, single or as list, on both sides
    for t in (SMO, CRS, PROL):
        if draw(st.booleans()): continue
        n2 = draw(gen.choice(*sorted(t)))
        if n2 == name or n2 == "crs_alg": continue
        if draw(st.booleans()): base[n2] = draw(gen.choice(*t[n2]))
        else: base[n2 + "_spec"] = draw(st.lists(gen.choice(*t[n2]), min_size=1, max_size=3))
    return dict(prob=prob, name=name, vals=draw(st.lists(v, min_size=1, max_size=4)), d=draw(v), other=draw(v), j=draw(gen.ints(0, 4)), base=base,
                mcs=draw(gen.choice(1, 1, 3)))


# Stokes: the block smoothers are those of the H(div) space; sm_type_pot: only one kind works (known finding of C14);
# the Stokes preconditioners have no repeated or symmetrised smoothing (sm_steps, sm_symm are not used)
ST_SMO = dict(nc=dict(sm_type=("gs", "hiptmair")), hdiv=dict(sm_type=("gs", "bgs", "hiptmair"), sm_type_range=("gs", "bgs")))
ST_CRS = dict(crs_alg=("spw", "mis"), spw_rounds=(1, 2, 3), edge_thresh=(0.01, 0.05, 0.25), mis_dist2=B, mis_neib_boost=B, spw_pick_robust=B, spw_neib_boost=B)


@st.composite
def stokes_case(draw):
    disc = draw(gen.choice("nc", "nc", "hdiv"))
    prob = draw(pc14.stokes(disc))
    prob["coef"] = [min(v, 10.0) for v in prob["coef"]]
    prob["lam"] = min(prob["lam"], 1.0)
    prob["flags"] = {}
    smo = ST_SMO[disc]
    tab = draw(gen.choice(smo, smo, ST_CRS))
    name = draw(gen.choice(*sorted(tab)))
    base = {}
    for t in (smo, ST_CRS):
        n2 = draw(gen.choice("", *sorted(t)))
        if not n2 or n2 == name: continue
        if draw(st.booleans()): base[n2] = draw(gen.choice(*t[n2]))
        else: base[n2 + "_spec"] = draw(st.lists(gen.choice(*t[n2]), min_size=1, max_size=3))
    if name == "sm_type_range": base = dict(sm_type="hiptmair")
    if name in ("spw_rounds", "spw_pick_robust", "spw_neib_boost"): base["crs_alg"] = "spw"
    v = gen.choice(*tab[name])
    return dict(prob=prob, name=name, vals=draw(st.lists(v, min_size=1, max_size=4)), d=draw(v), other=draw(v), j=draw(gen.ints(0, 4)), base=base, mcs=draw(gen.choice(1, 1, 3)))


@st.composite
def effect_case(draw):
    prob = draw(gen.problem(lo=4, hi2=11, hi3=4, mass=False, need_diri=True, span=1))
    return dict(prob=prob, kind=draw(gen.choice("stop", "stopalg", "piecewise", "rows", "omega")), k=draw(gen.ints(0, 3)), mask=draw(gen.ints(0, 2**20 - 1)),
                base=draw(gen.choice({}, {"spw_rounds": 1}, {"spw_rounds": 2})))


DFLT = dict(sm_type="gs", crs_alg="spw", prol_type="semi_aux_smoothed", spw_pick_avg="geom", mg_cycle="V")
@st.composite
def parse_case(draw):
    prob = draw(gen.problem(lo=3, hi2=9, hi3=3, orders=(1, 1, 1, 2), span=2))
    good = {k: draw(gen.choice(*v)) for k, v in dict(sm_type=("bgs", "gs"), crs_alg=("mis", "spw"), prol_type=("piecewise", "aux_smoothed"), spw_pick_avg=AVG).items()}
    good["mg_cycle"] = "W"
    kind = draw(gen.choice("intfloat", "listtype", "boollist", "unknown", "unknownspec", "default", "dist2", "extra", "empty", "bare"))
    sn = draw(gen.choice(*sorted(DFLT)))
    if kind in ("unknownspec", "empty") and sn == "mg_cycle": sn = "sm_type"
    return dict(prob=prob, kind=kind, name="", v=0, sname=sn, iname=draw(gen.choice("sm_steps", "spw_rounds", "sp_max_per_row", "sp_improve_its")), iv=draw(gen.choice(1, 2, 3)),
                bname=draw(gen.choice("sm_symm", "spw_neib_boost", "spw_orphan_treatment", "spw_pick_robust")), bl=draw(st.lists(gen.ints(0, 1), min_size=1, max_size=3)),
                junk=draw(gen.choice("foo", "GS", "", "Piecewise", "1", "spw2", "bgs ")), good=good, dflt=DFLT, mcs=draw(gen.choice(1, 3)), base={})


SUBS = [Sub("spec", spec_case(), run_spec, quick=1200, thorough=40000, shards=8, rule="three levels", min_nontrivial=200),
        Sub("stokes", stokes_case(), run_spec, quick=1200, thorough=40000, shards=8, rule="three levels", min_nontrivial=80),
        Sub("effect", effect_case(), run_effect, quick=700, thorough=20000, shards=8, rule="option of a level other than the finest, or three levels", min_nontrivial=80),
        Sub("alive", st.fixed_dictionaries(dict(name=gen.choice(*sorted(ALIVE)), k=gen.ints(0, 1), seed=gen.seeds)), run_alive, quick=120, thorough=3000, shards=8,
            rule="the option was seen to act", min_nontrivial=30),
        Sub("parse", parse_case(), run_parse, quick=500, thorough=15000, shards=8, rule="three levels", min_nontrivial=80)]
ASSUMPTIONS = ["serial", "at most about 120 vertices"]
