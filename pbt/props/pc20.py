"""C20: every problem with every combination of options is handled or refused, never a crash, a hang or NaN."""
import numpy as np
import ngsolve as ng
import os, tempfile
from ..core import Sub
from ..util import *
from .. import gen
from ..problem import Problem, amgflags
from hypothesis import strategies as st
from ..gen import choice, ints

B = st.booleans()
AVG = choice("min", "geom", "harm", "alg", "max")
SM = choice("gs", "bgs", "jacobi", "dyn_block_gs", "hiptmair", "amg_smoother", "nonsense")
PT = choice("piecewise", "aux_smoothed", "semi_aux_smoothed", "nonsense")
LOG = choice("none", "basic", "normal", "extra", "debug")
BOOLS = """spw_pick_robust spw_neib_boost spw_cbs spw_big_soc_robust spw_orphan_treatment spw_big_soc_bdiag spw_print_params spw_print_summ
 mis_neib_boost mis_lazy_neib_boost mis_ecw_minmax mis_dist2 mis_ecw_geom crs_robust agg_print_aggs agg_print_vmap ecw_stab_hack check_isolated_vertices
 sm_symm sm_symm_loc sm_NG_MPI_overlap sm_NG_MPI_thread sm_shm sm_sl2 smooth_lo_only regularize_cmats faflm print_log_pc print_log enable_multistep enable_dyn_crs
 keep_grid_maps check_kvecs improve_avgs ecw_geom sp_use_roots sp_use_asb improve_c_aux_mats use_aux_mat check_aux_mats lo force_nolo sm_use_fes_blocks
 smooth_after_emb calc_elmat_evs do_test test_2level test_levels test_smoothers use_emb_sp""".split()
# every documented option: ordinary values, and values at and beyond the edge of what makes sense
OPT = {k: B for k in BOOLS}
OPT.update(
    mg_cycle=choice("V", "W", "BS", "X"), clev=choice("inv", "sm", "none"), cinv_type=choice("masterinverse", "mumps"),
    cinv_type_loc=choice("pardiso", "pardisospd", "sparsecholesky", "superlu", "superlu_dist", "mumps", "umfpack", "nonsense"),
    sm_type=SM, sm_steps=choice(0, 1, 2, 5), sm_steps_loc=choice(0, 1, 3), energy=choice("triv", "alg", "elmat"), log_level=LOG, log_level_pc=LOG,
    log_file=choice("@"), log_file_pc=choice("@"), topology=choice("alg", "mesh", "elmat"), vpos=choice("vertex", "given"), dof_ordering=choice("regular", "p2Emb"),
    aux_elmat_version=choice(0, 1, 2, 7), on_dofs=choice("range", "select"), subset=choice("free", "nodalp2", "nonsense"), lower=choice(-1, 0, 3, 100000), upper=choice(-1, 0, 5, 100000),
    spw_rounds=choice(0, 1, 3, 8), spw_diag_stab_boost=choice(0.0, 0.5, 2.0), spw_big_soc_hack_thresh=choice(0.0, 0.3), spw_pick_avg=AVG, mis_minmax_avg=AVG,
    edge_thresh=choice(0.0, 0.01, 0.5, 5.0), vert_thresh=choice(0.0, 0.01, 0.9, 5.0), crs_alg=choice("mis", "spw", "plate_test", "nonsense"),
    max_levels=choice(0, 1, 2, 3, 100), max_coarse_size=choice(0, 1, 5, 100000), min_coarse_size=choice(0, 3, 100000), aaf=choice(0.0, 0.05, 0.9, 1.0), first_aaf=choice(0.0, 0.05, 0.9),
    sp_min_frac=choice(0.0, 0.1, 1.0), sp_max_per_row=choice(0, 1, 2, 9, 100), sp_max_per_row_classic=choice(0, 1, 5, 100), sp_omega=choice(0.0, 0.5, 1.0, 1.9), sp_improve_its=choice(0, 1, 4),
    rot_scale=choice(0.0, 0.1, 1.0, 10.0), prol_type=PT,
)
SPEC = {k: OPT[k] for k in OPT if k in ("sm_type", "crs_alg", "prol_type", "spw_pick_avg", "mis_minmax_avg")}
for k in ("sm_steps", "sm_steps_loc", "spw_rounds", "spw_diag_stab_boost", "spw_big_soc_hack_thresh", "edge_thresh", "vert_thresh", "sp_min_frac", "sp_max_per_row", "sp_max_per_row_classic", "sp_omega",
          "sp_improve_its", "rot_scale"): SPEC[k] = OPT[k]
for k in BOOLS:
    if k.startswith(("spw_", "mis_", "sp_", "sm_symm", "crs_rob", "ecw", "improve", "check_iso", "check_aux", "agg_")): SPEC[k] = choice(0, 1)
ALL = dict(OPT)
for k, v in SPEC.items(): ALL[k + "_spec"] = st.lists(v, min_size=0, max_size=4)
NAMES = sorted(ALL)


# options that only make sense together
RECIPES = [{}, {}, {}, dict(lo=False, force_nolo=True, dof_ordering="p2Emb"), dict(lo=False, force_nolo=True), dict(on_dofs="select", subset="nodalp2"), dict(on_dofs="select", subset="free"),
           dict(keep_grid_maps=True, sm_type="bgs"), dict(smooth_after_emb=True, use_emb_sp=True),
           dict(lower=[0, 2], upper=[2, 9]), dict(lower=[4, 0], upper=[9, 4]), dict(lower=[0, 3], upper=[6, 9]), dict(lower=[0, 3], upper=[3])]


@st.composite
def flags(draw, always=None, maxn=7):
    fl = {k: draw(v) for k, v in (always or {}).items()}
    fl.update(draw(st.sampled_from(RECIPES)))
    for k in draw(st.lists(st.sampled_from(NAMES), max_size=maxn, unique=True)): fl[k] = draw(ALL[k])
    return fl


def definite(P):
    """well-posed on its free unknowns, by the eigenvalues"""
    f = P.free
    if not f.any() or len(f) > 1500: return False
    A = dense(P.a.mat)[np.ix_(f, f)]
    if not np.isfinite(A).all(): return False
    d = np.diag(A)
    if (d <= 0).any(): return False
    s = 1 / np.sqrt(d)
    w = np.linalg.eigvalsh(A * s[:, None] * s)
    return w[0] > 1e-9 * w[-1]


def use(P, pc, fin, seed):
    """apply everything once; fin: all results have to be finite"""
    rng = np.random.default_rng(seed)
    b, x = P.a.mat.CreateColVector(), P.a.mat.CreateColVector()
    for f in ("Mult", "MultAdd", "MultTrans"):
        nv(b)[:] = rng.standard_normal(len(nv(b))); nv(x)[:] = 0
        try: getattr(pc, f)(*((b, x) if f == "Mult" else (0.5, b, x)))
        except Exception:
            if f == "MultTrans": continue                          # not every smoother can do that
            raise
        if fin: need(np.isfinite(nv(x)).all(), "%s gives %d values that are not finite" % (f, int((~np.isfinite(nv(x))).sum())))
    n = pc.GetNLevels(0)
    out = []
    for l in range(n): out.append(pc.GetNDBS(l))
    amg = pc.GetAMGMatrix()
    m = amg.GetMap()
    for l in range(m.GetNLevels() - 1):
        u, v = m.CreateVector(l), m.CreateVector(l + 1)
        nv(u)[:] = 1.0
        s = m.GetStep(l)
        s.F2C(u, v); s.C2F(u, v)
        if fin: need(np.isfinite(nv(u)).all(), "grid transfer of level %d gives values that are not finite" % l)
        try: sm = pc.GetSmoother(l)
        except Exception: sm = None
        if sm is not None:
            sb, sx, sr = sm.CreateColVector(), sm.CreateColVector(), sm.CreateColVector()
            nv(sb)[:] = 1.0; nv(sx)[:] = 0; nv(sr)[:] = 0
            sm.Smooth(sx, sb, sr, False, False, True); sm.SmoothBack(sx, sb, sr, False, False, False)
            if fin: need(np.isfinite(nv(sx)).all(), "smoother of level %d gives values that are not finite" % l)
    return n, out


def setup(c, P, fl):
    import NgsAMG
    cls = getattr(NgsAMG, P.pcname)
    feed = c["feed"] if c["prob"]["pde"] != "graph" else "graph"
    if feed == "graph": return P.make_pc(fl, assemble=True)
    F = amgflags(fl)
    if feed == "matrix" and P.pcname.startswith("h1"):
        P.a.Assemble()
        return cls(P.a.mat, P.V.FreeDofs(c["prob"].get("elim", False)), **F)
    if feed == "manual":
        P.a.Assemble()
        pc = cls(P.a, **F)
        pc.InitLevel(P.V.FreeDofs(c["prob"].get("elim", False))); pc.FinalizeLevel(P.a.mat)
        return pc
    if feed == "default":
        P.a.Assemble()
        pc = cls(P.a, **F)
        pc.InitLevel(); pc.FinalizeLevel(P.a.mat)
        return pc
    pc = cls(P.a, **F)
    P.a.Assemble()
    if feed == "twice": P.a.Assemble()
    return pc


def clean(fl, d):
    return {k: (os.path.join(d, k) if v == "@" else v) for k, v in fl.items()}


def run(c):
    ng.ngsglobals.msg_level = 0
    d = tempfile.mkdtemp(prefix="pbtlog")
    try: return run_in(c, d)
    finally:
        for f in os.listdir(d): os.unlink(os.path.join(d, f))
        os.rmdir(d)


def ladder(c, d):
    """the same problem with an ordinary setup afterwards"""
    P = Problem(dict(mesh=dict(dim=2, n=[4, 4], simplex=True), pde="h1", diri=["left"]))
    pc = P.make_pc(dict(max_coarse_size=3))
    b, x = P.a.mat.CreateColVector(), P.a.mat.CreateColVector()
    nv(b)[:] = 1.0
    pc.Mult(b, x)
    v = nv(x)[P.free]
    need(np.isfinite(v).all() and v.sum() > 0, "an ordinary setup afterwards does not work any more")


def run_in(c, d):
    fl = clean(c["flags"], d)
    cl = []
    try:
        P = Problem(c["prob"])
        if c.get("zero") is not None and c["prob"]["pde"] == "graph": degenerate(P, c["zero"])
    except Exception as e:
        raise Reject("problem: %s" % str(e)[:60])
    ok = False
    n = 0
    try:
        pc = setup(c, P, fl)
        n, out = use(P, pc, definite(P) and c.get("zero") is None and fl.get("regularize_cmats") is not False, c["seed"])
        ok = True
        cl.append("levels=%d" % min(n, 5))
    except Violation: raise
    except Exception as e:
        cl.append("refused: " + str(e).split("\n")[0][:40])
    ladder(c, d)
    return dict(nontrivial=ok and n > 1 and len(fl) > 1, classes=cl + (["worked"] if ok else ["refused"]))


def degenerate(P, z):
    """zero rows, zero matrix, negative or tiny or huge entries; the mask may be empty"""
    k, s = z
    rng = np.random.default_rng(s)
    D = P.D.copy(); n = len(D)
    if k == "zerorows":
        m = rng.random(n) < 0.3
        D[m] = 0; D[:, m] = 0
    elif k == "zero": D[:] = 0
    elif k == "diag": D = np.diag(np.diag(D))
    elif k == "nofree": P.mask[:] = False
    elif k == "onefree": P.mask[:] = False; P.mask[int(rng.integers(n))] = True
    elif k == "allfree": P.mask[:] = True
    elif k == "tiny": D *= 1e-250
    elif k == "huge": D *= 1e250
    elif k == "negative": D = -D
    elif k == "positive": D = np.abs(D)
    elif k == "mixed":
        S = rng.standard_normal((n, n)) * (D != 0); D = S + S.T
    elif k == "unsym": D = D * rng.random((n, n))
    P.D[:] = D
    P.a.mat = P.a.make()


KINDS = ("zerorows", "zero", "diag", "nofree", "onefree", "allfree", "tiny", "huge", "negative", "positive", "mixed", "unsym")
base = dict(max_coarse_size=choice(1, 2, 5))
fcase = st.fixed_dictionaries(dict(prob=gen.problem(lo=1, hi2=7, hi3=2, orders=(1, 1, 1, 2, 3), nodalp2=True, elim=True, sub=True), flags=flags(always=base), feed=choice("assemble", "assemble", "twice", "matrix", "manual", "default"), seed=gen.seeds))
gcase = st.fixed_dictionaries(dict(prob=gen.graph(hi=40), flags=flags(always=base), feed=choice("graph"), seed=gen.seeds, zero=st.one_of(st.none(), st.tuples(choice(*KINDS), gen.seeds).map(list))))
SUBS = [Sub("options", fcase, run, quick=1200, thorough=60000, shards=8, rule="set up with at least two levels and at least two options", min_nontrivial=100),
        Sub("matrices", gcase, run, quick=1200, thorough=60000, shards=8, rule="set up with at least two levels and at least two options", min_nontrivial=100)]
ASAN = True
ASSUMPTIONS = ["a refusal is a Python exception; its wording is not checked",
               "values have to be finite for matrices that are numerically positive definite on the free unknowns, unless regularisation of coarse matrices is switched off by hand",
               "a case that needs more than 120 s (ordinary: well below 1 s) counts as a hang"]
