"""Hypothesis strategies for JSON cases (import after core so that hypothesis is on the path)."""
from . import core  # noqa (path)
from hypothesis import strategies as st
from .meshes import SIDES

ints = st.integers
seeds = st.integers(0, 2**31 - 1)


def choice(*xs): return st.sampled_from(list(xs))


@st.composite
def mesh2(draw, lo=1, hi=11, holes=True, quads=True, nmat=3, anis=True):
    n = [draw(ints(lo, hi)), draw(ints(lo, hi))]
    sp = dict(dim=2, n=n)
    sp["simplex"] = draw(st.booleans()) if quads else True
    if sp["simplex"] and draw(st.booleans()): sp["flip"] = draw(ints(1, 10**6))
    if draw(st.booleans()):
        sp["amp"] = draw(choice(0.1, 0.3, 0.5)); sp["jig"] = draw(ints(0, 10**6))
    if anis and draw(st.booleans()): sp["scale"] = [draw(choice(1.0, 2.0, 8.0)), draw(choice(1.0, 0.5))]
    if holes and draw(ints(0, 3)) == 0:
        sp["holes"] = draw(st.lists(ints(0, n[0] * n[1] - 1), max_size=max(1, n[0] * n[1] // 4), unique=True))
    if nmat > 1 and draw(st.booleans()):
        sp["nmat"] = draw(ints(2, nmat))
        sp["mats"] = draw(st.lists(ints(0, nmat - 1), min_size=1, max_size=8))
    return sp


@st.composite
def mesh3(draw, lo=1, hi=4, holes=True, hexes=True, nmat=3, anis=True):
    lo = min(lo, hi)
    n = [draw(ints(lo, hi)), draw(ints(lo, hi)), draw(ints(lo, hi))]
    sp = dict(dim=3, n=n)
    sp["simplex"] = draw(st.booleans()) if hexes else True
    if draw(st.booleans()):
        sp["amp"] = draw(choice(0.1, 0.25)); sp["jig"] = draw(ints(0, 10**6))
    if anis and draw(st.booleans()): sp["scale"] = [draw(choice(1.0, 2.0, 6.0)), 1.0, draw(choice(1.0, 0.5))]
    if holes and draw(ints(0, 3)) == 0:
        nc = n[0] * n[1] * n[2]
        sp["holes"] = draw(st.lists(ints(0, nc - 1), max_size=max(1, nc // 4), unique=True))
    if nmat > 1 and draw(st.booleans()):
        sp["nmat"] = draw(ints(2, nmat))
        sp["mats"] = draw(st.lists(ints(0, nmat - 1), min_size=1, max_size=8))
    return sp


def _coefs(draw, mesh, span):
    nm = mesh.get("nmat", 1)
    return [10.0 ** draw(ints(-span, span)) for _ in range(nm)]


@st.composite
def problem(draw, pdes=("h1", "h1v", "elast"), dims=(2, 3), orders=(1,), span=3, hi2=11, hi3=4, lo=1, holes=True, need_diri=False,
            compound=True, rots=True, nonsimplex=True, mass=True, nodalp2=False, elim=False, sub=False):
    dim = draw(choice(*dims))
    order = draw(choice(*orders))
    pde = draw(choice(*pdes))
    big = order > 1
    if dim == 2:
        m = draw(mesh2(lo=lo, hi=min(hi2, 6) if big else hi2, holes=holes, quads=nonsimplex))
    else:
        m = draw(mesh3(lo=lo, hi=(2 if big else hi3) if pde != "elast" else (2 if big else min(hi3, 3)), holes=holes, hexes=nonsimplex))
    p = dict(mesh=m, pde=pde)
    if order > 1: p["order"] = order
    sides = SIDES[dim][:2 * dim]
    p["diri"] = draw(st.lists(choice(*sides), min_size=1 if need_diri else 0, max_size=3, unique=True))
    if m.get("nmat", 1) > 1: p["coef"] = _coefs(draw, m, span)
    if pde == "h1v":
        p["dim"] = draw(choice(2, 3))
        if compound and p["dim"] == dim: p["compound"] = draw(st.booleans())
    if pde == "elast":
        if compound: p["compound"] = draw(st.booleans())
        if rots and draw(ints(0, 2)) == 0:
            p["rots"] = True
            if dim == 3: p["compound"] = True
        if draw(st.booleans()): p["lam"] = draw(choice(0.5, 2.0, 10.0))
    if mass and not (pde == "elast" and p.get("rots")):
        if not p["diri"] or draw(ints(0, 3)) == 0:
            p["mass"] = draw(choice(1.0, 0.01, 100.0))
    elif not p["diri"]:
        p["diri"] = [sides[0]]
    if order > 1 and nodalp2 and draw(st.booleans()): p["nodalp2"] = True
    if elim and draw(st.booleans()): p["elim"] = True
    nm = m.get("nmat", 1)
    if sub and nm > 1 and draw(ints(0, 2)) == 0: p["sub"] = sorted(draw(st.lists(ints(0, nm - 1), min_size=1, max_size=nm - 1, unique=True)))
    return p


@st.composite
def graph(draw, hi=60, wts=("int", "log", "one")):
    """matrix interface: weighted graph Laplacian"""
    return dict(pde="graph", mesh=dict(dim=0), g=dict(n=draw(ints(2, hi)), seed=draw(seeds), kind=draw(choice("path", "grid", "tree", "random", "star", "complete", "parts")), pin=draw(st.booleans()),
                fix=draw(choice(0.0, 0.05, 0.2, 0.5)), wt=draw(choice(*wts))))


GS_FLAGS = dict(
    sm_type=choice("gs", "bgs", "dyn_block_gs"),
    sm_symm=st.booleans(),
    sm_symm_loc=st.booleans(),
    sm_steps=choice(1, 2, 3),
    sm_steps_loc=choice(1, 2, 3),
    sm_shm=st.booleans(),
    sm_sl2=st.booleans(),
    keep_grid_maps=st.booleans(),
    sm_type_spec=st.lists(choice("gs", "bgs", "dyn_block_gs"), min_size=1, max_size=3),
    sm_steps_spec=st.lists(choice(1, 2, 3), min_size=1, max_size=3),
    sm_symm_spec=st.lists(choice(0, 1), min_size=1, max_size=3),
)
CRS_FLAGS = dict(
    max_coarse_size=choice(1, 2, 5, 10, 20),
    max_levels=choice(2, 3, 4, 10),
    crs_alg=choice("mis", "spw"),
    crs_alg_spec=st.lists(choice("mis", "spw"), min_size=1, max_size=3),
    enable_multistep=st.booleans(),
    enable_dyn_crs=st.booleans(),
    aaf=choice(0.025, 0.1, 0.3),
    first_aaf=choice(0.05, 0.2),
    ecw_geom=st.booleans(),
    crs_robust=st.booleans(),
    mis_dist2=st.booleans(),
    mis_neib_boost=st.booleans(),
    mis_lazy_neib_boost=st.booleans(),
    mis_minmax_avg=choice("min", "geom", "harm", "alg", "max"),
    spw_rounds=choice(1, 2, 3, 4),
    spw_neib_boost=st.booleans(),
    spw_cbs=st.booleans(),
    spw_pick_robust=st.booleans(),
    spw_orphan_treatment=st.booleans(),
    edge_thresh=choice(0.01, 0.05, 0.25),
    vert_thresh=choice(0.01, 0.9),
)
PROL_FLAGS = dict(
    prol_type=choice("piecewise", "aux_smoothed", "semi_aux_smoothed"),
    prol_type_spec=st.lists(choice("piecewise", "aux_smoothed", "semi_aux_smoothed"), min_size=1, max_size=3),
    sp_omega=choice(0.5, 0.7, 1.0),
    sp_max_per_row=choice(1, 2, 3, 4, 6),
    sp_min_frac=choice(0.01, 0.08, 0.15),
    sp_improve_its=choice(0, 1, 2),
    sp_use_roots=st.booleans(),
)
CYC_FLAGS = dict(mg_cycle=choice("V", "W", "BS"), clev=choice("inv", "inv", "inv", "none", "sm"))
MISC = dict(regularize_cmats=st.booleans(), energy=choice("alg", "triv", "elmat"), topology=choice("alg", "mesh", "elmat"),
            log_level=choice("none"), smooth_lo_only=st.booleans(), cinv_type_loc=choice("pardiso", "sparsecholesky", "pardisospd"))


@st.composite
def flags(draw, groups=(GS_FLAGS, CRS_FLAGS, PROL_FLAGS), maxn=6, drop=()):
    allf = {}
    for g in groups: allf.update(g)
    for d in drop: allf.pop(d, None)
    names = draw(st.lists(choice(*sorted(allf)), max_size=maxn, unique=True))
    d = {k: draw(allf[k]) for k in names}
    if "max_coarse_size" not in d: d["max_coarse_size"] = draw(choice(2, 5))
    return d
