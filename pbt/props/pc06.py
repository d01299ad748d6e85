"""C06: smoothers perform the classical sweep, whatever the residual flags say."""
import numpy as np
import ngsolve as ng
from ..core import Sub
from ..util import *
from .. import sp, gen
from ..hier import Hier
from .pc14 import setup_any, stokes_spd
from hypothesis import strategies as st


# ------------------------------------------------------------------ reference
def pinv_sym(D):
    w, U = np.linalg.eigh(0.5 * (D + D.T))
    k = np.abs(w) > 1e-9 * max(np.abs(w).max(initial=0), 1e-300)
    return (U[:, k] / w[k]) @ U[:, k].T


def clear_kernel(D):
    """pseudo inverses are only compared where rank decisions are not a matter of the tolerance"""
    g = np.diag(D)
    w = np.abs(np.linalg.eigvalsh(D))
    for v, lo in ((g, 1e-5), (w, 1e-4)):
        m = v.max(initial=0)
        if ((v > 1e-14 * m) & (v < lo * m)).any(): raise Reject("no clear kernel")


class Sweep:
    """multiplicative sweep: steps = [(dofs, local inverse)] in order"""
    def __init__(self, A, steps):
        self.A, self.steps = A, steps

    def once(self, x, b, back):
        x = x.copy()
        for d, Di in (reversed(self.steps) if back else self.steps):
            x[d] += Di @ (b[d] - self.A[d] @ x)
        return x

    def k(self, n, x, b, back):
        for _ in range(n): x = self.once(x, b, back)
        return x


FLAGS = st.fixed_dictionaries(dict(f=gen.choice("S", "SB", "SK", "SBK"), k=gen.ints(1, 3), ru=st.booleans(), ur=st.booleans(),
                                   xz=st.booleans(), cont=st.booleans(), nores=st.booleans()))
OPS = st.lists(FLAGS, min_size=1, max_size=8)


def drive(sm, A, ref, ops, rng, constrained, tag, tol=1e-9, sdi=0.0):
    """runs the operation sequence on one smoother object and compares every call with the reference sweep"""
    n = A.shape[0]
    xv, bv, rv = sm.CreateColVector(), sm.CreateColVector(), sm.CreateColVector()
    need(len(nv(xv)) == n, "%s: vectors of the smoother have the wrong length" % tag)
    x, b = rng.standard_normal(n), rng.standard_normal(n) * np.abs(A).max()
    absA = np.abs(A)
    done = []
    for op in ops:
        done.append((op["f"], op["k"], op["ru"], op["ur"], op["xz"]))
        if not op["cont"]:
            b = rng.standard_normal(n) * np.abs(A).max()
            if rng.random() < 0.2: b *= rng.random(n) < 0.2
            x = rng.standard_normal(n)
        if op["xz"]: x = np.zeros(n)
        nv(xv)[:] = x; nv(bv)[:] = b
        nv(rv)[:] = b - A @ x if op["ru"] else 3.3e3
        back = op["f"] in ("SB", "SBK")
        k = op["k"] if op["f"] in ("SK", "SBK") else 1
        f = dict(S=sm.Smooth, SB=sm.SmoothBack, SK=sm.SmoothK, SBK=sm.SmoothBackK)[op["f"]]
        a = (k,) if op["f"] in ("SK", "SBK") else ()
        if op["nores"] and not op["ru"] and not op["ur"]:
            f(*a, xv, bv, x_zero=op["xz"])
        else:
            f(*a, xv, bv, rv, op["ru"], op["ur"], op["xz"])
        want = ref(k, x, b, back)
        got = nv(xv).copy()
        sx = max(np.abs(want).max(initial=0), np.abs(x).max(initial=0), 1e-5 * sdi * np.abs(b).max(initial=0), 1e-300)
        need(np.isfinite(got).all() and np.abs(got - want).max(initial=0) <= tol * sx,
             "%s: iterate differs from the sweep by %g of %g, calls (f, k, res_updated, update_res, x_zero) %s" % (tag, np.abs(got - want).max(initial=0), sx, done))
        need(np.array_equal(nv(bv), b), "%s: right hand side modified" % tag)
        if len(constrained):
            need(np.array_equal(got[constrained], x[constrained]), "%s: constrained unknowns changed" % tag)
        if op["ur"]:
            r = b - A @ got
            sr = max(np.abs(b).max(initial=0), (absA @ np.abs(got)).max(initial=0), (absA @ np.abs(x)).max(initial=0), 1e-300)
            d = np.abs(nv(rv) - r)
            need(np.isfinite(nv(rv)).all() and d.max(initial=0) <= tol * sr,
                 "%s: residual is off by %g of %g at %d, calls (f, k, res_updated, update_res, x_zero) %s" % (tag, d.max(initial=0), sr, d.argmax(), done))
        x = got


# ------------------------------------------------------------------ systems
def system(c, rng, graph_dup=False):
    """(ngsolve matrix, dense array, entry size, number of block rows)"""
    bs = c["bs"]
    if bs == 1:
        n = c["n"]
        P = sp.pattern(n, n, c["dens"], rng); P = P | P.T
        if graph_dup:           # rows with identical graphs
            g = rng.integers(0, max(1, n // 2), n)
            P = P[np.ix_(g, g)] | (g[:, None] == g[None, :])
        np.fill_diagonal(P, True)
        A = sp.spd_on(P, rng, c["scale"])
        B = None
    else:
        B = sp.BlockMat(bs, c["nx"], c["ny"])
        A = sp.spd_on(B.graph, rng, c["scale"])
        n = B.n // bs
    if c["sing"]:               # some unknowns get a kernel: consistent PSD matrix with singular diagonal blocks
        Q = np.eye(A.shape[0])
        for k in range(n):
            if rng.random() < 0.3:
                if bs == 1:
                    Q[k, k] = 0.0
                else:
                    v = rng.standard_normal(bs); v /= np.linalg.norm(v)
                    Q[k * bs:(k + 1) * bs, k * bs:(k + 1) * bs] -= np.outer(v, v)
        A = Q @ A @ Q
        A = 0.5 * (A + A.T)
    M = sp.scalar(A, P) if bs == 1 else B.set(A)
    return M, A, bs, n, B


def bits(free):
    f = ng.BitArray(len(free))
    for i, x in enumerate(free): f[i] = bool(x)
    return f


def dofs_of(bl, bs):
    return np.concatenate([np.arange(k * bs, (k + 1) * bs) for k in bl]) if len(bl) else np.zeros(0, int)


def draw_free(c, n, rng):
    if c["free"] == "none": return None
    p = dict(most=0.85, half=0.5, few=0.15, all=1.1)[c["free"]]
    return rng.random(n) < p


def run_gs(c):
    import NgsAMG
    rng = np.random.default_rng(c["seed"])
    M, A, bs, n, keep = system(c, rng)
    free = draw_free(c, n, rng)
    fr = np.ones(n, bool) if free is None else free
    pinv = c["pinv"] or c["sing"]
    steps = []
    for k in range(n):
        if fr[k]:
            d = dofs_of([k], bs)
            D = A[np.ix_(d, d)]
            if pinv: clear_kernel(D)
            if c["sing"] and np.abs(D).max() == 0: Di = np.zeros_like(D)
            else: Di = pinv_sym(D) if pinv else np.linalg.inv(D)
            steps.append((d, Di))
    sm = NgsAMG.CreateHybridGSS(M, None if free is None else bits(free), pinv)
    R = Sweep(A, steps)
    drive(sm, A, R.k, c["ops"], rng, dofs_of(np.nonzero(~fr)[0], bs), "gs", tol=1e-7 if c["scale"] or pinv else 1e-9, sdi=max([np.abs(s[1]).max() for s in steps] + [0]) if c["sing"] else 0.0)
    return dict(nontrivial=bool(len(steps) > 1 and (A != np.diag(np.diag(A))).any()), classes=["bs%d" % bs, "free:" + c["free"]] + (["pinv"] if pinv else []) + (["sing"] if c["sing"] else []))


def run_block(c):
    import NgsAMG
    rng = np.random.default_rng(c["seed"])
    M, A, bs, n, keep = system(c, rng)
    how = c["part"]
    if how in ("part", "gap"):             # partition, possibly with gaps
        nb = max(1, int(rng.integers(1, n + 1)))
        lab = rng.integers(0, nb, n)
        blocks = [np.nonzero(lab == k)[0] for k in range(nb)]
        blocks = [b for b in blocks if len(b)] if not c["empty"] else blocks
        if how == "gap": blocks = [b for b in blocks if rng.random() < 0.7]
    else:                       # overlapping
        nb = int(rng.integers(1, n + 2))
        blocks = [rng.permutation(n)[:int(rng.integers(1, min(n, 5) + 1))] for _ in range(nb)]
        if how == "cover": blocks += [np.array([k]) for k in range(n)]
    blocks = [[int(x) for x in (rng.permutation(b) if len(b) else b)] for b in blocks]
    order = [blocks[i] for i in rng.permutation(len(blocks))] if blocks else []
    pinv = c["pinv"] or c["sing"]
    no = bool(c["no"] and how in ("part", "gap"))
    if not any(order): raise Reject("no blocks")
    sm = NgsAMG.CreateHybridBlockGSS(M, order, shm=c["shm"], sl2=c["sl2"], bs2=c["bs2"], pinv=pinv, blocks_no=no)
    steps = []
    for b in order:
        if len(b) == 0: continue
        d = dofs_of(sorted(b), bs)
        D = A[np.ix_(d, d)]
        if pinv:
            clear_kernel(D)
            steps.append((d, pinv_sym(D)))
        else:
            steps.append((d, np.linalg.inv(D)))
    covered = set(x for b in order for x in b)
    con = dofs_of([k for k in range(n) if k not in covered], bs)
    tag = "block gs (%s)" % ("bs2" + ("/no" if no else "") if c["bs2"] else "bs1")
    if not c["bs2"] and c["shm"]:
        # colours decide the order, which is not documented: the sweep is taken from the object itself, all calls have to agree with it
        N = A.shape[0]
        S = [np.zeros((N, N)), np.zeros((N, N))]
        xv, bv, rv = sm.CreateColVector(), sm.CreateColVector(), sm.CreateColVector()
        for back in (0, 1):
            for k in range(N):
                nv(xv)[:] = 0; nv(bv)[:] = 0; nv(bv)[k] = 1; nv(rv)[:] = 3e3
                (sm.SmoothBack if back else sm.Smooth)(xv, bv, rv, False, False, False)
                S[back][:, k] = nv(xv)
        need(relerr(S[1], S[0].T) < 1e-9, "%s: backward sweep is not the adjoint of the forward sweep" % tag)
        # multiplicative in some order: never increases the energy
        E = np.eye(N) - S[0] @ A
        G = A - E.T @ A @ E
        need(np.linalg.eigvalsh(0.5 * (G + G.T)).min(initial=0) >= -1e-9 * np.abs(A).max(), "%s: sweep increases the energy" % tag)
        # ... and the support is the union of the blocks
        need(np.abs(S[0][con]).max(initial=0) == 0 and (not len(covered) or c["sing"] or np.abs(S[0][dofs_of(sorted(covered), bs)]).max(1).min() > 0), "%s: wrong support" % tag)

        def ref(k, x, b, back):
            for _ in range(k): x = x + S[1 if back else 0] @ (b - A @ x)
            return x
        drive(sm, A, ref, c["ops"], rng, con, tag, tol=1e-7)
    else:
        drive(sm, A, Sweep(A, steps).k, c["ops"], rng, con, tag, tol=1e-7 if pinv or c["scale"] else 1e-9, sdi=max(np.abs(s[1]).max() for s in steps) if c["sing"] else 0.0)
    return dict(nontrivial=len(steps) > 1, classes=["bs%d" % bs, how, tag] + (["pinv"] if pinv else []) + (["sing"] if c["sing"] else []) + (["shm"] if c["shm"] else []))


def run_dyn(c):
    import NgsAMG
    rng = np.random.default_rng(c["seed"])
    c = dict(c, bs=1, sing=False)
    M, A, bs, n, keep = system(c, rng, graph_dup=True)
    free = draw_free(c, n, rng)
    fr = np.ones(n, bool) if free is None else free
    i, j, _ = M.COO()
    rows = {}
    for a, b in zip(i, j): rows.setdefault(int(a), []).append(int(b))
    groups = {}
    for r in range(n): groups.setdefault(tuple(sorted(rows.get(r, []))), []).append(r)
    steps = []
    for key in sorted(groups, key=lambda q: (len(q), q)):
        d = np.array(groups[key])
        D = A[np.ix_(d, d)].copy()
        g = fr[d]
        Di = np.zeros_like(D)
        if g.any(): Di[np.ix_(g, g)] = np.linalg.inv(D[np.ix_(g, g)])
        if g.any(): steps.append((d, Di))
    if c["conv"]:
        M = NgsAMG.ConvertDynBlock(M)
    sm = NgsAMG.CreateDynBlockSmoother(M, None if free is None else bits(free))
    con = np.nonzero(~fr)[0]
    drive(sm, A, Sweep(A, steps).k, c["ops"], rng, con, "dynamic block gs", tol=1e-8 if c["scale"] else 1e-9)
    return dict(nontrivial=len(steps) > 1 and any(len(s[0]) > 1 for s in steps), classes=["free:" + c["free"]] + (["conv"] if c["conv"] else []))


def run_level(c):
    """smoothers of a hierarchy: independent of the flags, adjoint pair, right residuals"""
    P, pc = setup_any(c["prob"], c["flags"])
    amg = pc.GetAMGMatrix()
    H = Hier(amg)
    rng = np.random.default_rng(c["seed"])
    for l in range(H.n - 1):
        sm = amg.GetSmoother(l)
        A = H.A(l)
        N = len(A)
        S = []
        xv, bv, rv = sm.CreateColVector(), sm.CreateColVector(), sm.CreateColVector()
        for back in (0, 1):
            T = np.zeros((N, N))
            for k in range(N):
                nv(xv)[:] = 0; nv(bv)[:] = 0; nv(bv)[k] = 1; nv(rv)[:] = 3e3
                (sm.SmoothBack if back else sm.Smooth)(xv, bv, rv, False, False, False)
                T[:, k] = nv(xv)
            S.append(T)
        if not np.isfinite(S[0]).all() or np.abs(S[0]).max() > 1e12: raise Reject("not finite")
        tag = "level %d of %d" % (l, H.n)
        need(relerr(S[1], S[0].T) < 1e-8, "%s: backward sweep is not the adjoint of the forward sweep: %g" % (tag, relerr(S[1], S[0].T)))
        E = np.eye(N) - S[0] @ A
        G = A - E.T @ A @ E
        if "amg_smoother" not in str(c["flags"]):   # they can overshoot: known finding of C14
            need(np.linalg.eigvalsh(0.5 * (G + G.T)).min(initial=0) >= -1e-8 * np.abs(A).max(), "%s: smoothing increases the energy" % tag)

        def ref(k, x, b, back):
            for _ in range(k): x = x + S[1 if back else 0] @ (b - A @ x)
            return x
        con = np.nonzero(~P.free)[0] if l == 0 else []
        s = max(1.0, np.abs(S[0]).max() * np.abs(A).max())
        if s > 1e6: raise Reject("badly scaled")
        drive(sm, A, ref, c["ops"], rng, con, tag, tol=1e-10 * max(s, 10))
    return dict(nontrivial=H.n > 2, classes=["levels=%d" % H.n, c["flags"].get("sm_type", "default")])


base = dict(bs=gen.choice(1, 1, 2, 3), n=gen.ints(1, 14), nx=gen.ints(1, 3), ny=gen.ints(1, 2), dens=gen.choice(0.1, 0.3, 0.6), scale=st.booleans(),
            seed=gen.seeds, ops=OPS)
gs = st.fixed_dictionaries(dict(base, free=gen.choice("none", "most", "half", "few", "all"), pinv=st.booleans(), sing=gen.choice(False, False, True)))
block = st.fixed_dictionaries(dict(base, part=gen.choice("part", "gap", "over", "cover"), empty=gen.choice(False, False, True), pinv=st.booleans(),
                                   sing=gen.choice(False, False, True), shm=st.booleans(), sl2=st.booleans(), bs2=gen.choice(True, True, False), no=st.booleans()))
dyn = st.fixed_dictionaries(dict(base, free=gen.choice("none", "most", "half", "few", "all"), conv=st.booleans()))
level = st.fixed_dictionaries(dict(prob=gen.problem(lo=2, hi2=10, hi3=3), flags=gen.flags(groups=(gen.GS_FLAGS,), maxn=5), seed=gen.seeds, ops=OPS))
slevel = st.builds(lambda t, seed, ops: dict(prob=t[0], flags=t[1], seed=seed, ops=ops), stokes_spd(), gen.seeds, OPS)
SUBS = [
    Sub("gs", gs, run_gs, quick=2400, thorough=40000, shards=8, rule="at least two free rows, coupled", min_nontrivial=300),
    Sub("block", block, run_block, quick=3200, thorough=60000, shards=8, rule="at least two blocks", min_nontrivial=300),
    Sub("dyn", dyn, run_dyn, quick=1600, thorough=30000, shards=8, rule="several blocks, one with at least two rows", min_nontrivial=200),
    Sub("level", level, run_level, quick=800, thorough=20000, shards=8, rule="at least three levels", min_nontrivial=50),
    Sub("stokes", slevel, run_level, quick=600, thorough=20000, shards=8, rule="at least three levels", min_nontrivial=50),
]
ASSUMPTIONS = ["matrices of at most 14 (block) rows for direct smoothers, 100 for level smoothers"]
