"""C09: the sparse-matrix utilities are exact linear algebra: products, sums, transposes, blocks, embeddings, compression, restriction,
dynamic-block conversion represent the same operator as the expression / matrix they were built from and leave inputs untouched."""
import numpy as np
import ngsolve as ng
from ..core import Sub
from ..util import *
from .. import sp, gen
from ..gen import ints, choice
from hypothesis import strategies as st


# ---------------------------------------------------------------- expressions
def build(t, leaves):
    """tree -> (ngsolve matrix, dense reference)"""
    op = t[0]
    if op == "m":
        _, n, m, seed, dens = t
        rng = np.random.default_rng(seed)
        D, P = sp.values(n, m, dens, rng)
        M = sp.scalar(D, P)
        leaves.append((M, D))
        return M, D
    if op == "T":
        M, D = build(t[1], leaves); return M.T, D.T
    if op == "mul":
        M, D = build(t[1], leaves); N, F = build(t[2], leaves); return M @ N, D @ F
    if op == "add":
        M, D = build(t[1], leaves); N, F = build(t[2], leaves); return M + N, D + F
    if op == "sub":
        M, D = build(t[1], leaves); N, F = build(t[2], leaves); return M - N, D - F
    if op == "addI":
        M, D = build(t[1], leaves); return M + ng.IdentityMatrix(D.shape[0]), D + np.eye(D.shape[0])
    if op == "Iadd":
        M, D = build(t[1], leaves); return ng.IdentityMatrix(D.shape[0]) + M, D + np.eye(D.shape[0])
    if op == "mulI":
        M, D = build(t[1], leaves); return M @ ng.IdentityMatrix(D.shape[1]), D
    if op == "Imul":
        M, D = build(t[1], leaves); return ng.IdentityMatrix(D.shape[0]) @ M, D
    if op == "emb":
        M, D = build(t[1], leaves); off, extra = t[2], t[3]
        h = D.shape[0]; H = h + off + extra
        R = np.zeros((H, D.shape[1])); R[off:off + h] = D
        return ng.Embedding(H, ng.IntRange(off, off + h)) @ M, R
    if op == "blk":
        cells = t[1]; n = len(cells)
        M = [[None] * n for _ in range(n)]; D = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(n):
                if cells[i][j] is not None:
                    M[i][j], D[i][j] = build(cells[i][j], leaves)
        hs = [next(D[i][j].shape[0] for j in range(n) if D[i][j] is not None) for i in range(n)]
        ws = [next(D[i][j].shape[1] for i in range(n) if D[i][j] is not None) for j in range(n)]
        R = np.zeros((sum(hs), sum(ws)))
        ro = np.cumsum([0] + hs); co = np.cumsum([0] + ws)
        for i in range(n):
            for j in range(n):
                if D[i][j] is not None: R[ro[i]:ro[i + 1], co[j]:co[j + 1]] = D[i][j]
        return ng.BlockMatrix(M), R
    raise ValueError(op)


dens = choice(0.0, 0.1, 0.4, 0.8, 1.0)


@st.composite
def tree(draw, n, m, depth):
    if depth == 0 or draw(ints(0, 4)) == 0:
        return ["m", n, m, draw(gen.seeds), draw(dens)]
    ops = ["T", "mul", "mul", "add", "mulI", "Imul"]
    if n == m: ops += ["addI", "Iadd"]
    if n >= 3: ops += ["emb"]
    if n >= 2 and m >= 2: ops += ["blk"]
    op = draw(choice(*ops))
    if op == "T": return ["T", draw(tree(m, n, depth - 1))]
    if op == "mul":
        k = draw(ints(1, 7)); return ["mul", draw(tree(n, k, depth - 1)), draw(tree(k, m, depth - 1))]
    if op == "add": return ["add", draw(tree(n, m, depth - 1)), draw(tree(n, m, depth - 1))]
    if op in ("mulI", "Imul", "addI", "Iadd"): return [op, draw(tree(n, m, depth - 1))]
    if op == "emb":
        h = draw(ints(1, n - 1)); off = draw(ints(0, n - h))
        # an embedding is a factor of a product only at the top of ngsolve's expression: EmbeddedMatrix
        return ["emb", draw(tree(h, m, 0)), off, n - h - off]
    nb = draw(ints(2, min(3, n, m)))
    def split(t):
        cuts = sorted(draw(st.lists(ints(1, t - 1), min_size=nb - 1, max_size=nb - 1, unique=True)))
        c = [0] + cuts + [t]
        return [c[i + 1] - c[i] for i in range(nb)]
    hs, ws = split(n), split(m)
    keep = draw(st.permutations(list(range(nb))))
    cells = []
    for i in range(nb):
        row = []
        for j in range(nb):
            if keep[i] == j or draw(st.booleans()): row.append(draw(tree(hs[i], ws[j], min(depth - 1, 1))))
            else: row.append(None)
        cells.append(row)
    return ["blk", cells]


@st.composite
def expr_case(draw):
    n, m = draw(ints(1, 9)), draw(ints(1, 9))
    if draw(st.booleans()): m = n
    return dict(t=draw(tree(n, m, draw(ints(1, 3)))), compress=draw(st.booleans()), tol=draw(choice(1e-20, 0.5, 3.5, 12.5)))


def ops_of(t):
    if t[0] == "m": return []
    r = [t[0]]
    for x in t[1:]:
        if isinstance(x, list):
            if t[0] == "blk":
                for row in x:
                    for c in row:
                        if c is not None: r += ops_of(c)
            else: r += ops_of(x)
    return r


def run_expr(case):
    import NgsAMG
    leaves = []
    M, D = build(case["t"], leaves)
    S = NgsAMG.ToSparseMatrix(M, case["compress"], case["tol"]) if case["compress"] else NgsAMG.ToSparseMatrix(M)
    need(S is not None, "no result")
    need((S.height, S.width) == D.shape, "dimensions %s instead of %s" % ((S.height, S.width), D.shape))
    G = dense(S)
    R = D
    if case["compress"]:
        R = np.where(np.abs(D) > case["tol"], D, 0.0)
        need(np.count_nonzero(G) == S.nze, "stored entries at or below the tolerance")
    need(np.array_equal(G, R), "sparse matrix differs from the expression by %g" % np.abs(G - R).max())
    Gt = dense(S, transpose=True)
    need(np.array_equal(Gt, R.T), "transpose application differs")
    for L, V in leaves:
        need(np.array_equal(dense(L), V), "an operand was modified")
    # column indices sorted and unique within each row
    val, col, ind = S.CSR()
    col = np.asarray(col); ind = np.asarray(ind)
    for r in range(S.height):
        c = col[ind[r]:ind[r + 1]]
        need(np.all(np.diff(c.astype(int)) > 0), "row %d: column indices not strictly increasing" % r)
    ops = ops_of(case["t"])
    return dict(nontrivial=len(ops) > 0 and np.count_nonzero(D) > 0, classes=sorted(set(ops)) + (["compress"] if case["compress"] else []))


# ---------------------------------------------------------------- SparseMM / Compress / Restrict on scalar and block-entry matrices
mm_case = st.fixed_dictionaries(dict(n=ints(1, 12), k=ints(1, 12), m=ints(1, 12), da=dens, db=dens, sa=gen.seeds, sb=gen.seeds, kind=choice("int", "int", "wide"), stride=choice(1, 1, 1, 1024, 2048)))


def run_mm(c):
    import NgsAMG
    ra, rb = np.random.default_rng(c["sa"]), np.random.default_rng(c["sb"] + 1)
    A, PA = sp.values(c["n"], c["k"], c["da"], ra, c["kind"]); B, PB = sp.values(c["k"], c["m"], c["db"], rb, c["kind"])
    stride = c.get("stride", 1)
    a = sp.scalar(A, PA)
    if stride > 1:      # wide: the column numbers of the second factor are far apart
        off = rb.integers(0, 3)
        i, j = np.nonzero(PB | (B != 0))
        w = (c["m"] - 1) * stride + 3
        b = ng.la.SparseMatrixd.CreateFromCOO([int(x) for x in i], [int(x) * stride + int(off) for x in j], [float(B[p, q]) for p, q in zip(i, j)], c["k"], w)
        S = NgsAMG.SparseMM(a, b)
        need((S.height, S.width) == (c["n"], w), "dimensions")
        R = A @ B
        bound = 1e-13 * (np.abs(A) @ np.abs(B))
        G = np.zeros_like(R)
        for p, q, v in zip(*[np.array(x) for x in S.COO()]):
            if v == 0: continue
            need((q - off) % stride == 0, "entry in column %d" % q)
            G[p, (q - off) // stride] += v
        need(np.all(np.abs(G - R) <= bound) if c["kind"] != "int" else np.array_equal(G, R), "product of wide matrices differs by %g" % np.abs(G - R).max())
        return dict(nontrivial=bool(np.count_nonzero(R)), classes=[c["kind"], "wide-columns"])
    b = sp.scalar(B, PB)
    S = NgsAMG.SparseMM(a, b)
    need((S.height, S.width) == (c["n"], c["m"]), "dimensions")
    G = dense(S); R = A @ B
    bound = 1e-13 * (np.abs(A) @ np.abs(B))
    need(np.all(np.abs(G - R) <= bound) if c["kind"] != "int" else np.array_equal(G, R), "product differs by %g" % np.abs(G - R).max())
    need(S.nze == np.count_nonzero(PA.astype(int) @ PB.astype(int)), "graph of the product is not the product of the graphs: %d" % S.nze)
    need(np.array_equal(dense(a), A) and np.array_equal(dense(b), B), "operand modified")
    return dict(nontrivial=bool(np.count_nonzero(R)), classes=[c["kind"]])


blk_case = st.fixed_dictionaries(dict(bs=choice(1, 2, 3), nx=ints(1, 3), ny=ints(1, 3), sa=gen.seeds, sb=gen.seeds, zero=choice(0.0, 0.3, 0.8),
                                      op=choice("mm", "tm", "add", "addI", "compress", "restrict", "blk"), tol=choice(1e-20, 0.5, 2.0, 3.0),
                                      rb=st.lists(ints(0, 15), max_size=8, unique=True), cb=st.lists(ints(0, 15), max_size=8, unique=True), cut=ints(0, 8)))


def run_blk(c):
    import NgsAMG
    bs = c["bs"]
    a = sp.block_random(bs, c["nx"], c["ny"], np.random.default_rng(c["sa"]), c["zero"])
    b = sp.block_random(bs, c["nx"], c["ny"], np.random.default_rng(c["sb"] + 1), c["zero"])
    A, B = dense(a.mat), dense(b.mat)
    nb = A.shape[0] // bs
    blocks = lambda M: M.reshape(nb, bs, nb, bs).transpose(0, 2, 1, 3)
    op = c["op"]
    rng = np.random.default_rng(c["sb"])
    if op == "mm": S, R = NgsAMG.SparseMM(a.mat, b.mat), A @ B
    elif op == "tm": S, R = NgsAMG.ToSparseMatrix(a.mat.T @ b.mat), A.T @ B
    elif op == "add": S, R = NgsAMG.ToSparseMatrix(a.mat + b.mat), A + B
    elif op == "addI": S, R = NgsAMG.ToSparseMatrix(a.mat + ng.IdentityMatrix(a.mat.height)), A + np.eye(len(A))
    elif op == "blk": S, R = NgsAMG.ToSparseMatrix(ng.BlockMatrix([[a.mat, None], [b.mat.T, a.mat]])), np.block([[A, 0 * A], [B.T, A]])
    elif op == "compress":
        S = NgsAMG.CompressSparseMatrix(a.mat, c["tol"])
        keep = np.abs(blocks(A)).sum((2, 3)) > c["tol"] * bs * bs
        R = A * np.repeat(np.repeat(keep, bs, 0), bs, 1)
        need(S.nze == np.count_nonzero(keep), "%d entries stored, %d exceed the tolerance" % (S.nze, np.count_nonzero(keep)))
    else:
        rb = [x for x in c["rb"] if x < nb]; cb = sorted(x for x in c["cb"] if x < nb)
        k = min(c["cut"], len(rb))
        kc = min(c["cut"] // 2, len(cb))
        RB, CB = [rb[:k], rb[k:]], [cb[:kc], cb[kc:]]
        S = NgsAMG.RestrictMatrixToBlocks(a.mat, RB, CB, 1e-20)
        R4 = blocks(A).copy()
        for r, q in zip(RB, CB):
            for i in r:
                for j in range(nb):
                    if j not in q: R4[i, j] = 0
        R = R4.transpose(0, 2, 1, 3).reshape(A.shape)
        need(S.nze == np.count_nonzero(np.abs(R4).sum((2, 3)) > 0), "zero entries stored")
    G = dense(S)
    need(G.shape == R.shape and np.array_equal(G, R), "%s: differs by %s" % (op, np.abs(G - R).max() if G.shape == R.shape else "shape"))
    need(np.array_equal(dense(S, transpose=True), R.T), "%s: transpose application differs" % op)
    need(np.array_equal(dense(a.mat), A) and np.array_equal(dense(b.mat), B), "%s: input matrix modified" % op)
    return dict(nontrivial=bool(np.count_nonzero(R)), classes=[op, "bs%d" % bs])


# ---------------------------------------------------------------- dynamic-block matrices
@st.composite
def dyn_case_(draw):
    # square matrices with symmetric graph (what the conversion is specified for); rows come in classes sharing their graph
    return dict(n=draw(ints(1, 16)), g=draw(ints(1, 6)), seed=draw(gen.seeds), dens=draw(choice(0.0, 0.2, 0.5, 1.0)), diag=draw(st.booleans()),
                s=draw(choice(1.0, -0.5, 2.0)), perm=draw(st.booleans()))


def run_dyn(c):
    import NgsAMG
    rng = np.random.default_rng(c["seed"])
    n = m = c["n"]
    grp = rng.integers(0, c["g"], n) if c["perm"] else np.sort(rng.integers(0, c["g"], n))
    PG = rng.random((c["g"], c["g"])) < c["dens"]; PG = PG | PG.T
    if c["diag"]: np.fill_diagonal(PG, True)
    P = PG[np.ix_(grp, grp)]
    D = rng.integers(-4, 5, (n, m)).astype(float) * P
    M = sp.scalar(D, P)
    C = NgsAMG.ConvertDynBlock(M)
    need((C.height, C.width) == (n, m), "dimensions %s" % ((C.height, C.width),))
    G = dense(C)
    need(np.array_equal(G, D), "dynamic-block matrix differs by %g" % np.abs(G - D).max())
    x = rng.integers(-3, 4, m).astype(float); y0 = rng.integers(-3, 4, n).astype(float)
    rv, cv = C.CreateRowVector(), C.CreateColVector()
    nv(rv)[:] = x; nv(cv)[:] = y0
    C.MultAdd(c["s"], rv, cv)
    need(np.array_equal(nv(cv), y0 + c["s"] * (D @ x)), "MultAdd differs by %g" % np.abs(nv(cv) - (y0 + c["s"] * (D @ x))).max())
    need(np.array_equal(nv(rv), x), "MultAdd changed its input")
    need(np.array_equal(dense(M), D), "input matrix modified")
    return dict(nontrivial=bool(np.count_nonzero(D)) and n > 1, classes=["perm" if c["perm"] else "sorted"])


SUBS = [
    Sub("expr", expr_case(), run_expr, quick=4000, thorough=40000, shards=3, rule="at least one operation and a nonzero result"),
    Sub("mm", mm_case, run_mm, quick=2000, thorough=15000, shards=1, rule="nonzero product"),
    Sub("blk", blk_case, run_blk, quick=2400, thorough=20000, shards=2, rule="nonzero result"),
    Sub("dyn", dyn_case_(), run_dyn, quick=2400, thorough=20000, shards=2, rule="nonzero matrix with more than one row"),
]
ASSUMPTIONS = ["integer-valued entries make the reference exact", "NgSolve's expression tree and SparseMatrix.Mult are trusted"]
