"""Meshes built cell by cell from a JSON spec (no mesh generator involved).

spec = {"dim":2|3, "n":[nx,ny(,nz)], "simplex":bool, "flip":int, "jig":int, "amp":float,
        "scale":[..], "holes":[cell,...], "mats":[k per cell pattern], "nmat":int}
boundary names: left,right (x), front,back (y; 'bottom','top' in 2d), down,up (z), inner (holes)
"""
import netgen.meshing as nm
import ngsolve as ng
from . import util


class LCG:
    """tiny deterministic stream derived from an integer of the case (so the case alone fixes it)"""
    def __init__(self, seed): self.s = (seed * 2862933555777941757 + 3037000493) & (2**64 - 1)
    def u(self):
        self.s = (self.s * 6364136223846793005 + 1442695040888963407) & (2**64 - 1)
        return (self.s >> 11) / float(1 << 53)


SIDES = {2: ["left", "right", "bottom", "top", "inner"],
         3: ["left", "right", "front", "back", "down", "up", "inner"]}


def build(spec, comm=None):
    """returns an ngsolve Mesh"""
    if comm is not None and comm.size > 1:
        if comm.rank == 0:
            m = _ngmesh(spec)
            m.Distribute(comm)
        else:
            m = nm.Mesh.Receive(comm)
    else:
        m = _ngmesh(spec)
    return ng.Mesh(m)


def _ngmesh(spec):
    dim, n = spec["dim"], spec["n"]
    sc = spec.get("scale", [1.0] * dim)
    rng = LCG(spec.get("jig", 0))
    amp = spec.get("amp", 0.0)
    flip = LCG(spec.get("flip", 0) + 77)
    doflip = spec.get("flip", 0) != 0
    m = nm.Mesh(dim=dim)
    hi = n + ([0] if dim == 2 else [])

    def key(i, j, k): return (k * (hi[1] + 1) + j) * (hi[0] + 1) + i
    ncell = hi[0] * hi[1] * (hi[2] if dim == 3 else 1)
    holes = set(h % ncell for h in spec.get("holes", []))
    if len(holes) >= ncell:
        holes = set(list(holes)[1:])
    mats = spec.get("mats", [0]) or [0]
    nmat = spec.get("nmat", 1)
    cells = []
    cnum = 0
    for k in range(hi[2] if dim == 3 else 1):
        for j in range(hi[1]):
            for i in range(hi[0]):
                if cnum not in holes:
                    cells.append((i, j, k, mats[cnum % len(mats)] % nmat))
                cnum += 1
    used = {}
    coords = {}
    for k in range(hi[2] + 1):
        for j in range(hi[1] + 1):
            for i in range(hi[0] + 1):
                c = [i, j, k][:dim]
                p = []
                for d in range(dim):
                    x = float(c[d])
                    r = rng.u() - 0.5
                    if 0 < c[d] < n[d]:
                        x += amp * r
                    p.append(x * sc[d] / n[d])
                coords[key(i, j, k)] = p + [0.0] * (3 - dim)

    def pt(kk):
        if kk not in used:
            used[kk] = m.Add(nm.MeshPoint(nm.Pnt(*coords[kk])))
        return used[kk]

    # vertices in grid order
    keep = set()
    for (i, j, k, _) in cells:
        for dk in ((0, 1) if dim == 3 else (0,)):
            for dj in (0, 1):
                for di in (0, 1):
                    keep.add(key(i + di, j + dj, k + dk))
    for kk in sorted(keep):
        pt(kk)
    simplex = spec.get("simplex", True)
    faces = {}

    def side_of(fverts):
        ijk = []
        for kk in fverts:
            i = kk % (hi[0] + 1)
            j = (kk // (hi[0] + 1)) % (hi[1] + 1)
            k = kk // ((hi[0] + 1) * (hi[1] + 1))
            ijk.append((i, j, k))
        for d in range(dim):
            vals = set(p[d] for p in ijk)
            if len(vals) == 1:
                v = vals.pop()
                if v == 0:
                    return 2 * d
                if v == n[d]:
                    return 2 * d + 1
        return 2 * dim

    if dim == 2:
        for name_i in range(nmat):
            fd = nm.FaceDescriptor(surfnr=name_i + 1, domin=name_i + 1, bc=name_i + 1)
            m.Add(fd)
        for q in range(nmat):
            m.SetMaterial(q + 1, "m%d" % q)
        for (i, j, k, mt) in cells:
            a, b, c, d = key(i, j, 0), key(i + 1, j, 0), key(i + 1, j + 1, 0), key(i, j + 1, 0)
            if simplex:
                if doflip and flip.u() < 0.5:
                    els = [(a, b, d), (b, c, d)]
                else:
                    els = [(a, b, c), (a, c, d)]
            else:
                els = [(a, b, c, d)]
            for e in els:
                m.Add(nm.Element2D(mt + 1, [pt(x) for x in e]))
                for q in range(len(e)):
                    ed = (e[q], e[(q + 1) % len(e)])
                    f = tuple(sorted(ed))
                    faces.setdefault(f, []).append((ed, mt))
        for f in sorted(faces):
            if len(faces[f]) == 1:
                ed, mt = faces[f][0]
                s = side_of(ed)
                m.Add(nm.Element1D([pt(ed[0]), pt(ed[1])], [0, 1], index=s + 1))
        for q, s in enumerate(SIDES[2]):
            m.SetBCName(q, s)
    else:
        for q in range(nmat):
            m.SetMaterial(q + 1, "m%d" % q)
        tetsp = [(0, 1, 3, 7), (0, 1, 7, 5), (0, 5, 7, 4), (0, 3, 2, 7), (0, 6, 4, 7), (0, 2, 6, 7)]
        hexf = [(0, 3, 2, 1), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)]
        for (i, j, k, mt) in cells:
            c = [key(i + (q & 1), j + ((q >> 1) & 1), k + ((q >> 2) & 1)) for q in range(8)]
            if simplex:
                for t in tetsp:
                    v = [c[x] for x in t]
                    # orientation: make volume sign uniform
                    P = [coords[x] for x in v]
                    d1 = [P[1][q] - P[0][q] for q in range(3)]
                    d2 = [P[2][q] - P[0][q] for q in range(3)]
                    d3 = [P[3][q] - P[0][q] for q in range(3)]
                    det = (d1[0] * (d2[1] * d3[2] - d2[2] * d3[1]) - d1[1] * (d2[0] * d3[2] - d2[2] * d3[0])
                           + d1[2] * (d2[0] * d3[1] - d2[1] * d3[0]))
                    if det > 0:
                        v[2], v[3] = v[3], v[2]
                    m.Add(nm.Element3D(mt + 1, [pt(x) for x in v]))
                    for f in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)):
                        fv = tuple(v[x] for x in f)
                        faces.setdefault(tuple(sorted(fv)), []).append((fv, mt))
            else:
                v = [c[0], c[1], c[3], c[2], c[4], c[5], c[7], c[6]]
                m.Add(nm.Element3D(mt + 1, [pt(x) for x in v]))
                for f in hexf:
                    fv = tuple(v[x] for x in f)
                    faces.setdefault(tuple(sorted(fv)), []).append((fv, mt))
        fds = {}
        bl = [(f, faces[f][0]) for f in sorted(faces) if len(faces[f]) == 1]
        for s in range(7):
            fds[s] = m.Add(nm.FaceDescriptor(surfnr=s + 1, domin=1, domout=0, bc=s + 1))
        for f, (fv, mt) in bl:
            s = side_of(fv)
            m.Add(nm.Element2D(fds[s], [pt(x) for x in fv]))
        for q, s in enumerate(SIDES[3]):
            m.SetBCName(q, s)
    m.Update() if hasattr(m, "Update") else None
    return m
