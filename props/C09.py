"""C09: cell geometry (volumes, centres, face areas and normals)."""
import random

import numpy as np

from props import meshlib as M
from props.meshlib import FACES, KINDS, NODES, cross, det4, dot, sub
from pyvc.domain import contract
from pyvc.poly import Ring

FN = ["toughio._mesh._properties." + f for f in ("_faces", "_get_faces", "_get_triangle_normals", "_cross")]
NORMALS = FN + ["toughio._mesh._properties._face_normals", "toughio._mesh._mesh.Mesh.face_normals"]
AREAS = FN + ["toughio._mesh._properties._face_areas", "toughio._mesh._mesh.Mesh.face_areas"]
VOLUMES = ["toughio._mesh._properties." + f for f in ("_volumes", "_scalar_triple_product", "_cross")] + [
    "toughio._mesh._mesh.Mesh.volumes"]


# ------------------------------------------------------------------ symbolic cells

def coords(R, tag, n):
    return [[R.real("%s%d%s" % (tag, i, c)) for c in "xyz"] for i in range(n)]


def array(pts):
    a = np.empty((len(pts), 3), dtype=object)
    for i, p in enumerate(pts):
        for k in range(3):
            a[i, k] = p[k]
    return a


def convex(R, kind, pts):
    """Hypotheses: planar faces, and every node off a face strictly behind it."""
    for f in FACES[kind]:
        if len(f) == 4:
            R.assume_zero(det4(*[pts[i] for i in f]))
    for f in FACES[kind]:
        for k in range(len(f) if len(f) == 4 else 1):
            a, b, c = (f[j % len(f)] for j in (k, k + 1, k + 2))
            for i in range(len(pts)):
                if i not in f:
                    R.assume_pos(-det4(pts[a], pts[b], pts[c], pts[i]))
    if kind == "hexahedron":
        # a vertex and the three beyond: the plane of the neighbours of a vertex separates it
        # from the other vertices of a convex polyhedron
        R.assume_pos(det4(*[pts[i] for i in (1, 3, 4, 6)]))
        R.assume_pos(det4(*[pts[i] for i in (0, 5, 2, 7)]))


def pieces(kind, p):
    """Six times the volumes of the tetrahedra over the faces away from node 0."""
    return [-det4(p[f[0]], p[f[i]], p[f[i + 1]], p[0]) for f in FACES[kind] if 0 not in f for i in range(1, len(f) - 1)]


def _volume(kind):
    def f(D):
        if not D.symbolic:
            return sampled_volumes(D, [kind])
        R = Ring(D)
        p = coords(R, "p", NODES[kind])
        convex(R, kind, p)
        perms = M.rot(kind)
        perm = perms[D.choice("numbering", list(range(len(perms))))]
        mesh = M.mesh_of(D.T, array([p[i] for i in perm]), [(kind, [list(range(NODES[kind]))])])
        v = mesh.volumes
        D.prove("one volume per cell", len(v) == 1)
        R.eq("volume is the divergence formula", v[0] * 6, M.volume6(kind, p))
        R.positive_sum("volume is positive", v[0] * 6, pieces(kind, p))
    f.__name__ = "volume_%s" % kind
    contract("C09", VOLUMES, budget=60, samples=60, fallback=600, objarrays=True)(f)


def _face(kind, k):
    """One cell whose face k is spelled out as a planar convex polygon; the other nodes are free."""
    def g(D):
        if not D.symbolic:
            return sampled_faces(D, [kind])
        R = Ring(D)
        f = FACES[kind][k]
        p = coords(R, "p", NODES[kind])
        u, v = ([R.real(n + c) for c in "xyz"] for n in "uv")
        p[f[1]] = M.add(p[f[0]], u)
        N = cross(u, v)
        y = R.root(dot(N, N), "|u x v|")
        if len(f) == 3:
            p[f[2]] = M.add(p[f[0]], v)
            area = y / 2
        else:
            # p0, p0 + u, p0 + s u + t v, p0 + v with s, t > 0 and s + t > 1: every convex quadrangle
            s, t = R.positive("s"), R.positive("t")
            R.assume_pos(s + t - 1)
            p[f[3]] = M.add(p[f[0]], v)
            p[f[2]] = M.add(M.add(p[f[0]], M.mul(s, u)), M.mul(t, v))
            for m in (s, t, s + t - 1, s + t):
                R.scaled_root(y, m)
            area = (s + t) * y / 2
        behind = [i for i in range(NODES[kind]) if i not in f]
        for i in behind:
            R.assume_pos(-dot(N, sub(p[i], p[f[0]])))
        mesh = M.mesh_of(D.T, array(p), [(kind, [list(range(NODES[kind]))])])
        a, n = mesh.face_areas, mesh.face_normals
        D.prove("one row per cell", len(a) == 1 and len(n) == 1)
        D.prove("one entry per face", len(a[0]) == len(FACES[kind]) and len(n[0]) == len(FACES[kind]))
        R.eq("area", a[0][k], area)
        n = n[0][k]
        R.eq("unit normal", dot(n, n), 1)
        for c in range(3):
            R.eq("normal is (p1 - p0) x (pn - p0), normalized", n[c] * y, N[c])
        for i in f[1:]:
            R.eq("normal is orthogonal to the face", dot(n, sub(p[i], p[f[0]])), 0)
        for i in behind:
            d = sub(p[i], p[f[0]])
            R.eq("normal seen from the cell", dot(n, d) * y, dot(N, d))
            R.gt("normal points out of the cell", 0, dot(N, d))
    g.__name__ = "face_%s_%d" % (kind, k)
    contract("C09", AREAS + NORMALS, budget=60, samples=20, fallback=300, objarrays=True)(g)


for _k in KINDS:
    _volume(_k)
for _k in KINDS:
    for _i in range(len(FACES[_k])):
        _face(_k, _i)

MIXES = [[("wedge", 1), ("tetra", 2), ("hexahedron", 1), ("pyramid", 1), ("tetra", 1)],
         [("pyramid", 2), ("hexahedron", 2), ("pyramid", 1)],
         [("hexahedron", 1), ("wedge", 2), ("tetra", 1)]]


@contract("C09", ["toughio._mesh._mesh.Mesh.faces"] + AREAS + NORMALS + VOLUMES + ["toughio._mesh._mesh.Mesh.centers"],
          budget=90, samples=60, fallback=600, objarrays=True,
          bounded="three mixtures of blocks with one or two cells each; coordinates unbounded")
def mixtures(D):
    """Every quantity is attached to its own cell and face, whatever the blocks of the mesh."""
    if not D.symbolic:
        sampled_volumes(D, KINDS)
        return sampled_faces(D, KINDS)
    R = Ring(D)
    mix = D.choice("mixture", MIXES)
    pts, blocks, cells = [], [], []
    for b, (kind, n) in enumerate(mix):
        conn = []
        for j in range(n):
            ids = list(range(len(pts), len(pts) + NODES[kind]))
            pts += coords(R, "c%d_%d_" % (b, j), NODES[kind])
            # nodes listed backwards in the point array: the numbering of points is irrelevant
            ids = ids[::-1] if (b + j) % 2 else ids
            convex(R, kind, [pts[i] for i in ids])
            conn.append(ids)
            cells.append((kind, ids))
        blocks.append((kind, conn))
    mesh = M.mesh_of(D.T, array(pts), blocks)
    check_faces(D, mesh, cells)
    v, a, n, c = mesh.volumes, mesh.face_areas, mesh.face_normals, mesh.centers
    D.prove("one entry per cell", len(v) == len(a) == len(n) == len(c) == len(cells))
    for i, (kind, ids) in enumerate(cells):
        p = [pts[j] for j in ids]
        R.eq("volume of its own cell", v[i] * 6, M.volume6(kind, p))
        for k in range(3):
            R.eq("centre is the mean of the nodes", c[i][k] * len(p), sum((q[k] for q in p[1:]), p[0][k]))
        D.prove("one entry per face", len(a[i]) == len(n[i]) == len(FACES[kind]))
        for k, f in enumerate(FACES[kind]):
            q = [p[j] for j in f]
            N = cross(sub(q[1], q[0]), sub(q[2], q[0]))
            size = R.sqrt(dot(N, N))
            for x in range(3):
                R.eq("normal of its own face", n[i][k][x] * size, N[x])
            two = size
            if len(f) == 4:
                N2 = cross(sub(q[2], q[0]), sub(q[3], q[0]))
                two = two + R.sqrt(dot(N2, N2))
            R.eq("area of its own face", a[i][k] * 2, two)


def check_faces(D, mesh, cells):
    faces = mesh.faces
    D.prove("six faces of up to four nodes for every cell", np.shape(faces) == (len(cells), 6, 4))
    for i, (kind, ids) in enumerate(cells):
        rows = [[int(x) for x in row] for row in faces[i]]
        want = [canon_ids(ids, f) for f in FACES[kind]]
        for k in range(6):
            if k < len(want):
                n = len(want[k])
                D.prove("nodes of face", all(x == -1 for x in rows[k][n:]) and -1 not in rows[k][:n]
                        and M.canon(tuple(rows[k][:n])) == want[k], "cell %d face %d: %r" % (i, k, rows[k]))
            else:
                D.prove("no face", rows[k] == [-1] * 4)


def canon_ids(ids, f):
    return M.canon(tuple(ids[j] for j in f))


# ------------------------------------------------------------------ sampled cells

def random_mesh(D, kinds):
    r = random.Random(D.int("geometry", 0, 2 ** 31))
    pts, blocks, cells = [], [], []
    for b in range(1 if len(kinds) == 1 else r.randint(1, 4)):
        kind = r.choice(kinds)
        conn = []
        for j in range(r.randint(1, 3)):
            q = M.convex_cell(kind, r)
            conn.append(list(range(len(pts), len(pts) + len(q))))
            pts += q
        blocks.append([kind, conn])
    scale = r.choice([1.0, 1.0, 1e-6, 1e4])
    pts = [[x * scale for x in p] for p in pts]
    order = list(range(len(pts)))
    if r.random() < 0.7:
        r.shuffle(order)
    new = [None] * len(pts)
    for i, k in enumerate(order):
        new[k] = pts[i]
    pts = new
    for b in blocks:
        b[1] = [[order[i] for i in c] for c in b[1]]
        cells += [(b[0], c) for c in b[1]]
    return r, pts, [tuple(b) for b in blocks], cells


def size_of(p):
    return max(M.norm(sub(q, p[0])) for q in p)


def where(pts):
    return max(max(abs(x) for x in p) for p in pts)


def sampled_volumes(D, kinds):
    r, pts, blocks, cells = random_mesh(D, kinds)
    mesh = M.mesh_of(D.T, pts, blocks)
    v, c = mesh.volumes, mesh.centers
    D.prove("one entry per cell", len(v) == len(c) == len(cells))
    for i, (kind, ids) in enumerate(cells):
        p = [pts[j] for j in ids]
        D.close("volume is the divergence formula", v[i], M.volume6(kind, p) / 6, rel=1e-7)
        for k in range(3):
            D.close("centre is the mean of the nodes", c[i][k], sum(q[k] for q in p) / len(p), rel=1e-9, abs_=1e-9 * where(p))
        D.prove("volume is positive", v[i] > 0)
    # rotation, translation, scaling, reflection
    q, t, s = M.rotation(r), np.array([r.uniform(-3, 3) for _ in range(3)]), r.choice([0.25, 3.0, 40.0])
    other = M.mesh_of(D.T, np.array(pts) @ q.T * s + t * where(pts), blocks)
    w = other.volumes
    for i in range(len(cells)):
        D.close("volume scales with the cube, moved and rotated", w[i], v[i] * s ** 3, rel=1e-6)


def sampled_faces(D, kinds):
    r, pts, blocks, cells = random_mesh(D, kinds)
    mesh = M.mesh_of(D.T, pts, blocks)
    check_faces(D, mesh, cells)
    a, n = mesh.face_areas, mesh.face_normals
    D.prove("one entry per cell", len(a) == len(n) == len(cells))
    for i, (kind, ids) in enumerate(cells):
        p = [pts[j] for j in ids]
        D.prove("one entry per face", len(a[i]) == len(n[i]) == len(FACES[kind]))
        for k, f in enumerate(FACES[kind]):
            area, normal = M.polygon([p[j] for j in f])
            D.close("area", a[i][k], area, rel=1e-7)
            for x in range(3):
                D.close("unit normal pointing out of the cell", n[i][k][x], normal[x], abs_=1e-7)


@contract("C09", VOLUMES, symbolic=False, fallback=60, bounded="sampled boxes cut into mixed cells")
def cells_add_up(D):
    """Volumes add up to the volume of the domain; boundary areas to its surface."""
    r = random.Random(D.int("geometry", 0, 2 ** 31))
    pts, blocks, volume, surface = M_box(r)
    mesh = M.mesh_of(D.T, pts, blocks)
    D.close("volumes add up", float(np.sum(mesh.volumes)), volume, rel=1e-9)
    total = {}
    areas = mesh.face_areas
    i = 0
    for kind, conn in blocks:
        for c in conn:
            for f, s in zip(FACES[kind], areas[i]):
                total.setdefault(frozenset(c[j] for j in f), []).append(s)
            i += 1
    D.close("areas of the boundary add up", float(sum(x[0] for x in total.values() if len(x) == 1)), surface, rel=1e-9)
    for x in total.values():
        D.prove("a face belongs to one or two cells", len(x) <= 2)
        if len(x) == 2:
            D.close("both cells see the same area", x[0], x[1], rel=1e-9)


def M_box(r):
    from props.gridlib import hybrid_box
    return hybrid_box(r)


class Hypotheses:
    """Evaluates the hypotheses of the symbolic cells on numbers."""

    def __init__(self):
        self.zero, self.pos = [], []

    def assume_zero(self, x):
        self.zero.append(x)

    def assume_pos(self, x):
        self.pos.append(x)


@contract("C09", ["toughio._mesh._properties._volumes"], symbolic=False, fallback=200,
          bounded="the hypotheses of the symbolic cells, on sampled convex cells")
def hypotheses(D):
    r = random.Random(D.int("geometry", 0, 2 ** 31))
    kind = r.choice(KINDS)
    p = M.convex_cell(kind, r)
    h = Hypotheses()
    convex(h, kind, p)
    s = size_of(p) ** 3
    D.prove("planar faces", all(abs(x) < 1e-7 * s for x in h.zero))
    D.prove("convex", all(x > 0 for x in h.pos))
