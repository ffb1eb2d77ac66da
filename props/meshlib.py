"""Cells, faces and geometry restated independently of the code under contract."""
import itertools
import math
import random
import warnings

import numpy as np

# faces of the standard node ordering, seen from outside counter-clockwise, triangles first
FACES = {
    "tetra": [(1, 2, 3), (0, 3, 2), (0, 1, 3), (0, 2, 1)],
    "pyramid": [(0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4), (0, 3, 2, 1)],
    "wedge": [(0, 2, 1), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (0, 3, 5, 2)],
    "hexahedron": [(0, 3, 2, 1), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (0, 4, 7, 3)],
}
NODES = {"tetra": 4, "pyramid": 5, "wedge": 6, "hexahedron": 8}
KINDS = ["tetra", "pyramid", "wedge", "hexahedron"]
REF = {
    "tetra": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    "pyramid": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (.5, .5, 1)],
    "wedge": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)],
    "hexahedron": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
}


def canon(face):
    """A face up to the choice of its first node (orientation kept)."""
    k = face.index(min(face))
    return tuple(face[k:] + face[:k])


def unoriented(face):
    return min(canon(tuple(face)), canon(tuple(reversed(face))))


def rotations(kind):
    """Node relabellings that keep the standard ordering (orientation preserving)."""
    want = {canon(f) for f in FACES[kind]}
    out = []
    for p in itertools.permutations(range(NODES[kind])):
        if kind == "hexahedron" and not _edges_ok(p):
            continue
        if {canon(tuple(p[i] for i in f)) for f in FACES[kind]} == want:
            out.append(p)
    return out


_HEX_EDGES = {frozenset(e) for e in [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]}


def _edges_ok(p):
    return all(frozenset((p[a], p[b])) in _HEX_EDGES for a, b in ((0, 1), (1, 2), (0, 3), (0, 4), (1, 5), (2, 6)))


_ROT = {}


def rot(kind):
    if kind not in _ROT:
        _ROT[kind] = rotations(kind)
    return _ROT[kind]


# ------------------------------------------------------------------ vectors on any numbers

def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def mul(k, a):
    return [k * x for x in a]


def dot(a, b):
    s = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]):
        s = s + x * y
    return s


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def det(a, b, c):
    return dot(a, cross(b, c))


def det4(p, q, r, s):
    return det(sub(q, p), sub(r, p), sub(s, p))


def volume6(kind, pts, apex=None):
    """Six times the volume of a cell with planar faces: divergence theorem, outward faces fanned
    from their first node, seen from a node of the cell."""
    o = pts[0] if apex is None else apex
    v = 0
    for f in FACES[kind]:
        for i in range(1, len(f) - 1):
            v = v + det(sub(pts[f[0]], o), sub(pts[f[i]], o), sub(pts[f[i + 1]], o))
    return v


def norm(a):
    return math.sqrt(dot(a, a))


def polygon(face_pts):
    """(area, unit normal) of a planar polygon: half the sum of the cross products."""
    o = face_pts[0]
    s = [0.0, 0.0, 0.0]
    for i in range(1, len(face_pts) - 1):
        s = add(s, cross(sub(face_pts[i], o), sub(face_pts[i + 1], o)))
    n = norm(s)
    return n / 2, [x / n for x in s]


# ------------------------------------------------------------------ random convex cells

def _meet(planes):
    a = np.array([p[0] for p in planes])
    b = np.array([p[1] for p in planes])
    if abs(np.linalg.det(a)) < 0.05:
        return None
    return np.linalg.solve(a, b)


def is_convex(kind, pts, tol=1e-3):
    """Every node off a face lies strictly inside; the faces are planar convex polygons."""
    pts = [list(map(float, p)) for p in pts]
    size = max(norm(sub(p, pts[0])) for p in pts)
    for f in FACES[kind]:
        a, n = polygon([pts[i] for i in f])
        if a < tol * size * size:
            return False
        for i, p in enumerate(pts):
            h = dot(n, sub(p, pts[f[0]])) / size
            if i in f and abs(h) > 1e-9 or i not in f and h > -tol:
                return False
        if len(f) == 4:
            for k in range(4):
                c = cross(sub(pts[f[(k + 1) % 4]], pts[f[k]]), sub(pts[f[(k + 2) % 4]], pts[f[(k + 1) % 4]]))
                if dot(c, n) < tol * size * size:
                    return False
    return True


def convex_cell(kind, r):
    """A convex cell with planar faces, in the standard ordering."""
    ref = REF[kind]
    while True:
        if kind == "tetra":
            pts = [[r.uniform(-1, 1) for _ in range(3)] for _ in range(4)]
        elif kind == "pyramid":
            base = [[x + r.uniform(-.35, .35), y + r.uniform(-.35, .35), 0.0] for x, y, _ in ref[:4]]
            pts = base + [[r.uniform(-.5, 1.5), r.uniform(-.5, 1.5), r.uniform(.3, 2)]]
        else:
            planes = []
            for f in FACES[kind]:
                a, n = polygon([list(map(float, ref[i])) for i in f])
                n = [x + r.uniform(-.3, .3) for x in n]
                o = [sum(ref[i][k] for i in f) / len(f) + r.uniform(-.1, .1) for k in range(3)]
                planes.append((n, dot(n, o)))
            pts = []
            for i in range(NODES[kind]):
                p = _meet([planes[k] for k, f in enumerate(FACES[kind]) if i in f])
                if p is None:
                    break
                pts.append(p.tolist())
            if len(pts) < NODES[kind]:
                continue
        q = r.choice([rotation(r), rotation(r), np.eye(3)])
        s = 10.0 ** r.choice([0, 0, 0, 1, -1, 2])
        t = np.array([r.choice([0, 0, r.uniform(-5, 5)]) * s for _ in range(3)])
        pts = (np.array(pts) @ q.T * s + t).tolist()
        if kind != "tetra" or is_convex(kind, pts):
            if not is_convex(kind, pts):
                continue
            p = r.choice(rot(kind))
            return [pts[p[i]] for i in range(len(p))]


def rotation(r):
    q, _ = np.linalg.qr(np.array([[r.gauss(0, 1) for _ in range(3)] for _ in range(3)]))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


PROPERTIES = ["n_points", "n_cells", "labels", "centers", "materials", "faces", "face_normals", "face_areas", "volumes", "connections",
              "qualities", "cells_dict"]


def asked(mesh):
    """Every property of a mesh is asked for (what it answers does not matter here)."""
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k in PROPERTIES:
            try:
                getattr(mesh, k)
            except Exception:
                pass
        try:
            mesh.near([0.0] * np.shape(mesh.points)[1])
            mesh.filter.box(x0=0.0, dx=1.0)
        except Exception:
            pass


def lived(mesh):
    """Perhaps the mesh has been another one before, and was asked for everything: that leaves no trace."""
    pts = mesh.points
    if not isinstance(pts, np.ndarray) or pts.dtype != float or not mesh.cells:
        return mesh
    r = random.Random(repr((pts.ravel()[:4].tolist(), len(pts), mesh.n_cells)))
    how = r.choice(["new", "new", "points", "points in place", "cells", "names"])
    if how == "points":
        mesh.points = pts[::-1] * 1.25 + 0.5
        asked(mesh)
        mesh.points = pts
    elif how == "points in place":
        keep = pts.copy()
        pts[:] = keep[::-1] * 1.25 + 0.5
        asked(mesh)
        pts[:] = keep
    elif how == "cells":
        keep = mesh.cells
        mesh.cells = [(c.type, c.data[::-1, ::-1]) for c in keep][::-1]
        asked(mesh)
        mesh.cells = keep
    elif how == "names":
        field, length = mesh.field_data, mesh.label_length
        mesh.field_data, mesh.label_length = {k + "_": v for k, v in (field or {}).items()}, 7
        asked(mesh)
        mesh.field_data, mesh.label_length = field, length
    return mesh


def mesh_of(T, points, blocks, **kw):
    """toughio.Mesh from points and [(type, connectivity)]."""
    return lived(T("_mesh").Mesh(np.asarray(points), [(k, np.array(c, dtype=int)) for k, c in blocks], **kw))
