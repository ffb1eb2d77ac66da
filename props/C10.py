"""C10: connections are the shared faces, both ways; cell qualities."""
import random

import numpy as np

from props import gridlib as G
from props import meshlib as M
from props.C09 import array, convex, coords
from props.meshlib import FACES, KINDS, NODES, cross, dot, sub
from pyvc.domain import contract
from pyvc.poly import Ring

CONN = ["toughio._mesh._properties." + f for f in ("_connections", "_get_faces", "_faces")] + [
    "toughio._mesh._mesh.Mesh.connections"]
QUAL = ["toughio._mesh._properties._qualities", "toughio._mesh._mesh.Mesh.qualities"]

SLOTS = {n: [(k, i) for k in KINDS for i, f in enumerate(FACES[k]) if len(f) == n] for n in (3, 4)}


MIRROR = {"tetra": [0, 2, 1, 3], "pyramid": [0, 3, 2, 1, 4], "wedge": [3, 4, 5, 0, 1, 2], "hexahedron": [4, 5, 6, 7, 0, 1, 2, 3]}


def pair(kind1, i1, kind2, i2, turn, same=True):
    """Nodes of two cells that share face i1 of the first, which is face i2 of the second. Cells of
    the same handedness list the face in opposite directions."""
    first = list(range(NODES[kind1]))
    f1, f2 = FACES[kind1][i1], FACES[kind2][i2]
    n = len(f1)
    second = [None] * NODES[kind2]
    for a in range(n):
        second[f2[a]] = first[f1[(turn - a if same else turn + a) % n]]
    k = len(first)
    for a in range(len(second)):
        if second[a] is None:
            second[a] = k
            k += 1
    return first, second, k


def _pairs(n):
    def f(D):
        a = D.choice("face of the first cell", SLOTS[n])
        b = D.choice("face of the second cell", SLOTS[n])
        turn = D.choice("rotation", list(range(n)))
        swap = D.choice("order", [False, True])
        standard, same = D.choice("numbering", [(True, True), [(False, True), (True, False), (False, False)][turn % 3]])
        first, second, size = pair(a[0], a[1], b[0], b[1], turn, same)
        cells = [(a[0], first, a[1]), (b[0], second, b[1])]
        cells = cells[::-1] if swap else cells
        r = random.Random("%s%s%s" % (a, b, turn))
        number = list(range(size))
        r.shuffle(number)
        cells = [(k, [number[i] for i in c], i) for k, c, i in cells]
        if D.symbolic:
            R = Ring(D)
            pts = coords(R, "p", size)
        else:
            r = random.Random(D.int("geometry", 0, 2 ** 31))
            pts = [[r.uniform(-1, 1) for _ in range(3)] for _ in range(size)]
        if cells[0][0] == cells[1][0]:
            blocks = [(cells[0][0], [cells[0][1], cells[1][1]])]
        else:
            blocks = [(k, [c]) for k, c, i in cells]
        p = [[pts[i] for i in c] for k, c, i in cells]
        f0 = FACES[cells[0][0]][cells[0][2]]
        q = [p[0][j] for j in f0]
        if D.symbolic:
            # planar shared face: its nodes after the third are on its plane
            if n == 4:
                R.assume_zero(M.det4(*q))
            c = [[sum((x[k] for x in y[1:]), y[0][k]) / len(y) for k in range(3)] for y in p]
            N = cross(sub(q[1], q[0]), sub(q[2], q[0]))
            line = sub(c[1], c[0])
            # the centres of convex cells lie on either side of the shared face
            # (N points out of cells in the standard numbering, into mirrored ones)
            sign = 1 if standard else -1
            R.assume_pos(sign * dot(N, line))
            L, S = R.root(dot(line, line), "|line|"), R.root(dot(N, N), "|normal|")
        mesh = M.mesh_of(D.T, array(pts) if D.symbolic else pts, blocks)
        conn = mesh.connections
        D.prove("one row of six entries per cell", np.shape(conn) == (2, 6))
        for i in (0, 1):
            row = [int(x) for x in conn[i]]
            want = [1 - i if j == cells[i][2] else -1 for j in range(6)]
            D.prove("connected through the shared face, and only through it", row == want, "row %d: %r" % (i, row))
        if D.symbolic:
            quality = mesh.qualities
            D.prove("one quality per cell", len(quality) == 2)
            for i in (0, 1):
                R.eq("quality is the cosine of the line and the normal", quality[i] * L * S, sign * dot(N, line))
    f.__name__ = "pairs_through_a_%s" % {3: "triangle", 4: "quadrangle"}[n]
    contract("C10", CONN + QUAL, budget=120, samples=300, fallback=1500, objarrays=True,
             bounded="two cells, every pair of faces and every relative rotation; coordinates unbounded")(f)


_pairs(3)
_pairs(4)


def oracle(cells):
    """Connections from the node sets of faces."""
    seen = {}
    for i, (kind, c) in enumerate(cells):
        for j, f in enumerate(FACES[kind]):
            seen.setdefault(frozenset(c[k] for k in f), []).append((i, j))
    out = [[-1] * 6 for _ in cells]
    for v in seen.values():
        assert len(v) <= 2
        if len(v) == 2:
            (i, j), (k, m) = v
            out[i][j], out[k][m] = k, i
    return out


def centre(pts, c):
    return [sum(float(pts[i][k]) for i in c) / len(c) for k in range(3)]


@contract("C10", CONN + QUAL, symbolic=False, fallback=150, bounded="sampled conforming hybrid meshes of up to 72 cells")
def hybrid_meshes(D):
    r = random.Random(D.int("geometry", 0, 2 ** 31))
    pts, cells, _ = G.hybrid_cells(r, kinds=r.choice(["h", "hw", "hp", "hwp", "hwpt", "hpt"]))
    G.positively(pts, cells)
    if r.random() < .5:
        # cells in a mirrored numbering
        cells = [(k, [c[i] for i in MIRROR[k]] if r.random() < .5 else c) + tuple(x) for k, c, *x in cells]
    pts, blocks = G.scramble(r, pts, cells)
    flat = [(k, c) for k, b in blocks for c in b]
    mesh = M.mesh_of(D.T, pts, blocks)
    want = oracle(flat)
    got = [[int(x) for x in row] for row in mesh.connections]
    D.prove("connected if and only if a face is shared, at the index of the face", got == want,
            "%s" % [(i, g, w) for i, (g, w) in enumerate(zip(got, want)) if g != w][:3])
    if any(all(x < 0 for x in row) for row in want):
        return
    q = mesh.qualities
    cs = [centre(pts, c) for k, c in flat]
    D.prove("one quality per cell", len(q) == len(flat))
    for i, (kind, c) in enumerate(flat):
        cosines = []
        for j, f in enumerate(FACES[kind]):
            k = want[i][j]
            if k >= 0:
                n = M.polygon([list(map(float, pts[c[a]])) for a in f])[1]
                line = sub(cs[k], cs[i])
                cosines.append(abs(dot(n, line)) / M.norm(line))
        D.close("quality is the smallest absolute cosine", q[i], min(cosines), rel=1e-7, abs_=1e-9)


@contract("C10", CONN, symbolic=False, fallback=20, bounded="sampled triangle and quadrangle meshes")
def plane_meshes_are_rejected(D):
    n = D.int("n", 1, 5)
    pts = [[float(i), float(j)] for j in range(2) for i in range(n + 1)]
    quads = [[i, i + 1, i + n + 2, i + n + 1] for i in range(n)]
    mesh = M.mesh_of(D.T, pts, [("quad", quads)])
    D.raises("no connections of a 2D mesh", ValueError, lambda: mesh.connections)
