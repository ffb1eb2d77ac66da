"""Conforming hybrid meshes: boxes cut into hexahedra, wedges, pyramids and tetrahedra."""
import itertools

import numpy as np

from props import meshlib as M


def hybrid_cells(r, n=None, kinds="hwpt"):
    """(points, [(kind, nodes)], spacings): a conforming mesh of a box; faces match exactly."""
    nx, ny, nz = n or [r.randint(1, 3), r.randint(1, 2), r.randint(1, 2)]
    xs, ys, zs = ([0.0] + np.cumsum([r.choice([1.0, r.uniform(.3, 2)]) for _ in range(k)]).tolist() for k in (nx, ny, nz))
    pid = {}
    pts = []

    def pt(p):
        p = tuple(p)
        if p not in pid:
            pid[p] = len(pts)
            pts.append(list(p))
        return pid[p]

    cells = []
    kind = {}
    for i, j in itertools.product(range(nx), range(ny)):
        column = r.choice("hhw") if "w" in kinds else "h"
        flip = r.random() < .5
        for k in range(nz):
            kind[i, j, k] = (column, flip) if column == "w" else (r.choice([c for c in "hp" if c in kinds] or ["h"]), 0)
    diagonals = {}
    for (i, j, k), (c, flip) in kind.items():
        h = [pt((xs[i + a], ys[j + b], zs[k + d])) for d in (0, 1) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]
        if c == "h":
            cells.append(("hexahedron", h))
        elif c == "w":
            for t in (((0, 1, 2), (0, 2, 3)) if flip else ((0, 1, 3), (1, 2, 3))):
                cells.append(("wedge", [h[a] for a in t] + [h[a + 4] for a in t]))
        else:
            apex = pt(((xs[i] + xs[i + 1]) / 2, (ys[j] + ys[j + 1]) / 2, (zs[k] + zs[k + 1]) / 2))
            for n_, f in enumerate(M.FACES["hexahedron"]):
                base = [h[a] for a in reversed(f)]  # seen from the apex the base is counter-clockwise
                off = [(0, 0, -1), (0, 0, 1), (0, -1, 0), (1, 0, 0), (0, 1, 0), (-1, 0, 0)][n_]
                other = kind.get((i + off[0], j + off[1], k + off[2]))
                if "t" in kinds and (other is None or other[0] == "p"):
                    key = frozenset(base)
                    if key not in diagonals:
                        diagonals[key] = r.choice([None, 0, 1])
                    d = diagonals[key]
                    if d is not None:
                        s = sorted(base)
                        m = base.index(s[0])
                        b = base[m:] + base[:m]
                        if d == 0:
                            tri = [(b[0], b[1], b[2]), (b[0], b[2], b[3])]
                        else:
                            tri = [(b[1], b[2], b[3]), (b[1], b[3], b[0])]
                        for t in tri:
                            cells.append(("tetra", [t[0], t[1], t[2], apex]))
                        continue
                cells.append(("pyramid", base + [apex]))
    return np.array(pts), cells, (xs, ys, zs)


def positively(pts, cells):
    """Cells in the standard ordering have a positive divergence volume."""
    for kind, c in cells:
        v = M.volume6(kind, [list(map(float, pts[i])) for i in c])
        assert v > 0, (kind, v)


def scramble(r, pts, cells, affine=True):
    """Renumber points, cells and the nodes within cells; group into blocks in any order."""
    if affine:
        q = M.rotation(r)
        s = np.diag([r.uniform(.5, 2) for _ in range(3)])
        a = q @ s @ M.rotation(r)
        pts = (pts @ a.T + np.array([r.uniform(-4, 4) for _ in range(3)])) * r.choice([1.0, 1.0, 1.0, 1e-6, 1e4])
    order = list(range(len(pts)))
    r.shuffle(order)
    new = np.empty_like(pts)
    for i, k in enumerate(order):
        new[k] = pts[i]
    out = []
    for kind, c in cells:
        p = r.choice(M.rot(kind))
        out.append((kind, [order[c[i]] for i in p]))
    r.shuffle(out)
    blocks = []
    how = r.random()
    if how < .4:
        for kind in r.sample(M.KINDS, 4):
            c = [x for k, x in out if k == kind]
            if c:
                blocks.append((kind, c))
    else:
        for kind, c in out:
            if blocks and blocks[-1][0] == kind and r.random() < .8:
                blocks[-1][1].append(c)
            else:
                blocks.append((kind, [c]))
    return new, blocks


def hybrid_box(r):
    pts, cells, (xs, ys, zs) = hybrid_cells(r)
    positively(pts, cells)
    q = M.rotation(r)
    s = r.choice([1.0, .1, 20.0, 1e-6, 1e5])
    pts = pts @ q.T * s
    pts, blocks = scramble(r, pts, cells, affine=False)
    x, y, z = (v[-1] * s for v in (xs, ys, zs))
    return pts, blocks, x * y * z, 2 * (x * y + y * z + z * x)
