"""C08: cell labels."""
import numpy as np

from pyvc.domain import contract
from props.inputlib import label

LABELER = "toughio._mesh._common.labeler"
LENGTH = "toughio._common.get_label_length"
UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def capacity(length):
    return 26 * 35 * 35 * 10 ** (length - 3)


def smallest(D, n):
    """The smallest length of five or more that holds n labels."""
    for length in (5, 6, 7, 8):
        if D.truth(n <= capacity(length)):
            return length
    return 9


def upper(D, c):
    return D.or_(*[D.eqx(c, u) for u in UPPER])


def shape(D, lab, length):
    D.prove("exactly the requested length", len(lab) == length, "%r" % (lab,))
    D.prove("starts with an upper-case letter", upper(D, lab[0]), "%r" % (lab,))
    D.prove("no blank inside", D.not_(D.or_(*[D.eqx(c, " ") for c in lab])), "%r" % (lab,))


def pick(D, labs, i, j):
    """The labels of cells i and j."""
    if D.symbolic:
        a, b = list(labs)
        return a, b
    return str(labs[i]), str(labs[j])


@contract("C08", [LABELER, LENGTH], budget=120, samples=60, fallback=400, max_paths=2000)
def labels(D):
    """Any two labels of a mesh of any size."""
    given = D.choice("length", [None, 5, 6, 7, 8, 9])
    top = capacity(given or 9)
    if D.symbolic:
        n = D.int("n", 2, top)
        m = D.int("m", 2, top)
    else:
        # small sizes, and the carries of the shorter characters
        kind = D.choice("size", ["small", "carry"])
        n = D.int("n", 2, 4000) if kind == "small" else D.choice("carry", [
            101, 3501, 35001, 122501, 122600]) if given in (None, 5) else 1500
        m = D.int("m", 2, 40)
    i = D.int("i", 0)
    j = D.int("j", 1)
    if not D.symbolic:
        i, j = i % n, j % n
    D.assume(D.and_(i < j, D.lt(j, n)))
    labeler = D.T("_mesh._common").labeler
    if D.symbolic:
        D.elements(n, [i, j])
    labs = labeler(n) if given is None and D.choice("default", [False, True]) else labeler(n, given)
    length = smallest(D, n) if given is None else given
    if not D.symbolic:
        D.prove("one label per cell", len(labs) == n, "%d labels" % len(labs))
        D.prove("all distinct", len(set(labs.tolist())) == n)
    a, b = pick(D, labs, i, j)
    shape(D, a, length)
    shape(D, b, length)
    D.prove("pairwise distinct", D.not_(D.eqx(a, b)), "%r and %r" % (a, b))
    # recovering the length
    get = D.T("_common").get_label_length
    D.prove("length recovered from the label", get(a) == length)
    rest = "".join(D.choice_text("r%d" % k, " ") for k in range(9 - length)) if False else " " * (9 - length)
    D.prove("length recovered before blanks", get((a + rest)[:9]) == length)
    D.prove("length recovered before another label", get((a + b)[:9]) == length)
    # the i-th label never changes with the mesh size
    if D.symbolic:
        D.assume(j < m)
        if given is None and smallest(D, m) != length:
            return
        D.elements(m, [i, j])
        c, d = pick(D, labeler(m, given), i, j)
    else:
        if j >= m:
            m = j + 1
        if given is None and smallest(D, m) != length:
            return
        c, d = pick(D, labeler(m, given), i, j)
    D.prove("the label depends on the position only", D.and_(D.eqx(a, c), D.eqx(b, d)), "%r, %r" % (a, c))


@contract("C08", [LABELER], symbolic=False, fallback=1, sample_s=60,
          bounded="all 3,185,000 labels of 5 characters; the first label of 6")
def exhaustive(D):
    labs = D.T("_mesh._common").labeler(capacity(5), D.choice("given", [None, 5]))
    D.prove("one label per cell", len(labs) == capacity(5))
    D.prove("five characters", labs.dtype.itemsize == 20)
    D.prove("all distinct", len(np.unique(labs)) == capacity(5))


@contract("C08", [LENGTH], budget=20, samples=200, fallback=1000)
def recovered(D):
    """A label of any length (letter, four characters, digits), whatever follows it."""
    length = D.choice("length", [5, 6, 7, 8, 9])
    a = label(D, "a", length)
    b = label(D, "b", length)
    get = D.T("_common").get_label_length
    what = D.choice("then", ["nothing", "blanks", "label", "any"])
    if what == "any":
        c = D.text("c", 1)
        D.assume(D.not_(D.or_(*[D.eqx(c, x) for x in "0123456789"])))
        b = c + b
    s = a + {"nothing": "", "blanks": " " * 10, "label": b, "any": b}[what]
    D.prove("length recovered", get(s) == length, "%r" % (s,))
    D.prove("length recovered in nine columns", get(s[:9]) == length, "%r" % (s,))


def at_length(D, m, n, length):
    labs = list(m.labels)
    D.prove("one label per cell", len(labs) == n)
    D.prove("all distinct", len(set(labs)) == n)
    for l in labs:
        shape(D, str(l), length)


@contract("C08", ["toughio._mesh._mesh.Mesh.labels"], symbolic=False, fallback=40,
          bounded="structured grids of up to 500 cells")
def mesh(D):
    """Mesh.labels uses the mesh's size and label length."""
    nx, ny = D.int("nx", 1, 25), D.int("ny", 1, 20)
    m = D.T("meshmaker").structured_grid([1.0] * nx, [1.0] * ny, [1.0])
    length = D.choice("length", [None, 5, 6, 7, 8, 9])
    if length is not None:
        m.label_length = length
    at_length(D, m, nx * ny, length or 5)
    other = D.choice("other length", [None, 5, 6, 7, 8, 9])
    m.label_length = other
    at_length(D, m, nx * ny, other or 5)
    # cells are added and taken away
    first = list(m.labels)
    cells = [(c.type, c.data) for c in m.cells]
    m.cells = cells + [("tetra", np.zeros((D.int("added", 1, 30), 4), dtype=int))]
    at_length(D, m, m.n_cells, other or 5)
    D.prove("labels depend on the position of the cell", list(m.labels)[:len(first)] == first)
    m.cells = [(k, c[:-1] if len(c) > 1 else c) for k, c in cells]
    at_length(D, m, m.n_cells, other or 5)
    D.prove("labels depend on the position of the cell", list(m.labels) == first[:m.n_cells])
