"""Configurations in which every pair of options of two dimensions appears."""
import itertools
import random


def pairs(dims):
    """dims: {name: list of options} -> list of {name: option} covering every pair (deterministic, greedy)."""
    names = list(dims)
    todo = {(a, i, b, j) for a, b in itertools.combinations(range(len(names)), 2)
            for i in range(len(dims[names[a]])) for j in range(len(dims[names[b]]))}
    r = random.Random(20)
    out = []
    while todo:
        best, score = None, -1
        for _ in range(40):
            a, i, b, j = sorted(todo)[r.randrange(len(todo))]
            row = [r.randrange(len(dims[n])) for n in names]
            row[a], row[b] = i, j
            k = sum((x, row[x], y, row[y]) in todo for x, y in itertools.combinations(range(len(names)), 2))
            if k > score:
                best, score = row, k
        todo -= {(x, best[x], y, best[y]) for x, y in itertools.combinations(range(len(names)), 2)}
        out.append({n: dims[n][best[k]] for k, n in enumerate(names)})
    return out


def config(D, dims, name="configuration"):
    """One configuration: one of a set covering all pairs for a proof, any combination for a sample."""
    if D.symbolic:
        return D.choice(name, pairs(dims))
    return {k: D.choice(k, v) for k, v in dims.items()}
