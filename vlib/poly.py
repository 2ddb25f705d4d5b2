"""Polyhedral meshes."""
import numpy as np

from .ref import Ref

SHAPES = {
    4: [[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]],
    5: [[0, 1, 2, 3], [0, 1, 4], [1, 2, 4], [2, 3, 4], [3, 0, 4]],
    6: [[0, 1, 2], [3, 4, 5], [0, 1, 4, 3], [1, 2, 5, 4], [2, 0, 3, 5]],
    8: [[0, 1, 2, 3], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]],
    10: [[0, 1, 2, 3, 4], [5, 6, 7, 8, 9], [0, 1, 6, 5], [1, 2, 7, 6], [2, 3, 8, 7], [3, 4, 9, 8], [4, 0, 5, 9]],
}


def gen(rng, data=True, unique=True):
    """Blocks of one number of nodes each; ``unique``: every number once."""
    n = int(rng.integers(10, 40))
    pts = np.round(rng.normal(size=(n, 3)), 3)
    sizes = [int(k) for k in rng.permutation(list(SHAPES))[: int(rng.integers(1, 5))]]
    if not unique:
        sizes += sizes[:1]
    cells = []
    for k in sizes:
        blk = []
        for _ in range(int(rng.integers(1, 5))):
            nod = rng.permutation(n)[:k]
            f = [nod[x] for x in SHAPES[k]]
            blk.append([f[i] for i in rng.permutation(len(f))])
        cells.append((f"polyhedron{k}", blk))
    ref = Ref(pts, cells)
    if data:
        ref.point_data["p"] = rng.normal(size=n)
        ref.cell_data["c"] = [rng.normal(size=len(b)) for _, b in cells]
        ref.cell_data["v"] = [rng.integers(0, 99, (len(b), 3)) for _, b in cells]
    return ref


def flat(cells, data=None):
    """{type: [(faces as tuples, data)...]} in order."""
    out = {}
    for i, (t, b) in enumerate(cells):
        for j, c in enumerate(b):
            d = tuple(tuple(np.ravel(data[k][i][j]).tolist()) for k in sorted(data)) if data else ()
            out.setdefault(t, []).append((tuple(tuple(int(x) for x in f) for f in c), d))
    return out
