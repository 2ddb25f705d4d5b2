"""Comparison of a mesh read back with the reference, under a capability's declared freedoms.
Returns a list of (mechanism, message)."""
import numpy as np

from .ref import NN


def expect_points(ref, cap):
    p = np.asarray(ref.points)
    if p.ndim == 2 and p.shape[1] == 2 and cap.pad3:
        p = np.column_stack([p, np.zeros(len(p), dtype=p.dtype)])
    return p


def close(a, b, rtol, atol=0.0):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if rtol == 0 and atol == 0:
        if a.dtype.kind == "f" or b.dtype.kind == "f":
            if a.dtype.kind == "f" and b.dtype.kind == "f" and a.dtype.itemsize != b.dtype.itemsize:
                # f4 input stored as f8 or via text: equal at the precision of the input
                t = a.dtype if a.dtype.itemsize < b.dtype.itemsize else np.dtype("f8")
                return bool(np.array_equal(a.astype(t), b.astype(t), equal_nan=True))
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if a.dtype.kind == b.dtype.kind == "f" and a.dtype.itemsize < b.dtype.itemsize:
        b = b.astype(a.dtype)
    a = a.astype("f8")
    b = b.astype("f8")
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def canon_blocks(cells, mode):
    """[(type, ndarray, [(block, row)...])] after the format's declared regrouping."""
    items = []
    for i, (t, d) in enumerate(cells):
        d = np.asarray(d)
        key = (t, d.shape[1] if d.ndim == 2 else -1)
        items.append([key, [d], [i]])
    if mode == "exact":
        out = items
    elif mode == "merge":
        out = []
        for it in items:
            if len(it[1][0]) == 0:
                continue
            if out and out[-1][0] == it[0]:
                out[-1][1] += it[1]
                out[-1][2] += it[2]
            else:
                out.append([it[0], list(it[1]), list(it[2])])
    else:
        d = {}
        for it in items:
            if len(it[1][0]) == 0:
                continue
            if it[0] in d:
                d[it[0]][1] += it[1]
                d[it[0]][2] += it[2]
            else:
                d[it[0]] = [it[0], list(it[1]), list(it[2])]
        out = [d[k] for k in sorted(d)]
    return [(k, np.concatenate(v) if len(v) > 1 else v[0], idx) for k, v, idx in out]


def wellformed(m, strict_index=True):
    """Well-formedness of a meshio mesh object."""
    v = []
    p = np.asarray(m.points)
    if p.ndim != 2 or p.dtype.kind not in "fiu":
        if not (p.size == 0):
            v.append(("points-shape", f"points have shape {p.shape} dtype {p.dtype}"))
    npt = len(p)
    for k, c in enumerate(m.cells):
        if c.type.startswith("polyhedron"):
            continue
        d = np.asarray(c.data)
        if d.ndim != 2 or (d.dtype.kind not in "iu" and d.size):
            v.append(("cells-shape", f"block {k} {c.type}: shape {d.shape} dtype {d.dtype}"))
            continue
        if c.type in NN and d.shape[1] != NN[c.type] and len(d):
            v.append(("cells-width", f"block {k} {c.type}: width {d.shape[1]}"))
        if strict_index and d.size and (d.min() < 0 or d.max() >= npt):
            v.append(("cells-range", f"block {k} {c.type}: index range {d.min()}..{d.max()} of {npt}"))
    for n, a in m.point_data.items():
        if len(a) != npt:
            v.append(("pd-len", f"point data {n!r}: {len(a)} values for {npt} points"))
    for n, l in m.cell_data.items():
        if len(l) != len(m.cells):
            v.append(("cd-blocks", f"cell data {n!r}: {len(l)} blocks for {len(m.cells)}"))
            continue
        for k, (a, c) in enumerate(zip(l, m.cells)):
            if len(a) != len(c.data):
                v.append(("cd-len", f"cell data {n!r} block {k}: {len(a)} for {len(c.data)} cells"))
    for n, s in m.point_sets.items():
        s = np.asarray(s)
        if s.size and (s.dtype.kind not in "iu" or s.min() < 0 or s.max() >= npt):
            v.append(("pset-range", f"point set {n!r} out of range"))
    for n, l in m.cell_sets.items():
        if n == "gmsh:bounding_entities":  # tags of geometric entities, kept per block
            continue
        if len(l) != len(m.cells):
            v.append(("cset-blocks", f"cell set {n!r}: {len(l)} blocks for {len(m.cells)}"))
            continue
        for k, (a, c) in enumerate(zip(l, m.cells)):
            if a is None:
                continue
            a = np.asarray(a)
            if a.size and (a.min() < 0 or a.max() >= len(c.data)):
                v.append(("cset-range", f"cell set {n!r} block {k} out of range"))
    return v


def cmp_geometry(ref, m, cap):
    v = []
    if cap.soup:
        return cmp_soup(ref, m, cap)
    p = expect_points(ref, cap)
    q = np.asarray(m.points)
    if q.shape != p.shape:
        v.append(("points-shape", f"points {p.shape} came back as {q.shape}"))
    elif not close(p, q, cap.ptol, cap.patol):
        bad = np.argwhere(~np.isclose(p.astype("f8"), q.astype("f8"), rtol=cap.ptol, atol=cap.patol))
        i = tuple(bad[0]) if len(bad) else (0, 0)
        v.append(("points-value", f"point {i}: {p[i]!r} came back as {q[i]!r} ({len(bad)} differ)"))
    elif cap.pdt_out == "same" and (q.dtype.kind, q.dtype.itemsize) != (p.dtype.kind, p.dtype.itemsize):
        v.append(("points-dtype", f"points dtype {p.dtype} came back as {q.dtype}"))
    a = canon_blocks(ref.cells, cap.blocks)
    b = canon_blocks([(c.type, c.data) for c in m.cells], cap.blocks)
    if cap.mirror and [(k, len(d)) for k, d, _ in a] == [(k, len(d)) for k, d, _ in b]:
        a = [(k, right_handed(k[0], d, p, e[1]), i) for (k, d, i), e in zip(a, b)]
    v += cmp_blocks(a, b)
    return v


MIRROR = {"tetra": (1, 2, 3, [0, 2, 1, 3]), "pyramid": (1, 3, 4, [0, 3, 2, 1, 4]),
          "wedge": (1, 3, 2, [0, 2, 1, 3, 5, 4]),
          "hexahedron": (1, 3, 4, [0, 3, 2, 1, 4, 7, 6, 5])}


def right_handed(t, d, p, got):
    """FLAC3D zones have right-handed P1-P2, P1-P3, P1-P4: left-handed cells are stored
    mirrored (the same cell, other starting direction)."""
    if t not in MIRROR or not len(d):
        return d
    i, j, k, perm = MIRROR[t]
    q = p.astype("f8")[d.astype("i8")]
    det = np.einsum("ij,ij->i", q[:, i] - q[:, 0],
                    np.cross(q[:, j] - q[:, 0], q[:, k] - q[:, 0]))
    scale = (np.linalg.norm(q[:, i] - q[:, 0], axis=1) * np.linalg.norm(q[:, j] - q[:, 0], axis=1)
             * np.linalg.norm(q[:, k] - q[:, 0], axis=1))
    flat = np.abs(det) <= 1e-9 * scale  # orientation undefined: either is right
    keep = np.where(flat, (got.astype("i8") == d.astype("i8")).all(axis=1), det > 0)
    return np.where(keep[:, None], d, d[:, perm])


def cmp_blocks(a, b):
    ka = [(k, len(d)) for k, d, _ in a]
    kb = [(k, len(d)) for k, d, _ in b]
    if ka != kb:
        return [("cells-structure", f"cells {ka} came back as {kb}"[:300])]
    v = []
    for (k, d, _), (_, e, _) in zip(a, b):
        if e.dtype.kind not in "iu" and e.size:
            v.append(("cells-dtype", f"{k[0]} connectivity has dtype {e.dtype}"))
            continue
        d64 = d.astype("i8")
        e64 = e.astype("i8")
        if not np.array_equal(d64, e64):
            i = int(np.argwhere((d64 != e64).any(axis=1))[0][0])
            v.append((f"cells-nodes", f"{k[0]} cell {i}: {d64[i].tolist()} came back as "
                                           f"{e64[i].tolist()}"[:300]))
    return v


def cmp_soup(ref, m, cap):
    p = expect_points(ref, cap)
    tri = [np.asarray(d) for t, d in ref.cells if t == "triangle"]
    tri = np.concatenate(tri) if tri else np.zeros((0, 3), int)
    exp = p[tri]
    gt = [np.asarray(c.data) for c in m.cells if c.type == "triangle"]
    if any(c.type != "triangle" for c in m.cells):
        return [("cells-structure", "unexpected cell types")]
    got = np.asarray(m.points)[np.concatenate(gt).astype("i8")] if gt else np.zeros((0, 3, 3))
    if exp.shape != got.shape and not (exp.size == 0 and got.size == 0):
        return [("cells-structure", f"triangles {exp.shape} came back as {got.shape}")]
    if not close(exp, got, cap.ptol, cap.patol):
        return [("points-value", "triangle vertex coordinates differ")]
    return []


def block_perm(ref, m, cap):
    """Pairs (ref block list, got block list) of corresponding groups, or None."""
    a = canon_blocks(ref.cells, cap.blocks)
    b = canon_blocks([(c.type, c.data) for c in m.cells], cap.blocks)
    if [(k, len(d)) for k, d, _ in a] != [(k, len(d)) for k, d, _ in b]:
        return None
    return [(x[2], y[2]) for x, y in zip(a, b)]


def _cmp_array(what, exp, got, cap, v):
    got = np.asarray(got)
    exp = np.asarray(exp)
    if cap.squeeze1 and exp.ndim == 2 and exp.shape[1] == 1 and got.ndim == 1:
        exp = exp[:, 0]
    if cap.flat and exp.ndim > 2 and got.ndim == 2:  # matrices are stored row by row
        exp = exp.reshape(len(exp), int(np.prod(exp.shape[1:])))
    if got.shape != exp.shape:
        v.append(("data-shape", f"{what}: shape {exp.shape} came back as {got.shape}"))
        return
    if got.size == 0:
        return
    tol = cap.dtol if exp.dtype.kind == "f" else 0
    if not close(exp, got, tol, cap.dtol and 1e-300):
        bad = np.argwhere(~np.isclose(exp.astype("f8"), got.astype("f8"), rtol=tol, atol=0))
        i = tuple(bad[0]) if len(bad) else (0,)
        v.append(("data-value", f"{what}{list(map(int, i))}: {exp[i]!r} came back as {got[i]!r} "
                                f"({len(bad)} of {exp.size} differ)"))
    elif cap.data_dtype == "same" and (got.dtype.kind, got.dtype.itemsize) != (
            exp.dtype.kind, exp.dtype.itemsize):
        v.append(("data-dtype", f"{what}: dtype {exp.dtype} came back as {got.dtype}"))


def cmp_data(ref, m, cap, extra_ok=True):
    v = []
    for n, a in ref.point_data.items():
        if n not in m.point_data:
            v.append(("data-missing", f"point data {n!r} missing; have {list(m.point_data)}"))
            continue
        _cmp_array(f"point data {n!r}", a, m.point_data[n], cap, v)
    if ref.cell_data:
        pairs = block_perm(ref, m, cap)
        if pairs is None:
            v.append(("cells-structure", "cell structure changed, cell data cannot be matched"))
            return v
        for n, l in ref.cell_data.items():
            if n not in m.cell_data:
                v.append(("data-missing", f"cell data {n!r} missing; have {list(m.cell_data)}"))
                continue
            for ra, rb in pairs:
                exp = [np.asarray(l[i]) for i in ra]
                got = [np.asarray(m.cell_data[n][i]) for i in rb]
                exp = np.concatenate(exp) if len(exp) > 1 else exp[0]
                try:
                    got = np.concatenate(got) if len(got) > 1 else got[0]
                except ValueError as e:
                    v.append(("data-shape", f"cell data {n!r}: {e}"))
                    continue
                _cmp_array(f"cell data {n!r} ({ref.cells[ra[0]][0]})", exp, got, cap, v)
    return v
