"""C14: mesh views and set/data conversions describe the same cells."""
import copy

import numpy as np

from vlib import gen
from vlib.caps import CAPS
from vlib.env import exc_str, meshio, observe, scratch
from vlib.ref import NN
from vlib.rt import rng_of
from vlib.snap import diff, snap

ID = "C14"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: views and conversions against an independent recomputation"
RULE = ("seeded random meshes (repeated, interleaved and empty blocks, sets with empty and None "
        "members, integer data of every dtype) whose views are compared with a cell-by-cell "
        "recomputation, random sequences of set/data conversions compared as partitions, copies "
        "mutated array by array, sets written through the formats that turn them into data; "
        "non-trivial: a view with at least two blocks, or a conversion with at least two "
        "classes; distinct by block structure, set sizes and operation sequence")
ASSUMPTIONS = ["overlapping sets are no partition: their conversion to data is out of scope",
               "polygon blocks of one width (the per-type views concatenate)"]
REQUIRE = {"quick": {"views_compared": 3000, "conversions": 3000, "copies_mutated": 300,
                     "files_with_sets": 150, "names_preserved": 300,
                     "views_changed": 3000, "views_after_change": 1500}}
CPU = 30
TYPES = [t for t in gen.WILD.types if t != "polygon"]


def build(rng, cells=None):
    k = int(rng.integers(1, 9))
    pool = [str(t) for t in rng.permutation(TYPES)[: int(rng.integers(1, 4))]]
    blocks = []
    for _ in range(k):
        t = str(rng.choice(pool))
        n = int(rng.integers(0, 6)) if rng.random() < 0.9 else 0
        blocks.append([t, n])
    if cells:
        blocks = cells
    ref = gen.gen(rng, gen.WILD, size="small", data=False, blocks=blocks)
    return ref


def partition_sets(rng, n_cells_per_block, cover, nclasses):
    """Disjoint sets as index lists per block."""
    total = sum(n_cells_per_block)
    lab = rng.integers(0, nclasses, total)
    if not cover:
        lab[rng.random(total) < 0.3] = -1
    return lab


NAMES = [["a", "b", "c", "d"], ["inlet", "outlet", "wall", "top"], ["x", "set one", "Y", "z"],
         ["a-b", "c", "d", "e-f"], ["2", "1", "0", "3"], ["zz", "b", "aa", "k"]]


def cases(tier, seed):
    n = 3000 if tier == "quick" else 30000
    out = []
    for i in range(n):
        for k in ("views", "sets", "data", "points"):
            out.append({"k": k, "s": seed * 1000000 + i})
        if i % 2 == 0:
            out.append({"k": "copy", "s": seed * 1000000 + i})
    for v in ("vtk51-a", "vtk51-b", "vtu-a", "vtu-zlib", "vtu-raw"):
        for i in range(200 if tier == "quick" else 2000):
            out.append({"k": "file", "v": v, "s": seed * 1000000 + i})
    return out


def run(case, ctx):
    rng = rng_of("C14", case["k"], case.get("v", ""), case["s"])
    globals()["run_" + case["k"]](case, ctx, rng)


def cat(parts, like):
    parts = [p for p in parts]
    return np.concatenate(parts) if parts else like


def eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and (a.size == 0 or np.array_equal(a, b))


def run_views(case, ctx, rng):
    ref = build(rng)
    for nm in gen.names(rng, int(rng.integers(0, 3))):
        kind, dt = gen._kind(rng, gen.WILD.cd_kinds)
        ref.cell_data[nm] = [gen.data_values(rng, gen.shape_of(kind, len(c)), dt) for _, c in ref.cells]
    for nm in gen.names(rng, int(rng.integers(0, 4))):
        l = []
        for _, c in ref.cells:
            x = rng.random()
            if x < 0.2:
                l.append(None)
            elif x < 0.35:
                l.append(np.array([], dtype=int))
            else:
                l.append(rng.permutation(len(c))[: int(rng.integers(0, len(c) + 1))])
        ref.cell_sets[nm] = l
    m = ref.mesh()
    before = snap(m)
    o = observe(lambda: (m.cells_dict, m.cell_data_dict, m.cell_sets_dict))
    if o.exc is not None:
        ctx.viol("view-raised", f"{exc_str(o.exc)} for {ref.describe()}", where="views")
        return
    cd, cdd, csd = o.value
    types = []
    for t, _ in ref.cells:
        if t not in types:
            types.append(t)
    bad = []
    if list(cd) != types:
        bad.append(("cells_dict", f"types {list(cd)} instead of {types}"))
    for t in types:
        # independent: one cell at a time
        exp = [row.tolist() for tt, c in ref.cells if tt == t for row in c]
        if t in cd and cd[t].tolist() != exp:
            bad.append(("cells_dict", f"{t}: wrong cells"))
        g = m.get_cells_type(t)
        if g.tolist() != exp:
            bad.append(("get_cells_type", f"{t}: wrong cells"))
        ctx.event("views_compared", 2)
    absent = [t for t in NN if t not in types][int(rng.integers(0, 5))]
    g = observe(m.get_cells_type, absent)
    if g.exc is not None or g.value.shape != (0, NN[absent]):
        bad.append(("get_cells_type", f"absent type {absent} gave {g.exc or g.value.shape}"))
    if list(cdd) != list(ref.cell_data):
        bad.append(("cell_data_dict", f"keys {list(cdd)}"))
    for nm, l in ref.cell_data.items():
        for t in types:
            exp = [np.asarray(x).tolist() for (tt, _), a in zip(ref.cells, l) if tt == t for x in a]
            if nm in cdd and np.asarray(cdd[nm].get(t)).tolist() != exp:
                bad.append(("cell_data_dict", f"{nm}/{t}: wrong values"))
            g = m.get_cell_data(nm, t)
            if np.asarray(g).tolist() != exp:
                bad.append(("get_cell_data", f"{nm}/{t}: wrong values"))
            ctx.event("views_compared", 2)
    if list(csd) != list(ref.cell_sets):
        bad.append(("cell_sets_dict", f"keys {list(csd)} instead of {list(ref.cell_sets)}"))
    for nm, l in ref.cell_sets.items():
        exp = {}
        off = {}
        for (t, c), s in zip(ref.cells, l):
            for x in ([] if s is None else s):
                exp.setdefault(t, []).append(off.get(t, 0) + int(x))
            off[t] = off.get(t, 0) + len(c)
        got = {t: np.asarray(x).tolist() for t, x in csd.get(nm, {}).items() if len(x)}
        if got != exp:
            bad.append(("cell_sets_dict", f"{nm}: {got} instead of {exp}"[:250]))
        # the members refer to the rows of cells_dict
        ctx.event("views_compared")
    d = diff(before, snap(m))
    if d:
        bad.append(("view-mutates", d[0]))
    bad += window(m, cd, cdd, csd, before, ctx)
    bad += stale(rng, m, ref, ctx)
    for mech, msg in bad:
        ctx.viol(mech, f"{msg} | {ref.describe()}", where="views")
    if len(ref.cells) > 1:
        ctx.obs("views", [(t, len(c)) for t, c in ref.cells], len(ref.cell_sets), len(ref.cell_data))
    ctx.sample(views=ref.describe())


def window(m, cd, cdd, csd, before, ctx):
    """The views are arrays of their own: changing one changes neither the mesh nor the view
    asked for next."""
    bad = []
    t0 = list(cd)[0] if cd else None
    for what, arr in ([(f"cells_dict[{t}]", a) for t, a in cd.items()]
                      + [(f"cell_data_dict[{n}][{t}]", a) for n, x in cdd.items() for t, a in x.items()]
                      + [(f"cell_sets_dict[{n}][{t}]", a) for n, x in csd.items() for t, a in x.items()]
                      + ([("get_cells_type", m.get_cells_type(t0))] if t0 else [])
                      + [("get_cell_data", m.get_cell_data(n, t0)) for n in list(m.cell_data)[:1] if t0]):
        if isinstance(arr, np.ndarray) and arr.size and arr.flags.writeable:
            old = arr.copy()
            arr += arr.dtype.type(1)
            ctx.event("views_changed")
            if snap(m) != before:
                bad.append(("view-window", f"changing {what} changed the mesh"))
                arr[...] = old
    o = observe(lambda: (m.cells_dict, m.cell_data_dict))
    if o.exc is not None:
        return bad + [("view-raised", f"asked again: {exc_str(o.exc)}")]
    for t, a in o.value[0].items():
        if a.tolist() != [r.tolist() for c in m.cells if c.type == t for r in c.data]:
            bad.append(("view-kept", f"cells_dict[{t}] asked for again after a change of the first one"))
    for n, x in o.value[1].items():
        for t, a in x.items():
            exp = [r.tolist() for c, l in zip(m.cells, m.cell_data[n]) if c.type == t for r in np.asarray(l)]
            if np.asarray(a).tolist() != exp:
                bad.append(("view-kept", f"cell_data_dict[{n}][{t}] asked for again after a change"))
    return bad


def stale(rng, m, ref, ctx):
    """The views follow the mesh when it changes."""
    k = int(rng.integers(0, len(m.cells)))
    b = m.cells[k]
    how = int(rng.integers(0, 4))
    if how == 0 and len(b.data):
        b.data[:] = np.roll(b.data, 1, axis=0)
        b.data[0] = b.data[0][::-1]
    elif how == 1:
        m.cells.append(meshio.CellBlock(b.type, b.data[:1].copy()))
        for n, l in m.cell_data.items():
            l.append(np.asarray(l[k])[:1].copy())
        for n, l in m.cell_sets.items():
            l.append(None)
    elif how == 2:
        m.cells.reverse()
        for l in list(m.cell_data.values()) + list(m.cell_sets.values()):
            l.reverse()
    else:
        for l in m.cell_data.values():
            l[k] = l[k] + np.asarray(l[k]).dtype.type(1)
    o = observe(lambda: (m.cells_dict, m.cell_data_dict, m.cell_sets_dict))
    if o.exc is not None:
        return [("view-raised", f"after a change of the mesh: {exc_str(o.exc)}")]
    ctx.event("views_after_change")
    cd, cdd, csd = o.value
    bad = []
    types = list(dict.fromkeys(c.type for c in m.cells))
    if list(cd) != types:
        bad.append(("view-stale", f"types {list(cd)} after a change ({how}) to {types}"))
    for t in types:
        exp = [r.tolist() for c in m.cells if c.type == t for r in c.data]
        if np.asarray(cd.get(t)).tolist() != exp or m.get_cells_type(t).tolist() != exp:
            bad.append(("view-stale", f"{t}: cells from before a change ({how})"))
        for n, l in m.cell_data.items():
            exp = [np.asarray(x).tolist() for c, a in zip(m.cells, l) if c.type == t for x in a]
            if np.asarray(cdd[n].get(t)).tolist() != exp or np.asarray(m.get_cell_data(n, t)).tolist() != exp:
                bad.append(("view-stale", f"{n}/{t}: data from before a change ({how})"))
        for n, l in m.cell_sets.items():
            exp, off = [], 0
            for c, x in zip(m.cells, l):
                if c.type == t:
                    exp += [int(y) + off for y in ([] if x is None else x)]
                    off += len(c.data)
            if [int(y) for y in csd[n].get(t, [])] != exp:
                bad.append(("view-stale", f"set {n}/{t}: {csd[n].get(t)} after a change ({how}), not {exp}"[:250]))
    return bad


def classes_of(lab):
    """Partition of positions by label, unlabelled (-1) apart."""
    out = {}
    for i, x in enumerate(lab):
        out.setdefault(int(x), []).append(i)
    return frozenset(tuple(v) for v in out.values())


def ordered(flat, lab):
    """The name of a set is found from its value: values follow the order of the names."""
    v = {int(b): int(a) for a, b in zip(flat, lab) if b >= 0}
    vals = [v[k] for k in sorted(v)]
    return all(x < y for x, y in zip(vals, vals[1:]))


def split(lab, sizes):
    return np.split(np.asarray(lab), np.cumsum(sizes)[:-1]) if sizes else []


def run_sets(case, ctx, rng):
    """Cell sets -> data -> sets -> data."""
    ref = build(rng)
    sizes = [len(c) for _, c in ref.cells]
    total = sum(sizes)
    names = list(NAMES[int(rng.integers(0, len(NAMES)))])[: int(rng.integers(1, 5))]
    cover = bool(rng.random() < 0.6)
    lab = partition_sets(rng, sizes, cover, len(names)) if total else np.zeros(0, int)
    blocks = split(lab, sizes)
    for i, nm in enumerate(names):
        l = []
        for b in blocks:
            w = np.where(b == i)[0]
            l.append(None if (len(w) == 0 and rng.random() < 0.3) else rng.permutation(w))
        ref.cell_sets[nm] = l
    m = ref.mesh()
    dname = None if rng.random() < 0.5 else "mydata"
    rest = snap((m.points, [c.data for c in m.cells], m.point_data))
    o = observe(m.cell_sets_to_data, dname) if dname else observe(m.cell_sets_to_data)
    if o.exc is not None:
        ctx.viol("sets-to-data-raised", f"{exc_str(o.exc)} | {ref.describe()}", where="sets")
        return
    ctx.event("conversions")
    key = dname or "-".join(names)
    if list(m.cell_data) != [key] or m.cell_sets:
        ctx.viol("sets-to-data", f"data {list(m.cell_data)}, sets left {list(m.cell_sets)}", where="sets")
        return
    got = m.cell_data[key]
    if [len(x) for x in got] != sizes:
        ctx.viol("sets-to-data", "block lengths changed", where="sets")
        return
    flat = np.concatenate(got) if got else np.zeros(0, int)
    if flat.dtype.kind not in "iu":
        ctx.viol("sets-to-data", f"dtype {flat.dtype}", where="sets")
    if classes_of(flat) != classes_of(lab):
        ctx.viol("sets-to-data", f"labels {flat.tolist()} for membership {lab.tolist()}"[:300],
                 where="sets")
        return
    if not ordered(flat, lab):
        ctx.viol("sets-to-data-order", f"values {flat.tolist()} for set numbers {lab.tolist()}"[:300],
                 where="sets")
    if (lab == -1).any() and "not part" not in o.warned:
        ctx.viol("sets-to-data-silent", "unassigned cells were not announced", where="sets")
    # and back
    o = observe(m.cell_data_to_sets, key)
    if o.exc is not None:
        ctx.viol("data-to-sets-raised", f"{exc_str(o.exc)} | {ref.describe()}", where="sets")
        return
    ctx.event("conversions")
    check_cell_sets(ctx, m, sizes, lab, key, names, "sets")
    if snap((m.points, [c.data for c in m.cells], m.point_data)) != rest:
        ctx.viol("conversion-mutates", "points or cells changed", where="sets")
    if len(set(lab.tolist())) > 1:
        ctx.obs("sets", sizes, names, cover, dname, len(set(lab.tolist())))


def check_cell_sets(ctx, m, sizes, lab, key, names, where):
    if key in m.cell_data:
        ctx.viol("data-to-sets", "the data array is still there", where=where)
    off = np.concatenate([[0], np.cumsum(sizes)]).astype(int)
    got = {}
    for nm, l in m.cell_sets.items():
        if len(l) != len(sizes):
            ctx.viol("data-to-sets", f"set {nm!r} has {len(l)} blocks for {len(sizes)}", where=where)
            return
        got[nm] = [int(x) + int(off[k]) for k, b in enumerate(l) for x in ([] if b is None else b)]
    part = frozenset(tuple(sorted(v)) for v in got.values() if v)
    if part != classes_of(lab):
        ctx.viol("data-to-sets", f"sets {got} for labels {lab.tolist()}"[:300], where=where)
        return
    # a set called like an original set contains that set
    for i, nm in enumerate(names):
        if nm in got:
            exp = [j for j, x in enumerate(lab) if x == i]
            if sorted(got[nm]) != exp:
                ctx.viol("set-names", f"set {nm!r}: {got[nm]} instead of {exp}"[:300], where=where)
    if (key == "-".join(names) and not any("-" in n for n in names)
            and sorted(set(lab.tolist())) == list(range(len(names)))):
        ctx.event("names_preserved")
        if list(got) != names:
            ctx.viol("set-names", f"sets {names} came back as {list(got)}", where=where)


DT = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8"]


def labels(rng, n):
    dt = str(rng.choice(DT))
    k = int(rng.integers(1, 6))
    ii = np.iinfo(dt)
    pool = [0, 1, 2, 3, 7, 11, ii.max, ii.max - 1] + ([-1, -2, ii.min] if ii.min < 0 else [])
    vals = [pool[j] for j in rng.permutation(len(pool))[:k]]
    return np.array([vals[int(j)] for j in rng.integers(0, k, n)], dtype=dt)


def run_data(case, ctx, rng):
    """Integer cell data -> sets -> data; real-valued data are refused."""
    ref = build(rng)
    sizes = [len(c) for _, c in ref.cells]
    lab = labels(rng, sum(sizes))
    key = str(rng.choice(["mat", "MaterialIDs", "a-b", "gmsh:physical", "x-y-z", "a-a"]))
    ref.cell_data["other"] = [rng.random(n) for n in sizes]
    ref.cell_data[key] = split(lab, sizes)
    m = ref.mesh()
    if case["s"] % 5 == 0:
        before = snap(m)
        o = observe(m.cell_data_to_sets, "other")
        if any(sizes) and o.exc is None:
            ctx.viol("data-to-sets", "real-valued data were accepted", where="data")
        if o.exc is not None and diff(before, snap(m)):
            ctx.viol("conversion-mutates", "refused conversion changed the mesh", where="data")
        if o.exc is None:
            return
    other = snap(m.cell_data["other"])
    o = observe(m.cell_data_to_sets, key)
    if o.exc is not None:
        ctx.viol("data-to-sets-raised", f"{exc_str(o.exc)} {lab.dtype} | {ref.describe()}", where="data")
        return
    ctx.event("conversions")
    check_cell_sets(ctx, m, sizes, lab, key, [], "data")
    o = observe(m.cell_sets_to_data, "back")
    ctx.event("conversions")
    if sum(sizes):
        if o.exc is not None or "back" not in m.cell_data:
            ctx.viol("sets-to-data-raised", f"{o.exc and exc_str(o.exc)}", where="data")
            return
        if classes_of(np.concatenate(m.cell_data["back"])) != classes_of(lab):
            ctx.viol("sets-to-data", "data -> sets -> data changed the partition", where="data")
    if snap(m.cell_data["other"]) != other:
        ctx.viol("conversion-mutates", "another data array changed", where="data")
    if len(set(lab.tolist())) > 1:
        ctx.obs("data", sizes, str(lab.dtype), key)


def run_points(case, ctx, rng):
    ref = build(rng)
    n = len(ref.points)
    if rng.random() < 0.5:
        names = list(NAMES[int(rng.integers(0, len(NAMES)))])[: int(rng.integers(1, 5))]
        lab = partition_sets(rng, [n], bool(rng.random() < 0.6), len(names))
        for i, nm in enumerate(names):
            ref.point_sets[nm] = rng.permutation(np.where(lab == i)[0])
        m = ref.mesh()
        jc = str(rng.choice(["-", "_", "#"]))
        o = observe(m.point_sets_to_data) if jc == "-" else observe(m.point_sets_to_data, jc)
        key = jc.join(names)
        if o.exc is not None or list(m.point_data) != [key] or m.point_sets:
            ctx.viol("sets-to-data", f"points: {o.exc and exc_str(o.exc)} {list(m.point_data)}", where="points")
            return
        ctx.event("conversions")
        flat = m.point_data[key]
        if len(flat) != n or classes_of(flat) != classes_of(lab):
            ctx.viol("sets-to-data", f"points: {flat.tolist()} for {lab.tolist()}"[:300], where="points")
            return
    else:
        names, jc = [], "-"
        lab = labels(rng, n)
        key = str(rng.choice(["mat", "a-b", "x-y-z"]))
        ref.point_data[key] = lab.copy()
        m = ref.mesh()
    o = observe(m.point_data_to_sets, key)
    if o.exc is not None or key in m.point_data:
        ctx.viol("data-to-sets-raised", f"points: {o.exc and exc_str(o.exc)}", where="points")
        return
    ctx.event("conversions")
    got = {nm: np.asarray(v).tolist() for nm, v in m.point_sets.items()}
    if frozenset(tuple(sorted(v)) for v in got.values() if v) != classes_of(lab):
        ctx.viol("data-to-sets", f"points: {got} for {lab.tolist()}"[:300], where="points")
        return
    for i, nm in enumerate(names):
        if nm in got:
            exp = [j for j, x in enumerate(lab) if x == i]
            if sorted(got[nm]) != exp:
                ctx.viol("set-names", f"point set {nm!r}: {got[nm]} instead of {exp}"[:300], where="points")
    if (names and jc == "-" and not any("-" in x for x in names)
            and sorted(set(lab.tolist())) == list(range(len(names)))):
        ctx.event("names_preserved")
        if list(got) != names:
            ctx.viol("set-names", f"point sets {names} came back as {list(got)}", where="points")
    ctx.obs("points", n, names, jc, len(set(lab.tolist())))


def arrays(m):
    """Every array reachable from a mesh, with a label."""
    yield "points", m.points
    for k, c in enumerate(m.cells):
        yield f"cells[{k}]", c.data
    for nm in ("point_data", "field_data", "point_sets"):
        for k, v in getattr(m, nm).items():
            yield f"{nm}[{k}]", v
    for nm in ("cell_data", "cell_sets"):
        for k, l in getattr(m, nm).items():
            for i, v in enumerate(l):
                yield f"{nm}[{k}][{i}]", v
    if m.gmsh_periodic:
        for i, p in enumerate(m.gmsh_periodic):
            yield f"periodic[{i}]", p[3]


def run_copy(case, ctx, rng):
    ref = gen.wild(rng)
    gen.add_sets(rng, ref)
    ref.extra["gmsh_periodic"] = [[1, (1, 2), None, np.array([[0, 1]])]]
    ref.extra["info"] = {"k": [1, 2]}
    m = ref.mesh()
    for c in m.cells:
        c.tags.append("t")
    a = snap(m)
    c = m.copy()
    d = diff(a, snap(c))
    if d:
        ctx.viol("copy-differs", d[0], where="copy")
    if any(x is y for x, y in zip(m.cells, c.cells)):
        ctx.viol("copy-shares", "cell blocks are shared", where="copy")
    # change everything in the copy
    for what, arr in arrays(c):
        if isinstance(arr, np.ndarray) and arr.size and arr.flags.writeable:
            arr += arr.dtype.type(1)
            if snap(m) != a:
                ctx.viol("copy-shares", f"changing {what} of the copy changed the original", where="copy")
                a = snap(m)
            ctx.event("arrays_mutated")
    for nm in ("point_data", "cell_data", "field_data", "point_sets", "cell_sets"):
        getattr(c, nm)["new"] = None
    for b in c.cells:
        b.tags.append("x")
    c.cells.append(c.cells[0])
    c.info["k"].append(3)
    for l in c.cell_data.values():
        if l:
            l.append(None)
    if snap(m) != a:
        ctx.viol("copy-shares", "; ".join(diff(a, snap(m)))[:200], where="copy")
    ctx.event("copies_mutated")
    ctx.obs("copy", [(t, len(x)) for t, x in ref.cells], sorted(ref.point_data), sorted(ref.cell_data))


def run_file(case, ctx, rng):
    """Formats without sets store them as integer data: the same partition."""
    cap = CAPS[case["v"]]
    ref = gen.gen(rng, cap, size="small", data=False)
    sizes = [len(c) for _, c in ref.cells]
    n = len(ref.points)
    kind = int(rng.integers(0, 3))
    names = list(NAMES[int(rng.choice([0, 1, 4, 5]))])[: int(rng.integers(1, 4))]
    clab = partition_sets(rng, sizes, bool(rng.random() < 0.6), len(names))
    plab = partition_sets(rng, [n], bool(rng.random() < 0.6), len(names))
    if kind in (0, 2):
        for i, nm in enumerate(names):
            ref.cell_sets[nm] = [np.where(b == i)[0] for b in split(clab, sizes)]
    if kind in (1, 2):
        for i, nm in enumerate(names):
            ref.point_sets["p" + nm] = np.where(plab == i)[0]
    before_p, before_c = list(ref.point_data), list(ref.cell_data)
    with scratch() as d:
        o = observe(cap.write, cap.path(d), ref.mesh())
        r = observe(cap.read, cap.path(d)) if o.exc is None else o
        if r.exc is not None:
            ctx.viol("sets-in-file-raised", f"{cap.name}: {exc_str(r.exc)}", where=cap.name)
            return
        m = r.value
    ctx.event("files_with_sets")
    if kind in (0, 2):
        new = [k for k in m.cell_data if k not in before_c]
        flat = [np.concatenate(m.cell_data[k]) for k in new]
        if len(new) != 1 or classes_of(flat[0]) != classes_of(clab) or not ordered(flat[0], clab):
            ctx.viol("sets-in-file", f"{cap.name}: cell sets became {new}, {[f.tolist() for f in flat]} for "
                     f"{clab.tolist()}"[:300], where=cap.name)
        elif not all(nm in new[0] for nm in names):
            ctx.viol("sets-in-file", f"{cap.name}: names {names} lost in {new}", where=cap.name)
    if kind in (1, 2):
        new = [k for k in m.point_data if k not in before_p]
        if (len(new) != 1 or classes_of(m.point_data[new[0]]) != classes_of(plab)
                or not ordered(m.point_data[new[0]], plab)):
            ctx.viol("sets-in-file", f"{cap.name}: point sets became {new}"[:300], where=cap.name)
        elif not all("p" + nm in new[0] for nm in names):
            ctx.viol("sets-in-file", f"{cap.name}: point names lost in {new}", where=cap.name)
    ctx.obs("file", cap.name, kind, names, sizes)
