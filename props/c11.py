"""C11: cells a format cannot store are refused or announced, never lost silently."""
import copy
import os
import re

import numpy as np

from vlib import gen, oracle, poly
from vlib.caps import CAPS
from vlib.env import exc_str, meshio, observe, scratch
from vlib.ref import NN, Ref, tdim
from vlib.rt import rng_of

ID = "C11"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: what the writer told the user (exceptions, stdout, stderr, warnings) against the "
             "cells that come back; conservation of cells and of their data")
RULE = ("every format and encoding given every cell type of the catalogue (higher-order, polygons, polyhedra) "
        "alone and mixed at random positions with supported blocks, with cell data, in 2-D and 3-D; combinations "
        "of supported types the format cannot hold together; time series; the outcome must be a refusal, an "
        "announcement with all supported cells and their data intact, or the complete mesh. Non-trivial: the mesh "
        "held a cell outside the format's declared types; distinct by variant, types and outcome")
ASSUMPTIONS = [
    "an announcement is any text on stdout/stderr or a Python warning that writing only the supported part of the "
    "same mesh does not produce",
    "Tecplot stores pyramids and wedges as hexahedra with repeated nodes, the format's documented convention",
]
REQUIRE = {"quick": {"refused": 1500, "announced": 1500, "complete": 300, "cells_kept": 10000, "formats": 28,
                     "types_tried": 50, "data_rows_kept": 2000, "tag_rows_kept": 500, "set_rows_kept": 100}}
CPU = 40
SMALL = [t for t in NN if NN[t] <= 64]
BIG = [t for t in NN if 64 < NN[t] <= 400]
EXTRA = ["polygon", "polyhedron"]


def cases(tier, seed):
    out = []
    rep = 1 if tier == "quick" else 12
    nmix = 25 if tier == "quick" else 400
    done = {}
    for v, cap in CAPS.items():
        # the many spellings of one encoding share the catalogue between them
        k = done[cap.group] = done.get(cap.group, -1) + 1
        heavy = 2 if cap.group in ("nastran", "ugrid", "vtu") else 1
        for dim in (3, 2):
            sup = supported(cap, dim)
            for i, t in enumerate(SMALL + EXTRA + (BIG if k == 0 and dim == 3 else [])):
                if t in sup:
                    continue
                for r in range(rep):
                    if dim == 3 or (i + k) % 2:
                        if heavy == 1 or (i + k) % heavy == 0 or tier != "quick":
                            out.append({"k": "mix", "v": v, "dim": dim, "bad": [t], "s": seed * 1000 + r})
                    if dim == 3 and (i + k) % 2 == 0:
                        out.append({"k": "mix", "v": v, "dim": dim, "bad": [t], "s": seed * 1000 + r, "only": 1})
        for i in range(nmix):
            out.append({"k": "mix", "v": v, "dim": 3 if i % 4 else 2, "bad": None, "s": seed * 7000 + i,
                        "only": int(i % 5 == 4)})
        if cap.multi != "any":
            for i in range(nmix):
                out.append({"k": "multi", "v": v, "s": seed * 8000 + i})
    for i in range(40 * rep):
        out.append({"k": "svg", "s": seed * 9000 + i})
    for i in range(60 * rep):
        out.append({"k": "ts", "s": seed * 9500 + i})
    return out


def run(case, ctx):
    globals()["run_" + case["k"]](case, ctx)


def supported(cap, dim):
    if cap.group == "tecplot":
        return list(cap.types) + ["wedge", "pyramid"]
    if dim == 2 and cap.types2:
        return list(cap.types2)
    return list(cap.types)


def block(rng, t, npt, cdt, cap=None):
    m = int(rng.integers(1, 5))
    if t == "polyhedron":
        k = int(rng.choice([4, 5, 6, 8]))
        nod = [rng.permutation(npt)[:k] for _ in range(m)]
        return f"polyhedron{k}", [[c[x] for x in poly.SHAPES[k]] for c in nod]
    n = int(rng.integers(5, 9)) if t == "polygon" else NN[t]
    if n == 1:
        return t, rng.permutation(npt)[:m].reshape(-1, 1).astype(cdt)
    return t, gen.conn(rng, n, m, npt).astype(cdt)


def build(rng, cap, case):
    """(mesh with foreign cells, the supported part alone, indices of supported blocks)."""
    dim = case["dim"]
    sup = supported(cap, dim)
    bad = case["bad"]
    if bad is None:
        pool = [t for t in SMALL + EXTRA if t not in sup and t in NN and NN[t] <= 40]
        bad = [str(t) for t in rng.choice(pool, int(rng.integers(1, 4)))]
    npt = max([12] + [NN.get(t, 12) for t in bad] + [NN.get(t, 12) for t in sup]) + int(rng.integers(0, 20))
    cdt = str(rng.choice(cap.cdt))
    good = []
    for t, _ in gen.choose_blocks(rng, sup, cap.multi, 1, 4):
        good.append(block(rng, t, npt, cdt, cap))
    blocks = [] if case.get("only") else [(b, True) for b in good]
    for t in bad:
        blocks.insert(int(rng.integers(0, len(blocks) + 1)), (block(rng, t, npt, cdt), False))
    pts = gen.coords(rng, npt, dim, cap.coord_style(rng) if cap.coord_style else None)
    ref = Ref(pts, [b for b, _ in blocks])
    base = Ref(pts, good)
    if cap.cd_kinds and rng.random() < 0.7:
        for nm in gen.names(rng, int(rng.integers(1, 3)), "simple"):
            kind, dt = gen._kind(rng, cap.cd_kinds)
            arr = {}
            ref.cell_data[nm] = [gen.data_values(rng, gen.shape_of(kind, len(d)), dt) for _, d in ref.cells]
            if case.get("only"):
                base.cell_data[nm] = [gen.data_values(rng, gen.shape_of(kind, len(d)), dt) for _, d in good]
            else:
                base.cell_data[nm] = [a for a, (_, g) in zip(ref.cell_data[nm], blocks) if g]
    if not case.get("only") and rng.random() < 0.5:
        keep = [i for i, (_, g) in enumerate(blocks) if g]
        for nm in TAGS.get(cap.group, ()):
            ref.cell_data.pop(nm, None)
            ref.cell_data[nm] = [rng.integers(1, 30, len(c)) * (cap.group != "ugrid" or tdim(t) == 2)
                                 for t, c in ref.cells]
            base.cell_data[nm] = [ref.cell_data[nm][i] for i in keep]
        if cap.group in ("flac3d", "abaqus"):
            for nm in ("rock", "soil"):
                ref.cell_sets[nm] = [np.flatnonzero(rng.random(len(c)) < 0.5) for _, c in ref.cells]
                base.cell_sets[nm] = [ref.cell_sets[nm][i] for i in keep]
    return ref, base, [i for i, (_, g) in enumerate(blocks) if g]


TAGS = {"medit": ["medit:ref"], "nastran": ["nastran:ref"], "netgen": ["netgen:index"], "ugrid": ["ugrid:ref"],
        "tetgen": ["tetgen:ref"], "avsucd": ["avsucd:material"], "gmsh22": ["gmsh:physical", "gmsh:geometrical"],
        "med": ["cell_tags"]}


def member(cells, sets, name):
    """Cell sets as one boolean per cell; FLAC3D qualifies the names."""
    out = [np.zeros(len(c), bool) for _, c in cells]
    for k, l in sets.items():
        if k == name or (":" in k and k.split(":")[1] == name):
            for o, x in zip(out, l):
                if x is not None:
                    o[np.asarray(x, int)] = True
    return out


ANSI = re.compile(r"\x1b\[[0-9;]*m")


def said(w, d):
    """Set of the sentences the user saw."""
    t = ANSI.sub("", w.warned).replace(d, "<dir>")
    return re.sub(r"\s+", " ", t).strip()


def run_mix(case, ctx):
    cap = CAPS[case["v"]]
    rng = rng_of("c11", case["v"], str(case["bad"]), case["dim"], case["s"], case.get("only", 0))
    ref, base, good = build(rng, cap, case)
    ctx.mark("formats", cap.group)
    for t, _ in ref.cells:
        ctx.mark("types_tried", t)
    with scratch() as d:
        os.mkdir(os.path.join(d, "b"))
        b = observe(cap.write, cap.path(os.path.join(d, "b")), base.mesh())
        decide(ctx, cap, ref, base, good, d, said(b, os.path.join(d, "b")) if b.exc is None else "")
    ctx.sample(variant=cap.name, mesh=ref.describe())


def run_multi(case, ctx):
    """Blocks the format could hold one at a time."""
    cap = CAPS[case["v"]]
    rng = rng_of("c11m", case["v"], case["s"])
    dim = int(rng.choice(cap.dims))
    sup = supported(cap, dim)
    npt = max(NN.get(t, 12) for t in sup) + 12
    ts = [str(t) for t in rng.choice(sup, int(rng.integers(2, 6)))]
    cdt = str(rng.choice(cap.cdt))
    ref = Ref(gen.coords(rng, npt, dim, cap.coord_style(rng) if cap.coord_style else None),
              [block(rng, t, npt, cdt) for t in ts])
    if cap.cd_kinds and rng.random() < 0.7:
        kind, dt = gen._kind(rng, cap.cd_kinds)
        ref.cell_data["a"] = [gen.data_values(rng, gen.shape_of(kind, len(c)), dt) for _, c in ref.cells]
    one = Ref(ref.points, ref.cells[:1], cell_data={k: v[:1] for k, v in ref.cell_data.items()})
    with scratch() as d:
        os.mkdir(os.path.join(d, "b"))
        b = observe(cap.write, cap.path(os.path.join(d, "b")), one.mesh())
        decide(ctx, cap, ref, one, [], d, said(b, os.path.join(d, "b")) if b.exc is None else "", multi=True)


def decide(ctx, cap, ref, base, good, d, quiet, multi=False):
    path = cap.path(d)
    where = f"{cap.name}:{'+'.join(sorted({t for i, (t, _) in enumerate(ref.cells) if i not in good}))[:60]}"
    w = observe(cap.write, path, ref.mesh())
    ctx.event("writes")
    if w.exc is not None:
        ctx.event("refused")
        ctx.obs(cap.name, "refused", [t for t, _ in ref.cells])
        return
    txt = said(w, d)
    announced = bool(txt) and txt != quiet
    r = observe(cap.read, path)
    if r.exc is not None:
        if announced and (multi or not good):
            ctx.event("announced")
            return
        ctx.viol("unreadable", f"{cap.name}: wrote {[(t, len(c)) for t, c in ref.cells]} "
                 f"{'with a warning' if announced else 'without a word'}, reading raised {exc_str(r.exc)}",
                 where=where)
        return
    m = r.value
    for mech, msg in oracle.wellformed(m):
        ctx.viol(mech, f"{cap.name}: {msg} after writing {[(t, len(c)) for t, c in ref.cells]}", where=where)
        return
    keep = good if announced else range(len(ref.cells))
    miss = kept(ctx, cap, ref, m, keep, announced)
    if miss:
        ctx.viol("lost-silently" if not announced else "supported-damaged",
                 f"{cap.name}: {[(t, len(c)) for t, c in ref.cells]} written "
                 f"{'with the message ' + repr(txt[:120]) if announced else 'without a word'}; {miss}", where=where)
        return
    ctx.event("announced" if announced else "complete")
    ctx.obs(cap.name, "announced" if announced else "complete", [t for t, _ in ref.cells])


def rows_of(cells, data, nodes=False):
    """{(type,width): [(row, {name: value})]} in order.  ``nodes``: cells by dimension and node set."""
    out = {}
    for i, (t, c) in enumerate(cells):
        if t.startswith("polyhedron"):
            for j, x in enumerate(c):
                row = tuple(sorted(tuple(sorted(int(q) for q in f)) for f in x))
                out.setdefault((t, 0), []).append((row, {k: data[k][i][j] for k in data}))
            continue
        a = np.asarray(c).astype("i8")
        for j in range(len(a)):
            if nodes:
                out.setdefault((f"{tdim(t)}-dimensional", 0), []).append(
                    (tuple(sorted(set(a[j].tolist()))), {k: data[k][i][j] for k in data}))
                continue
            out.setdefault((t, a.shape[1]), []).append((tuple(a[j].tolist()), {k: data[k][i][j] for k in data}))
    return out


def soup_rows(points, rows):
    """Rows as coordinates, for formats that do not number points."""
    return [(tuple(np.asarray(points)[list(r)].astype("f4").ravel().tolist()), dd) for r, dd in rows]


def kept(ctx, cap, ref, m, keep, announced):
    pts = oracle.expect_points(ref, cap)
    q = np.asarray(m.points)
    if not cap.soup:
        if q.shape != pts.shape and len(q) == len(pts):
            if pts.shape[1] == 2 and q.shape[1] == 3 and not q[:, 2].any():
                q = q[:, :2]
        if q.shape != pts.shape:
            return f"points {pts.shape} came back as {q.shape}"
        if not oracle.close(pts, q, max(cap.ptol, 0), cap.patol):
            return "points changed"
    elif pts.shape[1] == 2 and q.shape[1] == 3:
        pts = np.column_stack([pts, np.zeros(len(pts))])
    names = list(ref.cell_data)
    # Tecplot: pyramids, wedges and mixtures are written as hexahedra and quads with repeated nodes
    nodes = cap.group == "tecplot"
    rd = dict(ref.cell_data)
    for k in ref.cell_sets:
        rd["set:" + k] = member(ref.cells, ref.cell_sets, k)
    exp = rows_of([ref.cells[i] for i in keep], {k: [v[i] for i in keep] for k, v in rd.items()}, nodes)
    rest = [i for i in range(len(ref.cells)) if i not in keep]
    have = {k: v for k, v in m.cell_data.items() if k in names}
    for k in ref.cell_sets:
        have["set:" + k] = member([(c.type, c.data) for c in m.cells], m.cell_sets, k)
    got = rows_of([(c.type, c.data) for c in m.cells], have, nodes)
    # what the cells that may be dropped could have turned into
    from_rest = [set(int(x) for x in np.ravel(_flat(c))) for i in rest for c in ref.cells[i][1]]
    for key, l in exp.items():
        g = got.get(key, [])
        if cap.soup:
            l, g = soup_rows(pts, l), soup_rows(q, g)
        if cap.mirror and len(l):
            e = np.array([r for r, _ in l])
            gg = np.array([r for r, _ in g]) if len(g) == len(l) else None
            if gg is not None:
                e = oracle.right_handed(key[0], e, pts, gg)
                l = [(tuple(r.tolist()), dd) for r, (_, dd) in zip(e, l)]
            elif announced:
                l = [(frozenset(r), dd) for r, dd in l]
                g = [(frozenset(r), dd) for r, dd in g]
        k = 0
        extra = []
        for row, dd in g:
            if k < len(l) and row == l[k][0]:
                for n in dd:
                    a, b = np.asarray(l[k][1][n]), np.asarray(dd[n])
                    if cap.squeeze1 or a.shape == (1,):
                        a, b = a.ravel(), b.ravel()
                    if not oracle.close(a, b, cap.dtol):
                        return f"{key[0]} cell {row} has data {n!r} = {b!r} instead of {a!r}"
                    ctx.event("set_rows_kept" if n[:4] == "set:" else "tag_rows_kept" if n in TAGS.get(cap.group, ())
                              else "data_rows_kept")
                k += 1
            else:
                extra.append(row)
        if k < len(l):
            return f"{len(l) - k} of {len(l)} {key[0]} cells are missing (first: {l[k][0] if not cap.soup else ''})"
        ctx.event("cells_kept", len(l))
        if not cap.soup:
            for row in extra:
                if not any(set(row) <= s for s in from_rest):
                    return f"{key[0]} cell {row} was never written"
    for key, g in got.items():
        if key in exp or cap.soup:
            continue
        for row, _ in g:
            nodes = set(int(x) for x in np.ravel(_flat(row)))
            if not any(nodes <= s for s in from_rest):
                return f"{key[0]} cell {row} was never written"
    return None


def _flat(c):
    if isinstance(c, (list, tuple)) and len(c) and isinstance(c[0], (list, tuple, np.ndarray)):
        return np.concatenate([np.ravel(f) for f in c])
    return np.ravel(c)


# ------------------------------------------------------------------ writers without readers
def run_svg(case, ctx):
    rng = rng_of("c11svg", case["s"])
    npt = 30
    pts = rng.random((npt, 2))
    ok = ["line", "triangle", "quad"]
    bad = str(rng.choice([t for t in SMALL if t not in ok and NN[t] <= 27]))
    cells = [block(rng, str(rng.choice(ok)), npt, "i8") for _ in range(int(rng.integers(0, 3)))]
    cells.insert(int(rng.integers(0, len(cells) + 1)), block(rng, bad, npt, "i8"))
    with scratch() as d:
        w = observe(meshio.write, os.path.join(d, "m.svg"), Ref(pts, cells).mesh())
        ctx.event("writes")
        ctx.mark("formats", "svg")
        if w.exc is not None:
            ctx.event("refused")
            return
        with open(os.path.join(d, "m.svg")) as f:
            n = len(re.findall(r"<path\b", f.read()))
    total = sum(len(c) for _, c in cells)
    left = sum(len(c) for t, c in cells if t in ok)
    if n == total:
        ctx.event("complete")
    elif not said(w, d):
        ctx.viol("lost-silently", f"svg: {[(t, len(c)) for t, c in cells]} drawn as {n} paths without a word",
                 where=f"svg:{bad}")
    elif n < left:
        ctx.viol("supported-damaged", f"svg: {n} paths for {left} drawable cells", where=f"svg:{bad}")
    else:
        ctx.event("announced")


def run_ts(case, ctx):
    rng = rng_of("c11ts", case["s"])
    fmt = ["XML", "Binary", "HDF"][case["s"] % 3]
    cap = CAPS[{"XML": "xdmf-xml", "Binary": "xdmf-bin", "HDF": "xdmf-hdf"}[fmt]]
    pool = [t for t in SMALL + ["polygon"] if t not in cap.types]
    bad = str(rng.choice(pool))
    npt = 70
    cells = [block(rng, str(rng.choice(cap.types)), npt, "i8") for _ in range(int(rng.integers(0, 3)))]
    cells.insert(int(rng.integers(0, len(cells) + 1)), block(rng, bad, npt, "i8"))
    ref = Ref(rng.random((npt, 3)), cells)
    cd = {"a": [rng.normal(size=len(c)) for _, c in cells]}
    ref.cell_data = cd
    with scratch() as d:
        path = os.path.join(d, "m.xdmf")

        def write():
            with meshio.xdmf.TimeSeriesWriter(path, data_format=fmt) as w:
                w.write_points_cells(ref.points, [(t, np.array(c)) for t, c in cells])
                w.write_data(0.5, cell_data={k: [np.array(x) for x in v] for k, v in cd.items()})

        def read():
            with meshio.xdmf.TimeSeriesReader(path) as r:
                pts, cc = r.read_points_cells()
                _, _, c = r.read_data(0)
                return meshio.Mesh(pts, cc, cell_data=c)

        w = observe(write)
        ctx.event("writes")
        if w.exc is not None:
            ctx.event("refused")
            return
        r = observe(read)
        if r.exc is not None:
            ctx.viol("unreadable", f"time series {fmt} with {bad}: reading raised {exc_str(r.exc)}",
                     where=f"ts-{fmt}:{bad}")
            return
        ann = bool(said(w, d))
        keep = [i for i, (t, _) in enumerate(cells) if t in cap.types] if ann else range(len(cells))
        miss = kept(ctx, cap, ref, r.value, keep, ann)
        if miss:
            ctx.viol("lost-silently", f"time series {fmt}: {[(t, len(c)) for t, c in cells]}: {miss}",
                     where=f"ts-{fmt}:{bad}")
            return
        ctx.event("announced" if ann else "complete")
