"""C09: inconsistent meshes are rejected; meshes read are well-formed."""
import os

import numpy as np

from vlib import gen, oracle
from vlib.caps import CAPS
from vlib.env import REPO, exc_str, meshio, observe, scratch
from vlib.ref import NN, from_mesh, tdim
from vlib.rt import ref_of, rng_of
from vlib import tags

ID = "C09"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: acceptance oracle for constructor and writer, well-formedness monitor on reads"
RULE = ("random consistent meshes given in every accepted shape (lists, tuples, arrays, dict or "
        "list of cells, CellBlock objects) must be represented exactly; the same with one "
        "defect injected (data too short/long/empty, a block missing/extra, one block's data "
        "off by one, swapped block data) must be refused; wrong cell widths through every "
        "writer; every mesh read from valid files (written in every encoding with data, sets "
        "and tags; sample files of the repository) is checked for well-formedness; non-trivial: "
        "an accept/refuse decision or a read was observed; distinct by defect, position, type, "
        "variant")
ASSUMPTIONS = ["cell types outside the node-count table are not width-checked",
               "sample files the library refuses to read are skipped"]
REQUIRE = {"quick": {"accepted": 1500, "rejected": 2500, "width_rejected": 2500, "reads_checked": 1500,
                     "variants": 70, "types": 60}}
CPU = 60

FORMATS = ["abaqus", "ansys", "avsucd", "cgns", "dolfin-xml", "exodus", "flac3d", "gmsh", "gmsh22",
           "h5m", "hmf", "mdpa", "med", "medit", "nastran", "netgen", "neuroglancer", "obj", "off",
           "permas", "ply", "stl", "su2", "svg", "tecplot", "tetgen", "ugrid", "vtk", "vtk42",
           "vtk51", "vtu", "wkt", "xdmf"]


TTYPES = [t for t in NN if t not in ("triangle3",)]


def cases(tier, seed):
    out = []
    n = 1500 if tier == "quick" else 40000
    for i in range(n):
        out.append({"k": "ok", "s": seed * 1000000 + i})
    for d in DEFECTS:
        for i in range(220 if tier == "quick" else 4000):
            out.append({"k": "bad", "d": d, "s": seed * 1000000 + i})
    for t in sorted(known_types()):
        out.append({"k": "width", "t": t, "s": seed})
    for v in CAPS:
        for i in range(24 if tier == "quick" else 400):
            out.append({"k": "read", "v": v, "s": seed * 1000 + i})
    root = os.path.join(REPO, "tests", "meshes")
    for dp, dn, fn in os.walk(root):
        for f in sorted(fn):
            p = os.path.relpath(os.path.join(dp, f), REPO)
            if not f.endswith((".md", ".py", ".txt")):
                out.append({"k": "file", "p": p, "s": 0})
    return out


def known_types():
    """Types of the documented node-count table (stated independently in vlib.ref)."""
    skip = {"hexahedron24"}
    return [t for t in NN if t not in skip and NN[t] <= 1331]


def run(case, ctx):
    rng = rng_of("C09", case["k"], case.get("d", ""), case.get("v", ""), case.get("t", ""), case["s"])
    globals()["run_" + case["k"]](case, ctx, rng)


def tolist(a):
    return a.tolist()


def shapes(rng, ref):
    """The same content in one of the accepted input shapes."""
    aslist = lambda a: a.tolist() if rng.random() < 0.4 and a.size else a.copy()
    mode = str(rng.choice(["tuples", "blocks", "mixed", "dict"]))
    if mode == "dict" and len({t for t, _ in ref.cells}) == len(ref.cells):
        cells = {t: aslist(c) for t, c in ref.cells}
    else:
        cells = []
        for t, c in ref.cells:
            if mode == "blocks" or (mode == "mixed" and rng.random() < 0.5):
                cells.append(meshio.CellBlock(t, aslist(c)))
            else:
                cells.append((t, aslist(c)))
    pd = {k: aslist(v) for k, v in ref.point_data.items()}
    cd = {k: [aslist(x) for x in l] for k, l in ref.cell_data.items()}
    return aslist(ref.points), cells, pd, cd


def build(rng):
    ref = gen.gen(rng, gen.WILD, size="small" if rng.random() < 0.8 else "tiny", data=True,
                  types=[t for t in gen.WILD.types if t not in ("wedge18", "line4")])
    if rng.random() < 0.3:
        gen.add_sets(rng, ref)
    return ref


def run_ok(case, ctx, rng):
    ref = build(rng)
    p, c, pd, cd = shapes(rng, ref)
    o = observe(meshio.Mesh, p, c, point_data=pd, cell_data=cd, point_sets=dict(ref.point_sets),
                cell_sets=dict(ref.cell_sets), field_data=dict(ref.field_data))
    if o.exc is not None:
        ctx.viol("rejected-consistent", f"{exc_str(o.exc)} for {ref.describe()}", where="ctor")
        return
    m = o.value
    bad = []
    if not same(m.points, ref.points):
        bad.append("points differ")
    if [x.type for x in m.cells] != [t for t, _ in ref.cells]:
        bad.append("cell types differ")
    else:
        for x, (t, e) in zip(m.cells, ref.cells):
            if not same(x.data, e) or len(x) != len(e):
                bad.append(f"{t} cells differ")
            if x.dim != tdim(t):
                bad.append(f"{t} has dim {x.dim}")
    if list(m.point_data) != list(ref.point_data) or not all(
            same(m.point_data[k], v) for k, v in ref.point_data.items()):
        bad.append("point data differ")
    if list(m.cell_data) != list(ref.cell_data) or not all(
            len(m.cell_data[k]) == len(l) and all(same(a, b) for a, b in zip(m.cell_data[k], l))
            for k, l in ref.cell_data.items()):
        bad.append("cell data differ")
    if list(m.point_sets) != list(ref.point_sets) or list(m.cell_sets) != list(ref.cell_sets):
        bad.append("sets differ")
    for what in bad:
        ctx.viol("misrepresented", f"{what} | {ref.describe()}", where="ctor")
    for mech, msg in oracle.wellformed(m):
        ctx.viol("ctor-" + mech, msg, where="ctor")
    ctx.event("accepted")
    for t, _ in ref.cells:
        ctx.mark("types", t)
    ctx.obs("ok", [(t, len(x)) for t, x in ref.cells], type(c).__name__,
            sorted(ref.point_data), sorted(ref.cell_data))


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return isinstance(a, np.ndarray) and a.shape == b.shape and bool(np.array_equal(a, b))


DEFECTS = ["pd-short", "pd-long", "pd-empty", "pd-one", "cd-block-missing", "cd-block-extra",
           "cd-short", "cd-long", "cd-empty-block", "cd-shift", "cd-none", "cd-flat"]


def run_bad(case, ctx, rng):
    d = case["d"]
    ref = build(rng)
    n = len(ref.points)
    for i in range(int(rng.integers(1, 4))):
        ref.point_data[f"p{i}"] = rng.random(n)
        ref.cell_data[f"c{i}"] = [rng.random(len(x)) for _, x in ref.cells]
    p, c, pd, cd = shapes(rng, ref)
    pn = str(rng.choice(list(pd)))
    cn = str(rng.choice(list(cd)))
    k = int(rng.integers(0, len(ref.cells)))
    if d == "pd-short":
        pd[pn] = pd[pn][:-1]
    elif d == "pd-long":
        pd[pn] = np.concatenate([np.asarray(pd[pn]), np.asarray(pd[pn])[:1]])
    elif d == "pd-empty":
        pd[pn] = []
    elif d == "pd-one":
        if n == 1:
            return
        pd[pn] = [1.0]
    elif d == "cd-block-missing":
        cd[cn] = cd[cn][:-1]
    elif d == "cd-block-extra":
        cd[cn] = cd[cn] + [np.asarray(cd[cn][-1])]
    elif d == "cd-short":
        cd[cn][k] = cd[cn][k][:-1]
    elif d == "cd-long":
        cd[cn][k] = np.concatenate([np.asarray(cd[cn][k]), np.asarray(cd[cn][k])[:1]])
    elif d == "cd-empty-block":
        cd[cn][k] = np.zeros(0)
    elif d == "cd-shift":
        # the right number of values, in the wrong blocks
        sizes = [len(x) for _, x in ref.cells]
        if len(set(sizes)) < 2:
            return
        cd[cn] = cd[cn][1:] + cd[cn][:1]
        if [len(x) for x in cd[cn]] == sizes:
            return
    elif d == "cd-none":
        cd[cn] = []
    elif d == "cd-flat":
        # one flat array for several blocks
        if len(ref.cells) < 2:
            return
        cd[cn] = [np.concatenate([np.asarray(x) for x in cd[cn]])]
    via = str(rng.choice(["ctor", "wpc"]))
    if via == "ctor":
        o = observe(meshio.Mesh, p, c, point_data=pd, cell_data=cd)
    else:
        with scratch() as dd:
            path = os.path.join(dd, "m.vtu")
            o = observe(meshio.write_points_cells, path, p, c, point_data=pd, cell_data=cd)
    ctx.event("rejected")
    if o.exc is None:
        ctx.viol("accepted-inconsistent", f"{d} ({pn}, {cn}, block {k}) via {via} was accepted for "
                 f"{ref.describe()}", where=d)
    ctx.obs("bad", d, via, len(ref.cells), k, type(c).__name__)


def run_width(case, ctx, rng):
    t = case["t"]
    n = NN[t]
    ctx.mark("types", t)
    with scratch() as d:
        if t not in ("polygon",):
            for w in sorted({n - 1, n + 1, n + 3, 1 if n > 2 else n + 2}):
                if w < 1:
                    continue
                npt = max(w, n) + 1
                pts = rng.random((npt, 3))
                data = np.array([rng.permutation(npt)[:w], rng.permutation(npt)[:w]])
                for pos in (0, 1):
                    good = ("triangle", np.array([[0, 1, 0]]))
                    cells = [(t, data), good] if pos == 0 else [good, (t, data)]
                    o = observe(meshio.Mesh, pts, cells)
                    if o.exc is not None:
                        ctx.event("width_rejected")
                        continue  # refused even earlier
                    fms = FORMATS if n <= 10 else [str(x) for x in rng.permutation(FORMATS)[:6]]
                    for f in fms:
                        path = os.path.join(d, f"x_{f}.zz")
                        r = observe(meshio.write, path, o.value, file_format=f)
                        if r.exc is None:
                            ctx.viol("width-accepted", f"{t} with {w} nodes was written as {f} (block {pos})",
                                     where=t)
                        ctx.event("width_rejected")
        # the right width is not what is objected to
        npt = n + 1
        pts = rng.random((npt, 3))
        o = observe(meshio.Mesh, pts, [(t, np.array([rng.permutation(npt)[:n]]))])
        if o.exc is not None:
            ctx.viol("rejected-consistent", f"{t}: {exc_str(o.exc)}", where=t)
            return
        if o.value.cells[0].dim != tdim(t):
            ctx.viol("misrepresented", f"{t} has dimension {o.value.cells[0].dim}", where=t)
        r = observe(meshio.write, os.path.join(d, "y.xdmf"), o.value, file_format="vtu")
        if isinstance(r.exc, meshio.WriteError) and "Unexpected cells array shape" in str(r.exc):
            ctx.viol("rejected-consistent", f"{t}: {exc_str(r.exc)}", where=t)
        ctx.event("accepted")
    ctx.obs("width", t)


def run_read(case, ctx, rng):
    """Everything the library writes, with all the trimmings, is read well-formed."""
    cap = CAPS[case["v"]]
    full = case["s"] % 2 == 0 and cap.group in tags.ADD
    cap, rng2, ref = ref_of({"v": case["v"], "s": case["s"] + 77, "size": ["tiny", "small", "medium"][case["s"] % 3]},
                            data=True)
    if full:
        try:
            tags.ADD[cap.group](rng2, cap, ref)
        except Exception:  # content the tag generator has no room for
            return
    with scratch() as d:
        w = observe(cap.write, cap.path(d), ref.mesh())
        if w.exc is not None:
            return  # other properties' business
        r = observe(cap.read, cap.path(d))
        if r.exc is not None:
            return
        for mech, msg in oracle.wellformed(r.value):
            ctx.viol("read-" + mech, f"{cap.name}: {msg} | {ref.describe()}", where=cap.name)
        extra(ctx, r.value, cap.name)
    ctx.event("reads_checked")
    ctx.mark("variants", cap.name)
    ctx.obs("read", cap.name, case["s"])


def extra(ctx, m, where):
    """Representation: arrays are arrays, names are strings."""
    if not isinstance(m.points, np.ndarray):
        ctx.viol("read-type", f"{where}: points are a {type(m.points).__name__}", where=where)
    for c in m.cells:
        if not c.type.startswith("polyhedron") and not isinstance(c.data, np.ndarray):
            ctx.viol("read-type", f"{where}: {c.type} cells are a {type(c.data).__name__}", where=where)
        if c.type in NN and c.dim != tdim(c.type):
            ctx.viol("read-type", f"{where}: {c.type} has dimension {c.dim}", where=where)
    for nm in list(m.point_data) + list(m.cell_data) + list(m.point_sets) + list(m.cell_sets):
        if not isinstance(nm, str):
            ctx.viol("read-type", f"{where}: name {nm!r} is a {type(nm).__name__}", where=where)
    for k, v in m.point_data.items():
        if not isinstance(v, np.ndarray):
            ctx.viol("read-type", f"{where}: point data {k} is a {type(v).__name__}", where=where)


def run_file(case, ctx, rng):
    p = os.path.join(REPO, case["p"])
    r = observe(meshio.read, p)
    if r.exc is not None:
        ctx.event("samples_refused")
        return
    for mech, msg in oracle.wellformed(r.value):
        ctx.viol("read-" + mech, f"{case['p']}: {msg}", where=case["p"])
    extra(ctx, r.value, case["p"])
    ctx.event("reads_checked")
    ctx.event("samples_checked")
    ctx.obs("file", case["p"])
