"""C06: written files mean the same mesh to a decoder written from the specification."""
import copy
import os
import re
import xml.etree.ElementTree as ET

import numpy as np

from vlib import gen, oracle, poly, tags
from vlib.caps import CAPS, extremes
from vlib.dec import Bad, binary, gmsh, text, vtk, xdmf
from vlib.env import exc_str, meshio, observe, scratch
from vlib.ref import NN
from vlib.rt import LAYOUTS, rng_of

ID = "C06"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: offline checkers (independent decoders of the formats) over recorded output files"
RULE = ("seeded random meshes with data, sets, tags, groups and periodicity inside each format's scope, written with "
        "every encoding and option; the files are decoded by stand-alone decoders written from the formats' public "
        "specifications (vlib/dec, sharing no code with the library and strict about counts, ids, record sizes and "
        "section syntax) and compared with the mesh given; non-trivial: at least one point array and one cell array "
        "compared; distinct by variant, block types and sizes, data names and dtypes, layout")
ASSUMPTIONS = [
    "node conventions are stated geometrically in vlib/spec.py; MED, XDMF and PERMAS conventions, Gmsh cells beyond "
    "second order and ANSYS/CGNS cell sections are pinned to the library's documented behaviour",
    "Kratos mdpa quadratic hexahedra are outside the claim",
]
REQUIRE = {"quick": {"points_compared": 20000, "cells_compared": 20000, "variants": 70, "arrays_compared": 3000,
                     "sets_compared": 200, "tags_compared": 300, "polyhedra_compared": 200, "svg_paths_compared": 200}}
CPU = 60

DEC = {"abaqus": text.abaqus, "ansys": binary.ansys, "avsucd": text.avsucd, "cgns": binary.cgns, "dolfin": text.dolfin,
       "exodus": binary.exodus, "flac3d": binary.flac3d, "gmsh22": gmsh.decode, "gmsh40": gmsh.decode,
       "gmsh41": gmsh.decode, "h5m": binary.h5m, "hmf": binary.hmf, "mdpa": text.mdpa, "med": binary.med,
       "medit": text.medit, "nastran": text.nastran, "netgen": text.netgen, "neuroglancer": binary.neuroglancer,
       "obj": text.obj, "off": text.off, "permas": text.permas, "ply": binary.ply, "stl": binary.stl,
       "su2": text.su2, "tecplot": text.tecplot, "tetgen": text.tetgen, "ugrid": binary.ugrid, "vtk": vtk.decode,
       "vtu": vtk.decode_vtu, "wkt": text.wkt, "xdmf": xdmf.decode}
EXCLUDE = {"mdpa": {"hexahedron20", "hexahedron27"}}


def types_of(cap, dim=None):
    ts = cap.types2 if (dim == 2 and cap.types2) else cap.types
    return [t for t in ts if t not in EXCLUDE.get(cap.group, ())]


def cases(tier, seed):
    out = []
    nr = 120 if tier == "quick" else 600
    for v, cap in CAPS.items():
        per = sum(c.group == cap.group for c in CAPS.values())
        n = max(10, nr // (2 if per > 4 else 1) // (2 if cap.heavy else 1))
        for dim in cap.dims:
            for k, t in enumerate(types_of(cap, dim)):
                out.append({"v": v, "s": seed * 1000 + k, "types": [t], "dim": dim, "size": "small"})
        for i in range(n):
            out.append({"v": v, "s": seed * 100000 + i, "size": ["tiny", "small", "small", "medium"][i % 4], "data": 1,
                        "layout": list(LAYOUTS)[i % len(LAYOUTS)] if i % 3 == 2 else "C"})
        if cap.group in tags.ADD:
            for i in range(n):
                out.append({"v": v, "s": seed * 200000 + i, "size": ["tiny", "small", "small", "medium"][i % 4],
                            "tags": 1, "data": int(i % 3 == 0)})
        if cap.multi == "any":
            for i in range(2 if tier == "quick" else 10):
                a, b = cap.types[i % len(cap.types)], cap.types[(i + 1) % len(cap.types)]
                if cap.types2:
                    a, b = cap.types[0], cap.types[1]
                out.append({"v": v, "s": seed * 11000 + i, "size": "small", "data": 1,
                            "blocks": [[a, 1 + j % 3] if j % 2 else [b, 1] for j in range(13)]})
        out += [dict(c, data=1) for c in extremes(cap, seed, tier)]
        if tier == "thorough":
            for i in range(4):
                out.append({"v": v, "s": seed * 9000 + i, "size": "large", "data": 1})
    for v, cap in CAPS.items():
        if cap.group == "vtu":
            for i in range(12 if tier == "quick" else 200):
                out.append({"v": v, "s": seed * 300000 + i, "special": "polyhedra"})
    for i in range(40 if tier == "quick" else 1000):
        out.append({"s": seed * 400000 + i, "special": "svg", "v": "svg"})
    return out


def run_polyhedra(case, ctx):
    """Polyhedra are stored by VTU files only: decoded and read back."""
    cap = CAPS[case["v"]]
    rng = rng_of("c06poly", cap.name, case["s"])
    ref = poly.gen(rng, unique=bool(rng.integers(0, 2)))
    dt = (lambda a: a if cap.dtol == 0 else np.round(a, 4))
    exp = poly.flat(ref.cells, {k: [dt(x) for x in l] for k, l in ref.cell_data.items()})
    with scratch() as d:
        path = cap.path(d)
        w = observe(cap.write, path, ref.mesh())
        if w.exc is not None:
            ctx.viol("write-raised", f"{cap.name}: writing polyhedra raised {exc_str(w.exc)}", where=cap.name)
            return
        for who, fn in (("decoder", vtk.decode_vtu), ("reader", cap.read)):
            r = observe(fn, path)
            if r.exc is not None:
                ctx.viol("invalid-file", f"{cap.name}: {who} of polyhedra raised {exc_str(r.exc)}", where=cap.name)
                continue
            m = r.value
            if sorted(m.cell_data) != sorted(ref.cell_data) or not oracle.close(ref.points, m.points, cap.ptol):
                ctx.viol("polyhedra", f"{cap.name}: {who}: points or names of cell data differ", where=cap.name)
                continue
            got = poly.flat([(c.type, c.data) for c in m.cells],
                            {k: [dt(np.asarray(x)) for x in l] for k, l in m.cell_data.items()})
            if got != exp:
                ctx.viol("polyhedra", f"{cap.name}: {who}: cells or their data differ: "
                         f"{[(t, len(b)) for t, b in ref.cells]}", where=cap.name)
            if not oracle.close(ref.point_data["p"], m.point_data["p"], cap.dtol):
                ctx.viol("polyhedra", f"{cap.name}: {who}: point data differ", where=cap.name)
    ctx.event("polyhedra_compared", sum(len(b) for _, b in ref.cells))
    ctx.obs(cap.name, [(t, len(b)) for t, b in ref.cells])


def run_svg(case, ctx):
    """SVG is output only: every line, triangle and quad is one path through its vertices."""
    rng = rng_of("c06svg", case["s"])
    pts = np.round(rng.normal(size=(int(rng.integers(4, 30)), 2)) * 10.0 ** rng.integers(-2, 4), 6)
    blocks = []
    for _ in range(int(rng.integers(1, 5))):
        t = str(rng.choice(["line", "triangle", "quad"]))
        blocks.append((t, np.array([rng.permutation(len(pts))[:NN[t]] for _ in range(int(rng.integers(1, 6)))])))
    width = [None, 100, 37.5, 1000][int(rng.integers(0, 4))]
    fmt = [".3f", ".6f", ".8e", ".12g"][int(rng.integers(0, 4))]
    p3 = np.column_stack([pts, np.zeros(len(pts))]) if rng.random() < 0.5 else pts
    with scratch() as d:
        path = os.path.join(d, "m.svg")
        w = observe(lambda: meshio.write(path, meshio.Mesh(p3.copy(), [(t, c.copy()) for t, c in blocks]),
                                         float_fmt=fmt, image_width=width))
        if w.exc is not None:
            ctx.viol("write-raised", f"svg: {exc_str(w.exc)}", where="svg")
            return
        root = ET.parse(path).getroot()
    f = width / np.ptp(pts[:, 0]) if width else 1.0
    q = pts.copy()
    q[:, 1] = q[:, 1].max() + q[:, 1].min() - q[:, 1]  # the y axis of SVG points down
    q = q * f
    box = [float(x) for x in root.get("viewBox").split()]
    tol = {".3f": 1e-3, ".6f": 1e-6}.get(fmt, 0) + 1e-7 * np.abs(q).max()
    want = [q[:, 0].min(), q[:, 1].min(), np.ptp(q[:, 0]), np.ptp(q[:, 1])]
    if not np.allclose(box, want, rtol=0, atol=2 * tol):
        ctx.viol("svg-viewbox", f"svg: viewBox {box} for {want}", where="svg")
    paths = [e.get("d") for e in root if e.tag.endswith("path")]
    cells = [(t, row) for t, c in blocks for row in c]
    if len(paths) != len(cells):
        ctx.viol("svg-paths", f"svg: {len(paths)} paths for {len(cells)} cells", where="svg")
        return
    for s, (t, row) in zip(paths, cells):
        num = re.findall(r"[-+0-9.][-+0-9.eE]*", re.sub("[MLZ]", " ", s))
        a = np.array([float(x) for x in num]).reshape(-1, 2)
        if a.shape != (NN[t], 2) or not np.allclose(a, q[row], rtol=0, atol=tol):
            ctx.viol("svg-paths", f"svg: {t} {q[row].tolist()} drawn as {s!r}", where="svg")
            return
        if s.rstrip().endswith("Z") != (t != "line"):
            ctx.viol("svg-paths", f"svg: {t} closed: {s!r}", where="svg")
    ctx.event("svg_paths_compared", len(paths))
    ctx.obs("svg", fmt, width, [(t, len(c)) for t, c in blocks])


def build(case):
    cap = copy.copy(CAPS[case["v"]])
    rng = rng_of("c06", cap.name, case["s"])
    kw = {k: case[k] for k in ("size", "blocks", "types", "dim") if k in case}
    cap.types = types_of(cap)
    if case.get("tags"):
        if cap.group == "gmsh41" and "blocks" not in kw:
            lo, hi = gen.SIZES[case["size"]][2:]
            ts = [t for t in cap.types if case["size"] != "medium" or gen.NN.get(t, 5) < 30]
            kw["blocks"] = gen.choose_blocks(rng, ts, "any", lo, hi)
        if cap.group == "su2":
            kw["dim"] = 2 + case["s"] % 2
    ref = gen.gen(rng, cap, data=bool(case.get("data") and (cap.pd_kinds or cap.cd_kinds)), **kw)
    if case.get("tags"):
        tags.ADD[cap.group](rng, cap, ref)
    if cap.group == "med":
        # a MED field has one number of components (see the known finding)
        for k in list(ref.cell_data):
            if k in ref.point_data and ref.point_data[k].ndim != ref.cell_data[k][0].ndim:
                ref.cell_data[k + "_c"] = ref.cell_data.pop(k)
    return cap, ref


def dress(cap, m):
    """Put what the decoder found where the comparison of sets, tags and groups looks."""
    g, x = cap.group, m.extra
    m.gmsh_periodic = m.info = None
    if g.startswith("gmsh"):
        m.field_data = {n: [num, dim] for dim, num, n in x["physnames"]}
        at = {t: i for i, t in enumerate(x["node_tags"])}
        m.gmsh_periodic = [[d, (t, mt), aff or None, [[at[int(a)], at[int(b)]] for a, b in pairs]]
                           for d, t, mt, aff, pairs in x["periodic"]] or None
    if g == "gmsh22":
        w = {len(t) for b in x["meta"] for t in b}
        if w == {2}:
            m.cell_data["gmsh:physical"] = [np.array([t[0] for t in b], "i8") for b in x["meta"]]
            m.cell_data["gmsh:geometrical"] = [np.array([t[1] for t in b], "i8") for b in x["meta"]]
    if g == "gmsh41":
        ents = x["elem_entities"]
        m.cell_data["gmsh:geometrical"] = [np.full(len(c), e[1]) for c, e in zip(m.cells, ents)]
        m.point_data["gmsh:dim_tags"] = np.array(x["node_entities"])
        if x["entities"] is not None:
            phys = [x["entities"][tuple(e)][0] if tuple(e) in x["entities"] else [] for e in ents]
            m.cell_data["gmsh:physical"] = [np.full(len(c), p[0] if p else 0) for c, p in zip(m.cells, phys)]
            m.cell_sets["gmsh:bounding_entities"] = [
                x["entities"][tuple(e)][1] if tuple(e) in x["entities"] else [] for e in ents]
            for n, (num, dim) in m.field_data.items():
                m.cell_sets[n] = [np.arange(len(c)) if num in p and e[0] == dim else np.zeros(0, "i8")
                                  for c, p, e in zip(m.cells, phys, ents)]
        else:
            for n in m.field_data:
                m.cell_sets[n] = [np.zeros(0, "i8") for c in m.cells]
    if g == "netgen":
        dim = m.points.shape[1]
        co = {"materials": 0, "bcnames": 1, "cd2names": 2, "cd3names": 3}
        m.field_data = {n: [num, dim - co[k]] for (k, num), n in x["names"].items() if n and n != "default"}
        if x["ident"] is not None:
            m.info = {"netgen:identifications": np.array(x["ident"]), "netgen:identificationtypes": x["itypes"]}
    if g == "su2":
        m.cell_data["su2:tag"] = [np.array([int(t) for t in b]) for b in x["marks"]]
    if g == "med":
        m.point_tags, m.cell_tags = x["groups"]["NOEUD"], x["groups"]["ELEME"]
    if g == "tetgen":
        m.point_data["tetgen:ref"] = np.array([float(a[-1]) for a in x["attrs"]]) if x["attrs"][0] else None
        m.cell_data["tetgen:ref"] = [np.array([float(a[0]) for a in x["eattrs"]]) if x["eattrs"][0] else None]
    return m


def med_components():
    """One field name for point data of 3 components and scalar cell data: NCO fits one of the two only."""
    m = meshio.Mesh(np.eye(3), [("triangle", [[0, 1, 2]])], point_data={"f": np.ones((3, 3))},
                    cell_data={"f": [np.ones(1)]})
    with scratch() as d:
        p = os.path.join(d, "m.med")
        meshio.write(p, m)
        try:
            binary.med(p)
        except Bad:
            return True
    return False


KNOWN = {"med-field-components": lambda ctx: med_components()}


def normals(ref, m, given, ctx):
    """The normal stored with a facet is the caller's, or follows from its corners by the
    right-hand rule; facets without area have a zero normal."""
    got = np.concatenate([np.asarray(a, float).reshape(-1, 3) for a in m.cell_data["facet_normals"]])
    p = np.asarray(ref.points, float)
    if p.shape[1] == 2:
        p = np.column_stack([p, np.zeros(len(p))])
    tri = np.concatenate([p[c] for _, c in ref.cells])
    if len(got) != len(tri):
        return []
    want = np.cross(tri[:, 1] - tri[:, 0], tri[:, 2] - tri[:, 0])
    a = np.linalg.norm(want, axis=1)
    scale = np.abs(tri).max(axis=(1, 2)) ** 2
    with np.errstate(all="ignore"):
        want = np.where(a[:, None] > 0, want / a[:, None], 0.0)
        tol = np.where(a > 0, 1e-6 + 1e-14 * scale / a, 2.0)  # conditioning of the cross product
    if given is not None:
        want, tol = np.concatenate(given), np.full(len(tri), 1e-6)
    bad = []
    for k in range(len(tri)):
        if not np.isfinite(got[k]).all():
            bad.append(("facet-normal", f"facet {k} {tri[k].tolist()} stored with normal {got[k].tolist()}"))
        elif tol[k] < 1e-3:
            ctx.event("normals_compared")
            if np.abs(got[k] - want[k]).max() > tol[k] * max(1.0, np.abs(want[k]).max()):
                bad.append(("facet-normal", f"facet {k} {tri[k].tolist()} stored with normal {got[k].tolist()}, "
                                            f"not {want[k].tolist()}"))
    return bad[:3]


def run(case, ctx):
    if "special" in case:
        return {"polyhedra": run_polyhedra, "svg": run_svg}[case["special"]](case, ctx)
    cap, ref = build(case)
    if ref.extra.pop("skip", False):
        return
    given = None
    if cap.group == "stl" and case["s"] % 4 == 0:
        # normals of the caller's take precedence
        r = rng_of("c06n", case["s"])
        given = [r.normal(size=(len(c), 3)) for _, c in ref.cells]
        ref.cell_data["facet_normals"] = given
    with scratch() as d:
        path = cap.path(d)
        w = observe(cap.write, path, ref.mesh(LAYOUTS[case.get("layout", "C")]))
        ctx.event("writes")
        if w.exc is not None:
            ctx.viol("write-raised", f"{cap.name}: write raised {exc_str(w.exc)} for {ref.describe()}", where=cap.name)
            return
        try:
            m = DEC[cap.group](path)
        except (Bad, ValueError, KeyError, IndexError, TypeError, StopIteration, AssertionError) as e:
            ctx.viol("invalid-file", f"{cap.name}: the written file is not valid: {exc_str(e)} | {ref.describe()}",
                     where=cap.name)
            return
        if given is not None:
            ref.cell_data.pop("facet_normals")
        v = []
        if not case.get("tags"):
            v += oracle.cmp_geometry(ref, m, cap) + oracle.cmp_data(ref, m, cap)
        else:
            m = dress(cap, m)
            v += oracle.cmp_geometry(ref, m, cap) + tags.compare(ref, m, cap) + oracle.cmp_data(ref, m, cap)
        if cap.group == "stl":
            v += normals(ref, m, given, ctx)
        for mech, msg in v:
            ctx.viol(mech, f"{cap.name}: {msg} | {ref.describe()}", where=cap.name)
    ctx.event("points_compared", len(ref.points))
    ctx.event("cells_compared", sum(len(c) for _, c in ref.cells))
    ctx.event("arrays_compared", len(ref.point_data) + sum(len(x) for x in ref.cell_data.values()))
    ctx.event("sets_compared", len(ref.point_sets) + len(ref.cell_sets))
    if case.get("tags"):
        ctx.event("tags_compared", len(ref.field_data) + len([k for k in ref.cell_data if ":" in k or "_tags" in k]))
    ctx.mark("variants", cap.name)
    for t, _ in ref.cells:
        ctx.mark("format_types", (cap.group, t))
    ctx.obs(cap.name, ref.points.shape, str(ref.points.dtype), case.get("layout"),
            [(t, c.shape, str(c.dtype)) for t, c in ref.cells], sorted(ref.point_data), sorted(ref.cell_data))
    ctx.sample(variant=cap.name, mesh=ref.describe())
