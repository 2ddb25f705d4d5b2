"""C08: writing never modifies the caller's mesh."""
import json
import os

import numpy as np

from vlib import gen, tags
from vlib.caps import CAPS
from vlib.env import meshio, observe, scratch, exc_str
from vlib.rt import LAYOUTS, rng_of
from vlib.snap import diff, snap

ID = "C08"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: snapshot monitor and write-protected arrays around every write"
RULE = ("a monitor snapshots the mesh object (every attribute, array, dict, list; values, dtypes, "
        "shapes, key order) before and after each write; meshes inside the format's scope and "
        "meshes with unsupported types, data, sets, tags and 2-D points, so that writes succeed, "
        "warn and fail; every third case uses write-protected arrays as a barrier; non-trivial: "
        "the write was attempted and both snapshots compared; distinct by variant, mesh "
        "signature and outcome")
ASSUMPTIONS = ["replacing an array object by an equal one is not observable and not a change",
               "known findings: (n,2) data arrays in VTK, polyhedron cells in VTU"]
REQUIRE = {"quick": {"writes_ok": 1500, "writes_failed": 100, "snapshots": 5000}}
CPU = 40
OPTS = {
    "gmsh": [{"float_fmt": ".8e"}], "vtu": [{"header_type": "UInt64"}],
}


def cases(tier, seed):
    out = []
    n = 200 if tier == "quick" else 1200
    for v, cap in CAPS.items():
        for i in range(n if not cap.heavy else n // 2 + 1):
            out.append({"v": v, "s": seed * 100000 + i, "mode": "in"})
        for i in range(n):
            out.append({"v": v, "s": seed * 200000 + i, "mode": ["wild", "wildtypes"][i % 2]})
    for i in range(20 if tier == "quick" else 300):
        out.append({"v": "svg", "s": seed * 300 + i, "mode": "svg"})
        out.append({"v": "tikz", "s": seed * 300 + i, "mode": "svg"})
    return out


def make(case):
    if case["mode"] == "svg":
        rng = rng_of("svg", case["s"])
        ref = gen.gen(rng, gen.WILD, types=["triangle", "quad", "line"][: int(rng.integers(1, 4))],
                      dim=int(rng.choice([2, 3])))
        if ref.points.shape[1] == 3 and rng.random() < 0.7:
            ref.points[:, 2] = 0
        return None, ref, rng
    cap = CAPS[case["v"]]
    rng = rng_of(case["v"], case["s"])
    if case["mode"] == "in":
        ref = gen.gen(rng, cap, size="tiny" if case["s"] % 2 else "small")
        if rng.random() < 0.6:
            gen.add_sets(rng, ref)
        nm = str(rng.choice(gen.REFNAMES))
        if cap.group in tags.ADD and rng.random() < 0.4:
            # the tags, groups, families and links of the format itself
            tags.ADD[cap.group](rng, cap, ref)
            ref.extra.pop("skip", None)
        elif rng.random() < 0.5:
            ref.cell_data[nm] = [rng.integers(1, 5, len(c)) for _, c in ref.cells]
        if rng.random() < 0.15:
            # indices in the narrowest type that holds them, up to its largest value
            top = int(rng.choice([127, 128, 255, 256]))
            dt = {127: "i1", 128: "i1", 255: "u1", 256: "u1"}[top]
            n = len(ref.points)
            if n < top and not any("gmsh" in k for k in ref.point_data):
                more = np.concatenate([ref.points, rng.random((top - n, ref.points.shape[1])).astype(ref.points.dtype)])
                ref.points = more
                ref.point_data = {k: np.concatenate([a, np.repeat(a[:1], top - n, axis=0)])
                                  for k, a in ref.point_data.items()}
                ref.cells = [(t, c.astype(dt)) for t, c in ref.cells]
                if len(ref.cells[0][1]):
                    ref.cells[0][1][0, -1] = top - 1
    else:
        types = None if case["mode"] == "wild" else list(cap.types)
        ref = gen.wild(rng, types=types, size="tiny" if case["s"] % 3 else "small")
        if cap.group == "vtk":
            # known findings vtk*-pads-2-vectors: two-component arrays are out of scope here
            ref.point_data.pop("gmsh:dim_tags", None)
    return cap, ref, rng


def run(case, ctx):
    cap, ref, rng = make(case)
    kw = {}
    lay = LAYOUTS[["C", "F", "ro", "swap", "C", "ro"][case["s"] % 6]]
    with scratch() as d:
        m = ref.mesh(lay)
        before = snap(m)
        if cap is None:
            path = os.path.join(d, "x." + case["v"])
            w = observe(meshio.write, path, m, file_format=case["v"])
        else:
            path = cap.path(d)
            w = observe(cap.write, path, m)
        after = snap(m)
    ctx.event("snapshots", 2)
    ctx.event("writes_ok" if w.exc is None else "writes_failed")
    if w.exc is None and w.warned:
        ctx.event("writes_announced")
    where = case["v"]
    for msg in diff(before, after)[:3]:
        ctx.viol("mesh-changed", f"{where}: {msg} (outcome: "
                 f"{'ok' if w.exc is None else exc_str(w.exc)}) {ref.describe()}", where=where)
    if w.exc is not None and "read-only" in str(w.exc):
        ctx.viol("write-barrier", f"{where}: wrote into the caller's array: {exc_str(w.exc)} "
                 f"{ref.describe()}", where=where)
    ctx.obs(where, case["mode"], json.dumps(ref.describe()), type(w.exc).__name__)
    ctx.sample(variant=where, mesh=ref.describe(), outcome=exc_str(w.exc) if w.exc else "ok")


def _vtk2(ctx, fmt="vtk42"):
    p = np.random.default_rng(0).random((4, 3))
    m = meshio.Mesh(p, [("triangle", [[0, 1, 2], [1, 2, 3]])], point_data={"two": p[:, :2].copy()})
    with scratch() as d:
        b = snap(m)
        observe(meshio.write, os.path.join(d, "a.vtk"), m, file_format=fmt)
        return bool(diff(b, snap(m)))


def _poly(ctx):
    p = np.random.default_rng(0).random((4, 3))
    faces = [[[0, 1, 2], [0, 1, 3], [0, 2, 3], [1, 2, 3]]]
    m = meshio.Mesh(p, [("polyhedron4", faces)])
    with scratch() as d:
        b = snap(m)
        observe(meshio.write, os.path.join(d, "a.vtu"), m, file_format="vtu")
        return bool(diff(b, snap(m)))


KNOWN = {
    "vtk42-pads-2-vectors": lambda ctx: _vtk2(ctx, "vtk42"),
    "vtk51-pads-2-vectors": lambda ctx: _vtk2(ctx, "vtk"),
    "vtu-polyhedron-faces": _poly,
}
