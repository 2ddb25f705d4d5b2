"""C01: write-then-read preserves points and cells in every format."""
import numpy as np

from vlib import oracle
from vlib.caps import CAPS, extremes
from vlib.env import scratch
from vlib.rt import LAYOUTS, ref_of, write_read

ID = "C01"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: round-trip oracle against a reference mesh"
RULE = ("seeded random meshes inside each format's declared cell types (every type alone in both "
        "dimensions, mixed/alternating/many blocks, tight and sparse point use, several sizes, "
        "point/cell dtypes, memory layouts) written and read with every encoding; non-trivial: "
        "the oracle compared at least one point array and one cell array; distinct by variant, "
        "block types and sizes, dimension, dtypes, layout")
ASSUMPTIONS = [
    "scope per format (cell types, dimension, precision, permitted regrouping of blocks) is the "
    "capability table vlib/caps.py, stated from the formats' documentation",
    "Gmsh 4.1 meshes are written as one block unless gmsh:dim_tags are given (C03)",
]
REQUIRE = {"quick": {"points_compared": 20000, "cells_compared": 20000, "variants": 60}}
CPU = 40


def cases(tier, seed):
    out = []
    nrand = 200 if tier == "quick" else 1200
    for v, cap in CAPS.items():
        n = nrand if not cap.heavy else max(6, nrand // 2)
        for dim in cap.dims:
            types = cap.types2 if (dim == 2 and cap.types2) else cap.types
            for k, t in enumerate(types):
                out.append({"v": v, "s": seed * 1000 + k, "types": [t], "dim": dim,
                            "size": "small"})
                if cap.multi in ("any", "single_type"):
                    out.append({"v": v, "s": seed * 1000 + 500 + k, "dim": dim, "size": "tiny",
                                "blocks": [[t, 2], [t, 1]], "types": [t]})
        sizes = ["tiny", "small", "small", "medium"]
        for i in range(n):
            out.append({"v": v, "s": seed * 100000 + i, "size": sizes[i % 4],
                        "layout": list(LAYOUTS)[i % len(LAYOUTS)] if i % 3 == 2 else "C"})
        for lay in LAYOUTS:
            out.append({"v": v, "s": seed * 7000 + 1, "size": "small", "layout": lay})
        for i in range(1 if tier == "quick" else 6):
            out.append({"v": v, "s": seed * 9000 + i, "size": "large"})
        if cap.multi == "any":
            # many blocks: more than ten, alternating types
            for i in range(1 if tier == "quick" else 10):
                a, b = cap.types[i % len(cap.types)], cap.types[(i + 1) % len(cap.types)]
                if cap.types2:
                    a, b = cap.types[0], cap.types[1]
                out.append({"v": v, "s": seed * 11000 + i, "size": "small",
                            "blocks": [[a, 1 + j % 3] if j % 2 else [b, 1] for j in range(13)]})
    for cap in CAPS.values():
        out += extremes(cap, seed, tier, huge=True)
    return out


def run(case, ctx):
    cap, rng, ref = ref_of(case, data=False)
    with scratch() as d:
        m = write_read(ctx, cap, ref, d, layout=LAYOUTS[case.get("layout", "C")])
        if m is None:
            return
        for mech, msg in oracle.wellformed(m) + oracle.cmp_geometry(ref, m, cap):
            ctx.viol(mech, f"{cap.name}: {msg} | {ref.describe()}", where=cap.name)
    ctx.event("points_compared", len(ref.points))
    ctx.event("cells_compared", sum(len(c) for _, c in ref.cells))
    ctx.mark("variants", cap.name)
    for t, _ in ref.cells:
        ctx.mark("format_types", (cap.group, t))
    ctx.obs(cap.name, ref.points.shape, str(ref.points.dtype), case.get("layout"),
            [(t, c.shape, str(c.dtype)) for t, c in ref.cells])
    ctx.sample(variant=cap.name, mesh=ref.describe())
