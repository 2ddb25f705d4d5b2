"""C02: point and cell data survive write-then-read, attached to the right entity."""
import copy

import numpy as np

from vlib import gen, oracle
from vlib.caps import CAPS, extremes
from vlib.env import scratch
from vlib.rt import LAYOUTS, ref_of, write_read

ID = "C02"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: round-trip oracle, value-by-value attachment check"
RULE = ("seeded random meshes with 0-3 point and 0-3 cell arrays of every kind (scalar, vector, "
        "tensor) and dtype each data-carrying encoding supports, on single/mixed/alternating "
        "block structures; non-trivial: at least one array was compared value by value against "
        "the entity it was attached to; distinct by variant, block structure and array "
        "signatures")
ASSUMPTIONS = [
    "which arrays a format carries is the capability table vlib/caps.py",
    "arrays that formats reserve as integer references are checked in C03",
]
REQUIRE = {"quick": {"arrays_compared": 3000, "variants": 25, "extra_shapes": 200}}
CPU = 40
DATA = [v for v, c in CAPS.items() if c.pd_kinds or c.cd_kinds]

# further shapes the writers accept; matrices may come back flattened row by row, (n,1) as (n,), and Tecplot, which
# only has scalars, splits the components into q_0, q_1, ...
EXTRA = {"avsucd": "1 2 4 6 9", "gmsh22": "33", "gmsh40": "33", "gmsh41": "33", "h5m": "1 2 6 9 33", "med": "1 2 4 6 9",
         "vtk": "1 33 22 23", "vtu": "33 22 23", "xdmf": "33 22 23", "hmf": "2 6 9 22", "tecplot": "1 2 3 6 9",
         "exodus": "1 2 3 9"}


def cases(tier, seed):
    out = []
    n0 = 250 if tier == "quick" else 1500
    for v in DATA:
        cap = CAPS[v]
        n = n0 if not cap.heavy else n0 // 2
        sizes = ["tiny", "small", "small", "medium"]
        for i in range(n):
            out.append({"v": v, "s": seed * 100000 + i, "size": sizes[i % 4],
                        "layout": list(LAYOUTS)[i % len(LAYOUTS)] if i % 3 == 2 else "C"})
        # every kind and dtype at least once, alone
        k = 0
        for which, kinds in (("p", cap.pd_kinds), ("c", cap.cd_kinds)):
            for kind, dts in kinds:
                for dt in dts:
                    out.append({"v": v, "s": seed * 3000 + k, "size": "small",
                                "one": [which, kind, dt]})
                    k += 1
        out += [c for c in extremes(cap, seed, tier) if "exact" in c["size"]]
        for kind in EXTRA.get(cap.group, "").split():
            for i in range(2 if tier == "quick" else 30):
                for which, kinds in (("p", cap.pd_kinds), ("c", cap.cd_kinds)):
                    if kinds:
                        out.append({"v": v, "s": seed * 13000 + i, "size": "small", "one": [which, kind, "f8"], "x": 1})
        if cap.group == "med":  # values at the nodes of the cells
            for i in range(20 if tier == "quick" else 300):
                out.append({"v": v, "s": seed * 14000 + i, "size": "small", "one": ["c", "elno", "f8"], "x": 1})
        for i in range(1 if tier == "quick" else 8):
            out.append({"v": v, "s": seed * 9000 + i, "size": "large"})
        if cap.multi == "any":
            for i in range(2 if tier == "quick" else 20):
                a, b = cap.types[i % len(cap.types)], cap.types[(i + 1) % len(cap.types)]
                out.append({"v": v, "s": seed * 11000 + i, "size": "small",
                            "blocks": [[a, 1 + j % 3] if j % 2 else [b, 1] for j in range(12)]})
    for i in range(80 if tier == "quick" else 2000):
        out.append({"v": "obj", "s": seed * 100000 + i, "size": sizes[i % 4]})
        out.append({"v": ["tetgen.node", "tetgen.ele"][i % 2], "s": seed * 100000 + i, "size": sizes[i % 4]})
    return out


def run_obj(case, ctx):
    """normals and texture coordinates are the point data of Wavefront files"""
    cap, rng, ref = ref_of(case, data=False)
    which = int(rng.integers(1, 4))
    if which & 1:
        ref.point_data["obj:vn"] = gen.data_values(rng, (len(ref.points), 3), "f8")
    if which & 2:
        ref.point_data["obj:vt"] = gen.data_values(rng, (len(ref.points), int(rng.integers(2, 4))), "f8")
    ref.point_data = {k: np.asarray(a) for k, a in ref.point_data.items() if np.isfinite(a).all()}
    with scratch() as d:
        m = write_read(ctx, cap, ref, d)
        if m is None:
            return
        for mech, msg in oracle.wellformed(m) + oracle.cmp_geometry(ref, m, cap):
            ctx.viol(mech, f"obj: {msg} | {ref.describe()}", where="obj")
        for nm in ("obj:vn", "obj:vt"):
            a, b = ref.point_data.get(nm), m.point_data.get(nm)
            if (a is None) != (b is None) or a is not None and (
                    np.asarray(b).shape != a.shape or not np.array_equal(a, b)):
                ctx.viol("data-value", f"obj: {nm} changed | {ref.describe()}", where="obj")
            elif a is not None:
                ctx.event("arrays_compared")
                ctx.mark("variants", "obj")
                ctx.obs("obj", nm, a.shape, case["s"])


def run_tetgen(case, ctx):
    """point attributes, region attributes and markers by their position"""
    cap, rng, ref = ref_of(case, data=False)
    np_, nc = int(rng.integers(0, 4)), int(rng.integers(0, 4))
    for k in range(np_):
        ref.point_data[f"tetgen:attr{k + 1}"] = gen.data_values(rng, (len(ref.points),), "f8")
    ref.point_data["tetgen:ref"] = gen.data_values(rng, (len(ref.points),), "i4")
    for k in range(nc):
        dt = str(rng.choice(["f8", "i4"]))
        ref.cell_data["tetgen:ref" + (str(k + 1) if k else "")] = [
            gen.data_values(rng, (len(c),), dt) for _, c in ref.cells]
    with scratch() as d:
        m = write_read(ctx, cap, ref, d)
        if m is None:
            return
        for mech, msg in oracle.wellformed(m) + oracle.cmp_geometry(ref, m, cap):
            ctx.viol(mech, f"{cap.name}: {msg} | {ref.describe()}", where=cap.name)
        if set(m.point_data) != set(ref.point_data) or set(m.cell_data) != set(ref.cell_data):
            ctx.viol("data-names", f"{cap.name}: {sorted(ref.point_data)} and {sorted(ref.cell_data)} came back as "
                     f"{sorted(m.point_data)} and {sorted(m.cell_data)}", where=cap.name)
            return
        for nm, a in ref.point_data.items():
            if not np.array_equal(a, m.point_data[nm]):
                ctx.viol("data-value", f"{cap.name}: point data {nm} changed | {ref.describe()}", where=cap.name)
        for nm, l in ref.cell_data.items():
            if not np.array_equal(np.concatenate(l), np.concatenate(m.cell_data[nm])):
                ctx.viol("data-value", f"{cap.name}: cell data {nm} changed | {ref.describe()}", where=cap.name)
    ctx.event("arrays_compared", np_ + nc + 1)
    ctx.mark("variants", cap.name)
    ctx.obs(cap.name, np_, nc, case["s"])


def run(case, ctx):
    if case["v"] == "obj":
        return run_obj(case, ctx)
    if case["v"].startswith("tetgen"):
        return run_tetgen(case, ctx)
    cap, rng, ref = ref_of(case, data="one" not in case)
    if "one" in case:
        which, kind, dt = case["one"]
        if which == "p":
            ref.point_data["q"] = gen.data_values(rng, gen.shape_of(kind, len(ref.points)), dt)
        elif kind == "elno":
            if any(t == "vertex" for t, _ in ref.cells):  # one value per cell
                return
            k = int(rng.integers(1, 5))
            ref.cell_data["q"] = [gen.data_values(rng, (len(c), c.shape[1], k), dt) for _, c in ref.cells]
        else:
            ref.cell_data["q"] = [gen.data_values(rng, gen.shape_of(kind, len(c)), dt)
                                  for _, c in ref.cells]
    want = ref
    if case.get("x"):
        cap = copy.copy(cap)
        cap.flat = cap.group in ("gmsh22", "gmsh40", "gmsh41", "vtk", "vtu")
        cap.squeeze1 = cap.squeeze1 or cap.group in ("avsucd", "med", "vtk")
        ctx.event("extra_shapes")
    with scratch() as d:
        m = write_read(ctx, cap, ref, d, layout=LAYOUTS[case.get("layout", "C")])
        if m is None:
            return
        if case.get("x") and cap.group == "tecplot":
            want = copy.copy(ref)
            want.point_data = {f"{k}_{j}": a[:, j] for k, a in ref.point_data.items() for j in range(a.shape[1])}
            want.cell_data = {f"{k}_{j}": [a[:, j] for a in l] for k, l in ref.cell_data.items()
                              for j in range(l[0].shape[1])}
        for mech, msg in oracle.wellformed(m) + oracle.cmp_data(want, m, cap):
            ctx.viol(mech, f"{cap.name}: {msg} | {ref.describe()}", where=cap.name)
        # data must not be invented: no array the caller did not give, besides the
        # format's own reference arrays
        for nm in m.point_data:
            if nm not in want.point_data and not reserved(nm):
                ctx.viol("data-invented", f"{cap.name}: point data {nm!r} appeared", where=cap.name)
        for nm in m.cell_data:
            if nm not in want.cell_data and not reserved(nm):
                ctx.viol("data-invented", f"{cap.name}: cell data {nm!r} appeared", where=cap.name)
    n = len(ref.point_data) + len(ref.cell_data)
    ctx.event("arrays_compared", n)
    ctx.event("values_compared", sum(a.size for a in ref.point_data.values())
              + sum(a.size for l in ref.cell_data.values() for a in l))
    if n:
        ctx.mark("variants", cap.name)
        ctx.obs(cap.name, [(t, len(c)) for t, c in ref.cells], case.get("layout"),
                sorted((k, str(a.dtype), a.shape) for k, a in ref.point_data.items()),
                sorted((k, str(l[0].dtype), l[0].shape) for k, l in ref.cell_data.items()))
        ctx.sample(variant=cap.name, mesh=ref.describe())


def reserved(nm):
    return ":" in nm or nm in ("point_tags", "cell_tags", "GLOBAL_ID")
