"""C03: sets, reference tags and named groups survive write-then-read."""
import numpy as np

from vlib import gen, oracle, tags
from vlib.caps import CAPS
from vlib.env import exc_str, observe, scratch
from vlib.rt import LAYOUTS, rng_of, write_read

ID = "C03"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: round-trip oracle over sets, tags, groups, periodicity"
RULE = ("seeded random meshes carrying the sets, integer references, named groups, families, "
        "periodic links and identifications each format stores (sizes around line-wrapping "
        "widths, full, single, last-element, overlapping and empty members; several blocks, "
        "repeated types); the oracle compares names and exact membership block by block; "
        "non-trivial: at least one set/tag/group was present and compared; distinct by variant, "
        "block structure and tag signature")
ASSUMPTIONS = [
    "scope per format as in vlib/tags.py: e.g. Gmsh 4.1 stores one geometrical and physical tag "
    "per block (entity), SU2 stores tags of boundary cells, UGRID of boundary faces",
    "FLAC3D group names come back qualified with their slot",
]
REQUIRE = {"quick": {"tags_under_other_names": 300, "tag_arrays_compared": 2000, "sets_compared": 500, "variants": 35, "converting_variants": 5}}
CPU = 40
CONV = [v for v, c in CAPS.items() if v.startswith(("vtk51", "vtu"))]
VARS = [v for v, c in CAPS.items() if c.group in tags.ADD]


def cases(tier, seed):
    out = []
    n0 = 250 if tier == "quick" else 2500
    for v in VARS:
        cap = CAPS[v]
        per = sum(c.group == cap.group for c in CAPS.values())
        n = max(20, n0 // (2 if per > 4 else 1) // (2 if cap.heavy else 1))
        if cap.group in ("abaqus", "gmsh41", "flac3d"):
            n *= 2
        for i in range(n):
            out.append({"v": v, "s": seed * 100000 + i,
                        "size": ["tiny", "small", "small", "medium"][i % 4],
                        "layout": list(LAYOUTS)[i % len(LAYOUTS)] if i % 5 == 4 else "C"})
        if cap.multi == "any" and cap.group != "su2":
            for i in range(4 if tier == "quick" else 40):
                a, b = cap.types[i % len(cap.types)], cap.types[(i + 1) % len(cap.types)]
                out.append({"v": v, "s": seed * 11000 + i, "size": "small",
                            "blocks": [[a, 1 + j % 3] if j % 2 else [b, 1] for j in range(9)]})
    for v in CONV:
        for i in range(40 if tier == "quick" else 1500):
            out.append({"k": "conv", "v": v, "s": seed * 100000 + i,
                        "size": ["tiny", "small", "small", "medium"][i % 4]})
    return out


def members(rng, n, k, overlap):
    """k sets of indices below n, disjoint unless overlap"""
    if overlap:
        return [np.sort(rng.choice(n, rng.integers(0, n + 1), replace=False)) for _ in range(k)]
    of = rng.integers(0 if k and rng.random() < 0.5 else -1, k or 1, n)
    return [np.nonzero(of == j)[0] for j in range(k)]


def run_conv(case, ctx):
    """formats that announce storing sets as integer data: each entity gets the number of its set"""
    cap = CAPS[case["v"]]
    rng = rng_of(cap.name, case["s"], "conv")
    ref = gen.gen(rng, cap, size=case["size"], data=case["s"] % 2 == 0)
    pool = [str(x) for x in rng.permutation(["left", "right", "a b", "x_1", "Top", "in-let", "q.r", "é"])]
    overlap = case["s"] % 5 == 4
    pn, cn = pool[:int(rng.integers(0, 4))], pool[4:4 + int(rng.integers(0, 5))]
    for nm, x in zip(pn, members(rng, len(ref.points), len(pn), overlap)):
        ref.point_sets[nm] = x
    per = [members(rng, len(c), len(cn), overlap) for _, c in ref.cells]
    for j, nm in enumerate(cn):
        ref.cell_sets[nm] = [b[j] for b in per]
        for k in range(len(per)):
            if not len(ref.cell_sets[nm][k]) and rng.random() < 0.5:
                ref.cell_sets[nm][k] = None
    mesh = ref.mesh()
    with scratch() as d:
        path = cap.path(d)
        w = observe(cap.write, path, mesh)
        if w.exc is not None:
            ctx.viol("sets-refused", f"{cap.name}: {exc_str(w.exc)} | {pn} {cn}", where=cap.name)
            return
        r = observe(cap.read, path)
        if r.exc is not None:
            ctx.viol("sets-unreadable", f"{cap.name}: {exc_str(r.exc)} | {pn} {cn}", where=cap.name)
            return
    m = r.value
    plain = lambda x: "".join(ch for ch in x if ch.isalpha() or ch.isdigit())
    for what, names, data, old, sets, lens in (
            ("point", pn, m.point_data, ref.point_data, [[x] for x in ref.point_sets.values()], [len(ref.points)]),
            ("cell", cn, m.cell_data, ref.cell_data, list(ref.cell_sets.values()), [len(c) for _, c in ref.cells])):
        if not names:
            continue
        keys = [k for k in data if k not in old]
        if len(keys) != 1 or plain(keys[0]) != plain("".join(names)):
            ctx.viol("sets-name", f"{cap.name}: {what} sets {names} stored as {keys}", where=cap.name)
            continue
        got = data[keys[0]]
        got = np.concatenate([np.asarray(g) for g in got]) if what == "cell" else np.asarray(got)
        want = [set() for _ in range(sum(lens))]
        for j, l in enumerate(sets):
            off = 0
            for x, n in zip(l, lens):
                for i in ([] if x is None else x):
                    want[off + int(i)].add(j)
                off += n
        ctx.event("sets_compared", len(names))
        if got.shape != (len(want),) or got.dtype.kind not in "iu":
            ctx.viol("sets-data", f"{cap.name}: {what} sets stored as {got.dtype} {got.shape}", where=cap.name)
            continue
        bad = [i for i, (g, w) in enumerate(zip(got.tolist(), want)) if (g not in w if w else 0 <= g < len(names))]
        if bad:
            ctx.viol("sets-data", f"{cap.name}: {what} {bad[0]} is in sets {sorted(want[bad[0]])} of {names}, "
                     f"stored {got[bad[0]]}", where=cap.name)
        ctx.mark("converting_variants", cap.name)
        ctx.obs("conv", cap.name, what, names, lens, overlap)


def build(case):
    cap = CAPS[case["v"]]
    rng = rng_of(cap.name, case["s"])
    kw = {k: case[k] for k in ("size", "blocks") if k in case}
    if cap.group == "gmsh41" and "blocks" not in kw:
        lo, hi = gen.SIZES[case["size"]][2:]
        ts = [t for t in cap.types if case["size"] != "medium" or gen.NN.get(t, 5) < 30]
        kw["blocks"] = gen.choose_blocks(rng, ts, "any", lo, hi)
    if cap.group == "su2":
        kw["dim"] = 2 + case["s"] % 2
    ref = gen.gen(rng, cap, data=bool(cap.pd_kinds) and case["s"] % 3 == 0, **kw)
    tags.ADD[cap.group](rng, cap, ref)
    return cap, ref


# formats with one reference per entity: the first scalar integer array is taken
PICK = {"su2": "su2:tag", "avsucd": "avsucd:material", "ugrid": "ugrid:ref", "medit": "medit:ref"}


def alias(rng, cap, ref):
    """The same mesh with its references under another name, as other readers give them, among
    real-valued arrays and integer vectors."""
    key = PICK[cap.group]
    out = ref.copy()
    out.point_data = {k: v for k, v in ref.point_data.items() if k == key}
    new = str(rng.choice(["gmsh:physical", "mat", "medit:ref", "su2:tag", "ugrid:ref", "CellEntityIds", "attribute"]))
    before, after = [{}, {}]
    for i, where in enumerate((before, after)):
        if rng.random() < 0.5:
            where[f"temp{i}"] = [rng.random(len(c)) for _, c in ref.cells]
        if rng.random() < 0.3 and cap.group != "avsucd":
            where[f"vec{i}"] = [rng.integers(0, 9, (len(c), 3)) for _, c in ref.cells]
    if rng.random() < 0.3 and cap.group != "avsucd":
        after["more"] = [rng.integers(0, 9, len(c)) for _, c in ref.cells]
    out.cell_data = {**before, new: out.cell_data[key], **after}
    if cap.group == "medit" and key in out.point_data:
        out.point_data = {"p": rng.random(len(ref.points)), str(rng.choice(["node ids", key])): out.point_data[key]}
    return out


def run(case, ctx):
    if case.get("k") == "conv":
        return run_conv(case, ctx)
    cap, ref = build(case)
    if ref.extra.pop("skip", False):
        return
    given = ref
    if cap.group in PICK and case["s"] % 3 == 1:
        given = alias(rng_of("alias", case["s"]), cap, ref)
        ctx.event("tags_under_other_names")
    with scratch() as d:
        m = write_read(ctx, cap, given, d, layout=LAYOUTS[case.get("layout", "C")])
        if m is None:
            return
        for mech, msg in (oracle.wellformed(m, strict_index=True)
                          + [("geometry-" + a, b) for a, b in oracle.cmp_geometry(ref, m, cap)]
                          + tags.compare(ref, m, cap)):
            if mech == "cset-range" and "bounding" in msg:
                continue
            ctx.viol(mech, f"{cap.name}: {msg} | {ref.describe()}", where=cap.name)
    nt = len([k for k in ref.point_data if ":" in k or k.endswith("_tags")]) + len(
        [k for k in ref.cell_data if ":" in k or k.endswith("_tags")])
    ns = len(ref.point_sets) + len(ref.cell_sets)
    ctx.event("tag_arrays_compared", nt)
    ctx.event("sets_compared", ns)
    ctx.event("named_groups_compared", len(ref.field_data))
    if ref.extra.get("gmsh_periodic"):
        ctx.event("periodic_links_compared", len(ref.extra["gmsh_periodic"]))
    if ref.extra.get("info"):
        ctx.event("identification_tables_compared")
    if nt + ns + len(ref.field_data):
        ctx.mark("variants", cap.name)
        ctx.obs(cap.name, [(t, len(c)) for t, c in ref.cells], sorted(ref.point_sets),
                sorted((k, tuple(len(x) for x in l)) for k, l in ref.cell_sets.items()),
                sorted(ref.cell_data), sorted(ref.field_data))
        ctx.sample(variant=cap.name, mesh=ref.describe(), groups=list(ref.field_data))
