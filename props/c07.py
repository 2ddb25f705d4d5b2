"""C07: files other producers may write are read as the mesh they describe."""
import copy

import numpy as np

from vlib import gen, oracle, tags
from vlib.caps import CAPS
from vlib.enc import FORMATS, R
from vlib.env import exc_str, observe, scratch
from vlib.rt import rng_of

ID = "C07"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: the readers run on files of independent encoders; oracle compares what they observed"
RULE = ("seeded random meshes spelled by stand-alone encoders (vlib/enc, no meshio code), one per format version and "
        "encoding, which take at random the liberties the format's specification grants to producers: whitespace, line "
        "ends, comments, keyword case, line wrapping, id numbering (offsets, gaps, arbitrary order), section and "
        "attribute order, optional sections and columns, number spelling and number types, byte order, "
        "raw/appended/compressed data, several pieces, structured grids; the mesh read is compared with the mesh "
        "spelled; non-trivial: at least one optional liberty taken; distinct by format, liberties and mesh structure")
ASSUMPTIONS = [
    "the supported subset is: the sections, element names and data kinds for which the reader has code; liberties the "
    "readers refuse with an error (not silently misread) are not part of the claim",
]
REQUIRE = {"quick": {"reads": 2500, "formats": 40, "liberties": 450, "points_compared": 100000}}
CPU = 60


def cases(tier, seed):
    n = 300 if tier == "quick" else 1500
    out = []
    for f, spec in FORMATS.items():
        k = max(10, int(n * spec.get("weight", 1)))
        for i in range(k):
            out.append({"f": f, "s": seed * 100000 + i, "size": ["tiny", "small", "small", "medium"][i % 4] if i % 30 else "exact:256"})
    return out


def cmp_sets(ref, m, cap):
    v = []
    for n, want in ref.point_sets.items():
        if n not in m.point_sets:
            v.append(("set-missing", f"point set {n!r} missing, have {list(m.point_sets)}"))
        elif set(map(int, m.point_sets[n])) != set(map(int, want)):
            v.append(("set-value", f"point set {n!r}: {sorted(map(int, want))[:20]} read as "
                      f"{sorted(map(int, m.point_sets[n]))[:20]}"))
    pairs = oracle.block_perm(ref, m, cap) if ref.cell_sets else []
    for n, want in ref.cell_sets.items():
        if n not in m.cell_sets:
            v.append(("set-missing", f"cell set {n!r} missing, have {list(m.cell_sets)}"))
            continue
        got = m.cell_sets[n]
        for ra, rb in pairs or []:
            a, b, off = set(), set(), 0
            for i in ra:
                a |= {int(x) + off for x in want[i]}
                off += len(ref.cells[i][1])
            off = 0
            for i in rb:
                b |= {int(x) + off for x in (got[i] if got[i] is not None else [])}
                off += len(m.cells[i].data)
            if a != b:
                v.append(("set-value", f"cell set {n!r} of {ref.cells[ra[0]][0]}: {sorted(a)[:20]} read as "
                          f"{sorted(b)[:20]}"))
    return v


def run(case, ctx):
    spec = FORMATS[case["f"]]
    cap = copy.copy(CAPS[spec["cap"]])
    for k, v in spec.get("over", {}).items():
        setattr(cap, k, v)
    rng = rng_of("c07", case["f"], case["s"])
    if spec.get("gen"):
        ref = spec["gen"](rng, cap, case)
    else:
        kw = {}
        if cap.xtypes and case["s"] % 12 == 5 and (cap.multi != "any" or cap.types == CAPS[spec["cap"]].types):
            x = [str(t) for t in rng.permutation(cap.xtypes)[:2]]
            kw["blocks"] = [[x[0], 1 + int(rng.integers(3))]]
            if cap.multi == "any" and rng.random() < 0.7:
                kw["blocks"] += [["triangle", 1], [x[-1], 2]]
        ref = gen.gen(rng, cap, size=case["size"], data=bool(cap.pd_kinds or cap.cd_kinds), **kw)
    r = R(rng)
    with scratch() as d:
        path = cap.path(d)
        res = spec["enc"](r, path, ref, cap)
        path = res or path
        o = observe(cap.read, path)
        feats = sorted(set(r.used))
        ctx.event("reads")
        if o.exc is not None:
            ctx.viol("refused", f"{case['f']}: reading raised {exc_str(o.exc)} | {ref.describe()} | {feats}",
                     where=case["f"])
            return
        m = o.value
        v = oracle.wellformed(m) + oracle.cmp_geometry(ref, m, cap) + oracle.cmp_data(ref, m, cap)
        if not v:
            v += cmp_sets(ref, m, cap)
            for n, x in ref.field_data.items():
                if n not in m.field_data or not np.array_equal(np.asarray(m.field_data[n]), np.asarray(x)):
                    v.append(("field-data", f"{n!r}: {x} read as {m.field_data.get(n)}"))
            if "extra_check" in spec:
                v += spec["extra_check"](ref, m)
        for mech, msg in v:
            ctx.viol(mech, f"{case['f']}: {msg} | {ref.describe()} | {feats}", where=case["f"])
    for x in feats:
        ctx.mark("liberties", (case["f"], x))
    ctx.mark("formats", case["f"])
    ctx.event("points_compared", len(ref.points))
    ctx.event("cells_compared", sum(len(c) for _, c in ref.cells))
    ctx.obs(case["f"], feats, ref.points.shape, [(t, np.shape(c)) for t, c in ref.cells])
    ctx.sample(format=case["f"], liberties=feats, mesh=ref.describe())
