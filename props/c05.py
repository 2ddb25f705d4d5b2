"""C05: chains of conversions through formats preserve the mesh."""
import os

import numpy as np

from vlib import gen, oracle, tags
from vlib.caps import CAPS, Cap
from vlib.env import exc_str, meshio, observe, scratch
from vlib.rt import rng_of

tags.LONG = False  # joined set names would exceed what some format on the way can name

ID = "C05"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: recorded conversion histories (every ordered pair of formats, random chains of up "
             "to six) with the mesh after every hop compared with the one at the start")
RULE = ("random meshes in the content all formats of the chain support; each hop writes what the previous read "
        "returned, including the tags and data the reader attached; geometry after every hop and data common to the "
        "chain are compared with the start; non-trivial: at least two hops compared; distinct by chain and mesh")
ASSUMPTIONS = [
    "content: cell types, dimensions and block structures all formats of the chain support (Gmsh 4.1 without entity "
    "information stores one block)",
    "SU2 groups boundary cells by marker: chains through it use no boundary cells",
    "precision: the sum of the hops' documented precisions",
]
REQUIRE = {"quick": {"hops": 9000, "pairs": 850, "chains": 1500, "data_arrays_compared": 2500, "longest": 1,
                     "tagged_starts": 400, "references_compared": 1500}}
CPU = 120


def groups():
    out = {}
    for v, c in CAPS.items():
        out.setdefault(c.group, []).append(v)
    return out


def cases(tier, seed):
    out = []
    g = groups()
    reps = 8 if tier == "quick" else 60
    for a in sorted(g):
        for b in sorted(g):
            for i in range(reps):
                out.append({"k": "pair", "a": a, "b": b, "s": seed * 1000 + i})
    for i in range(4000 if tier == "quick" else 60000):
        out.append({"k": "chain", "s": seed * 100000 + i})
    for i in range(3000 if tier == "quick" else 20000):
        out.append({"k": "refs", "s": seed * 100000 + i})
    return out


# formats that keep one integer per cell under a name of their own, and take the first integer array they are given
ONE = {"medit": "medit:ref", "avsucd": "avsucd:material"}
OWN = dict(ONE, nastran="nastran:ref", netgen="netgen:index", tetgen="tetgen:ref")


def ref_starts():
    """Variants that give a mesh with a single integer array."""
    for v, c in CAPS.items():
        if c.group in OWN:
            yield v, ["i8", "i4", "i2", "u1", "u2"]
        else:
            dts = [d for k, l in c.cd_kinds if k == "s" for d in l if d[0] in "iu"]
            # Tecplot data are real numbers; Gmsh meshes bring integer tags of their own
            if dts and c.group != "tecplot" and not c.group.startswith("gmsh"):
                yield v, dts


def run_refs(case, ctx):
    """Region numbers of the cells through several formats."""
    rng = rng_of("refs", case["s"])
    starts = dict(ref_starts())
    a = pick(rng, sorted(starts))
    n = int(rng.integers(1, 3))
    names = [a] + [pick(rng, sorted(v for v, c in CAPS.items() if c.group in ONE)) for _ in range(n)]
    caps = [CAPS[v] for v in names]
    comp = meet(caps)
    if comp is None:
        ctx.event("nothing_in_common")
        return
    ref = gen.gen(rng, comp, size="small", data=False, types=[t for t in comp.types if t != "vertex"] or None)
    dt = pick(rng, starts[a])
    vals = [rng.integers(1, 100, len(c)).astype(dt) for _, c in ref.cells]
    nm = OWN.get(caps[0].group, str(rng.choice(["mat", "ref", "domain"])))
    ref.cell_data[nm] = vals
    m = ref.mesh()
    exp = ref.copy()
    with scratch() as d:
        for i, cap in enumerate(caps):
            what = " -> ".join(names[: i + 1]) + f" {dt} {nm}"
            os.mkdir(os.path.join(d, str(i)))
            p = cap.path(os.path.join(d, str(i)))
            o = observe(cap.write, p, m)
            if o.exc is None:
                o = observe(cap.read, p)
            if o.exc is not None:
                ctx.viol("raised", f"{what}: {exc_str(o.exc)} for {ref.describe()}", where=what)
                return
            m = o.value
            key = OWN.get(cap.group, nm)
            exp.cell_data = {key: vals}
            part = meet(caps[: i + 1])
            v = oracle.cmp_geometry(exp, m, part)
            if not v:
                part.dtol = 0
                v = oracle.cmp_data(exp, m, part)
            for mech, msg in v:
                ctx.viol(mech, f"{what}: {msg}", where=what)
            if v:
                return
            ctx.event("references_compared")
    ctx.obs("refs", tuple(names), dt, case["s"])


def meet(caps):
    """Composite capability of a chain; None if there is nothing all of them carry."""
    types = [t for t in caps[0].types if all(t in c.types for c in caps)]
    # which point dimensions get through
    dims = []
    for dim in (2, 3):
        d = dim
        ok = True
        for c in caps:
            if d not in c.dims:
                ok = False
            if d == 2 and c.pad3:
                d = 3
        if ok:
            dims.append(dim)
    su2 = any(c.group == "su2" for c in caps)
    if su2:
        types = [t for t in types if t in ("tetra", "hexahedron", "wedge", "pyramid")]
        dims = [x for x in dims if x == 3]
    if not types or not dims:
        return None
    order = ["any", "unique", "single_type", "single"]
    ms = {c.multi for c in caps}
    multi = "single" if {"unique", "single_type"} <= ms else max(ms, key=order.index)
    bl = ["exact", "merge", "bytype"]
    if multi == "any" and any(c.blocks == "bytype" for c in caps):
        pass
    kinds = {}
    for what in ("pd_kinds", "cd_kinds"):
        common = None
        for c in caps:
            s = {(k, dt) for k, dts in getattr(c, what) for dt in dts}
            common = s if common is None else common & s
        d = {}
        for k, dt in sorted(common):
            d.setdefault(k, []).append(dt)
        kinds[what] = sorted(d.items())
    if any(c.soup for c in caps):
        kinds = {"pd_kinds": [], "cd_kinds": []}
    if any(c.group == "avsucd" for c in caps):
        # an integer array is taken for the material numbers
        kinds["cd_kinds"] = [(k, [x for x in dts if x[0] == "f"]) for k, dts in kinds["cd_kinds"]]
        kinds["cd_kinds"] = [(k, dts) for k, dts in kinds["cd_kinds"] if dts]
    coord = "unit"
    # single precision coordinates are written with the digits single precision needs
    f4 = 2e-7 if any(c.ptol > 1e-8 for c in caps) else 0.0
    return Cap(name="->".join(c.name for c in caps), types=types, dims=tuple(dims), multi=multi,
               blocks=max((c.blocks for c in caps), key=bl.index),
               pdt=("f8",), cdt=tuple(x for x in ("i8", "i4") if all(x in c.cdt for c in caps)),
               ptol=sum(c.ptol for c in caps) * 1.01 + f4, patol=sum(c.patol for c in caps) * 1.01,
               dtol=sum(c.dtol for c in caps), squeeze1=any(c.squeeze1 for c in caps),
               mirror=any(c.mirror for c in caps), soup=any(c.soup for c in caps),
               pad3=any(c.pad3 for c in caps), coord_style=lambda r: coord,
               name_max=min(c.name_max for c in caps), name_uni=all(c.name_uni for c in caps),
               degenerate=all(c.degenerate for c in caps),
               shared_names=all(c.shared_names for c in caps), **kinds)


def pick(rng, l):
    return l[int(rng.integers(0, len(l)))]


def run(case, ctx):
    if case["k"] == "refs":
        return run_refs(case, ctx)
    g = groups()
    if case["k"] == "pair":
        rng = rng_of("pair", case["a"], case["b"], case["s"])
        names = [pick(rng, g[case["a"]]), pick(rng, g[case["b"]])]
        if case["s"] % 3 == 0:
            names.append(pick(rng, g[case["a"]]))  # and back
        elif case["s"] % 3 == 1:
            names.append(pick(rng, g[case["b"]]))  # written once more
    else:
        rng = rng_of("chain", case["s"])
        n = int(rng.integers(3, 7))
        names = []
        keys = sorted(g)
        while len(names) < n:
            v = pick(rng, g[pick(rng, keys)])
            # soups renumber the points: rarely, and then last
            if CAPS[v].soup and (len(names) < n - 1 or rng.random() < 0.5):
                continue
            if meet([CAPS[x] for x in names + [v]]) is None:
                if rng.random() < 0.03:
                    break
                continue
            names.append(v)
    caps = [CAPS[v] for v in names]
    comp = meet(caps)
    if comp is None:
        ctx.event("nothing_in_common")
        return
    ref = gen.gen(rng, comp, size=str(rng.choice(["tiny", "small"])), data=True)
    tagged = False
    if caps[0].group in tags.ADD and caps[0].group not in ("gmsh41",) and rng.random() < 0.4 and not any(
            c.group == "su2" for c in caps):
        r2 = ref.copy()
        tags.ADD[caps[0].group](rng, caps[0], r2)
        if [t for t, _ in r2.cells] == [t for t, _ in ref.cells] and "skip" not in r2.extra:
            ref, tagged = r2, True
            ctx.event("tagged_starts")
    keep_pd = {k for k in ref.point_data if ":" not in k} if not tagged else set()
    keep_cd = {k for k in ref.cell_data if ":" not in k} if not tagged else set()
    m = ref.mesh()
    with scratch() as d:
        for i, cap in enumerate(caps):
            sub = os.path.join(d, str(i))
            os.mkdir(sub)
            p = cap.path(sub)
            what = " -> ".join(names[: i + 1])
            w = observe(cap.write, p, m)
            if w.exc is not None:
                ctx.viol("write-raised", f"{what}: {exc_str(w.exc)} for {ref.describe()}" + (" with tags" if tagged else ""),
                         where=what)
                return
            r = observe(cap.read, p)
            if r.exc is not None:
                ctx.viol("read-raised", f"{what}: {exc_str(r.exc)} {r.warned[-150:]} for {ref.describe()}", where=what)
                return
            m = r.value
            part = meet(caps[: i + 1])
            exp = ref.copy()
            exp.point_data = {k: v for k, v in ref.point_data.items() if k in keep_pd}
            exp.cell_data = {k: v for k, v in ref.cell_data.items() if k in keep_cd}
            v = oracle.cmp_geometry(exp, m, part)
            if not part.soup and not v:
                v = oracle.cmp_data(exp, m, part)
                ctx.event("data_arrays_compared", len(exp.point_data) + len(exp.cell_data))
            for mech, msg in v:
                ctx.viol(mech, f"{what}: {msg}", where=what)
            if v:
                return
            ctx.event("hops")
            if i:
                ctx.mark("pairs", (caps[i - 1].group, cap.group))
            if len(ref.points) != len(m.points):
                break  # soups
        ctx.obs(tuple(names), case["s"])
        if case["k"] == "chain":
            ctx.event("chains")
        if len(names) == 6:
            ctx.mark("longest", 6)
        ctx.sample(chain=names, mesh=ref.describe())
