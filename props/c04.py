"""C04: encoding options never change the mesh that is stored."""
import itertools

import numpy as np

from vlib import gen, oracle, tags
from vlib.caps import CAPS, Cap, extremes
from vlib.env import exc_str, observe, scratch
from vlib.ref import from_mesh, tdim
from vlib.rt import rng_of

ID = "C04"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: differential oracle across encodings of one format"
RULE = ("one seeded random mesh (points, cells, data, tags, sets within what all encodings of the "
        "format store) is written under every encoding/option combination of that format, each "
        "file is read, and all meshes are compared with the first one; float_fmt options of "
        "2..17 digits must change coordinates only by rounding; non-trivial: at least two "
        "encodings were written and compared; distinct by format, option pair and mesh signature")
ASSUMPTIONS = [
    "text encodings agree up to their documented digits (VTU ASCII 11, Nastran 8/16-column "
    "fields, single precision for 4-byte UGRID/STL binary)",
]
REQUIRE = {"quick": {"pairs_compared": 3000, "formats": 18, "float_fmt_compared": 150}}
CPU = 60

GROUPS = {}
for _v, _c in CAPS.items():
    GROUPS.setdefault(_c.group, []).append(_v)
GROUPS = {g: l for g, l in GROUPS.items() if len(l) > 1}
# versions of one format agree too
CROSS = {"gmsh-versions": ["gmsh22-b", "gmsh22-a", "gmsh40-b", "gmsh40-a", "gmsh41-b", "gmsh41-a"]}
FLOAT = {"abaqus": "abaqus", "flac3d": "flac3d-a", "gmsh22": "gmsh22-a", "gmsh40": "gmsh40-a",
         "gmsh41": "gmsh41-a", "mdpa": "mdpa", "medit": "medit-a", "netgen": "netgen.vol",
         "tetgen": "tetgen.node"}
FMTS = [(".3e", 1e-3), (".8e", 1e-8), (".17g", 0.0), (".12g", 1e-11), (".5f", None), (".17e", 0.0)]


def cases(tier, seed):
    out = []
    n = 400 if tier == "quick" else 3000
    for g, l in list(GROUPS.items()) + list(CROSS.items()):
        k = n if len(l) <= 4 else n // 2
        if CAPS[l[0]].heavy:
            k = n // 2
        for i in range(k):
            out.append({"g": g, "s": seed * 10000 + i,
                        "size": ["tiny", "small", "small", "medium"][i % 4]})
        out.append({"g": g, "s": seed * 10000 + 5000, "size": "large"})
        for c in extremes(CAPS[l[0]], seed, tier):
            if "exact" in c["size"]:
                out.append({"g": g, "s": c["s"], "size": c["size"]})
    for g, v in FLOAT.items():
        for i in range(n // 2):
            out.append({"f": v, "s": seed * 10000 + i, "fmt": i % len(FMTS), "size": "small"})
    return out


class Common(Cap):
    """Intersection of what the variants store."""

    def __init__(self, caps):
        a = caps[0]
        self.__dict__.update(a.__dict__)
        self.group, self.name = a.group, a.name
        inter = lambda f: [x for x in getattr(a, f) if all(x in getattr(c, f) for c in caps)]  # noqa
        self.types = inter("types")
        self.types2 = a.types2
        self.dims = inter("dims")
        self.pdt = inter("pdt")
        self.cdt = inter("cdt")
        kinds = []
        for which in ("pd_kinds", "cd_kinds"):
            out = []
            for kind, dts in getattr(a, which):
                for c in caps[1:]:
                    other = [d for k, d in getattr(c, which) if k == kind]
                    dts = [x for x in dts if other and x in other[0]]
                if dts:
                    out.append((kind, dts))
            setattr(self, which, out)
        self.pad3 = a.pad3
        order = ["exact", "merge", "bytype"]
        self.blocks = order[max(order.index(c.blocks) for c in caps)]
        m = ["any", "unique", "single_type", "single"]
        self.multi = m[max(m.index(c.multi) for c in caps)]
        self.empty_blocks = False
        self.min_points = a.min_points
        self.polygon = a.polygon
        self.max_data, self.shared_names, self.name_style = (
            a.max_data, all(c.shared_names for c in caps), a.name_style)
        self.coord_style = next((c.coord_style for c in caps if c.coord_style), None)
        self.soup, self.mirror, self.squeeze1 = a.soup, False, a.squeeze1
        self.pdt_out, self.data_dtype = None, None
        self.add_sets = None
        self.name_max, self.name_uni = min(c.name_max for c in caps), all(c.name_uni for c in caps)
        self.degenerate = all(c.degenerate for c in caps)
        self.ptol, self.patol, self.dtol = 0.0, 0.0, 0.0


class Pair(Cap):
    def __init__(self, base, a, b):
        self.__dict__.update(base.__dict__)
        self.ptol, self.patol, self.dtol = (max(a.ptol, b.ptol) * 4, max(a.patol, b.patol) * 2,
                                            max(a.dtol, b.dtol) * 4)
        self.pad3 = self.flat = False
        both = lambda f: "same" if getattr(a, f) == "same" and getattr(b, f) == "same" else None  # noqa
        self.pdt_out, self.data_dtype = both("pdt_out"), both("data_dtype")


def narrow(ref, m):
    """Values of single-precision input are compared at single precision: text encodings may
    print the shortest digits that identify the float32."""
    f4 = np.dtype("f4")
    for n, a in ref.point_data.items():
        if a.dtype == f4 and n in m.point_data and m.point_data[n].dtype.kind == "f":
            m.point_data[n] = m.point_data[n].astype(f4)
    for n, l in ref.cell_data.items():
        if len(l) and l[0].dtype == f4 and n in m.cell_data:
            m.cell_data[n] = [x.astype(f4) if x.dtype.kind == "f" else x for x in m.cell_data[n]]


def agree(ra, mb, pair):
    ra.cell_data.pop("facet_normals", None)
    v = oracle.cmp_geometry(ra, mb, pair)
    v += oracle.cmp_data(ra, mb, pair)
    for what in ("point_data", "cell_data", "field_data", "point_sets", "cell_sets"):
        # binary STL discards the facet normals on reading
        a, b = (set(x) - {"facet_normals"} for x in (getattr(ra, what), getattr(mb, what)))
        if a != b:
            v.append((what + "-names", f"{what}: {sorted(a)} against {sorted(b)}"))
    if set(ra.cell_sets) == set(mb.cell_sets) and "gmsh:bounding_entities" not in ra.cell_sets:
        v += tags.cmp_sets(ra, mb, pair)
    v += [x for x in tags.cmp_field(ra, mb) if x[0] == "field-value"]
    return v


def build(case, caps, base):
    rng = rng_of(case.get("g") or case["f"], case["s"])
    ref = gen.gen(rng, base, size=case["size"], data=True)
    if base.group in tags.ADD and rng.random() < 0.6 and base.group != "flac3d":
        if case.get("g") == "gmsh-versions":
            tags._field(rng, ref)
        else:
            tags.ADD[base.group](rng, base, ref)
    elif base.group == "flac3d" and rng.random() < 0.6:
        tags.add_flac3d(rng, base, ref)
        # plain names get an encoding-specific default slot: use qualified ones
        ref.cell_sets = {k: v for k, v in ref.cell_sets.items() if k.count(":") == 2}
    ref.extra.pop("skip", None)
    return ref


def run(case, ctx):
    if "f" in case:
        return run_float(case, ctx)
    names = GROUPS.get(case["g"]) or CROSS[case["g"]]
    caps = [CAPS[v] for v in names]
    base = Common(caps)
    ref = build(case, caps, base)
    got = []
    for cap in caps:
        with scratch() as d:
            path = cap.path(d)
            w = observe(cap.write, path, ref.mesh())
            r = None
            if w.exc is None:
                r = observe(cap.read, path)
            ctx.event("encodings_written")
            if w.exc is not None or r.exc is not None:
                ctx.viol("encoding-failed", f"{cap.name}: {exc_str(w.exc or r.exc)} for {ref.describe()}",
                         where=cap.name)
                continue
            narrow(ref, r.value)
            if case["g"] == "gmsh-versions":
                # untagged cells get version-specific default entities, 4.x names sets
                for k in [k for k in r.value.cell_data if k.startswith("gmsh:")]:
                    del r.value.cell_data[k]
                r.value.point_data.pop("gmsh:dim_tags", None)
                r.value.cell_sets = {}
            got.append((cap, r.value))
    for i in range(1, len(got)):
        (a, ma), (b, mb) = got[0], got[i]
        ctx.event("pairs_compared")
        ctx.mark("formats", case["g"])
        ctx.obs(case["g"], b.name, case["s"])
        for mech, msg in agree(from_mesh(ma), mb, Pair(base, a, b)):
            ctx.viol("encodings-differ:" + mech, f"{a.name} against {b.name}: {msg} | {ref.describe()}",
                     where=f"{a.name}/{b.name}")
    if got:
        ctx.sample(format=case["g"], encodings=[c.name for c, _ in got], mesh=ref.describe())


def run_float(case, ctx):
    cap = CAPS[case["f"]]
    fmt, tol = FMTS[case["fmt"]]
    base = Common([cap])
    ref = build(case, [cap], base)
    got = []
    for over in ({}, {"float_fmt": fmt}):
        with scratch() as d:
            path = cap.path(d)
            w = observe(cap.write, path, ref.mesh(), **over)
            r = observe(cap.read, path) if w.exc is None else None
            if w.exc is not None or r.exc is not None:
                ctx.viol("encoding-failed", f"{cap.name} {over}: {exc_str(w.exc or r.exc)} for "
                         f"{ref.describe()}", where=cap.name)
                return
            narrow(ref, r.value)
            got.append(r.value)
    pair = Pair(base, cap, cap)
    if tol is None:
        pair.ptol, pair.patol = 0.0, 0.6e-5
    else:
        pair.ptol = tol
    if ref.points.dtype.itemsize == 4:  # rounded once more to single precision
        pair.ptol += 1.2e-7
    ma, mb = got
    ra = from_mesh(ma)
    if cap.group == "flac3d":
        # orientation of (nearly) flat zones is decided from rounded coordinates
        pass
    ctx.event("float_fmt_compared")
    ctx.obs("float", cap.name, fmt, case["s"])
    for mech, msg in agree(ra, mb, pair):
        ctx.viol("float-fmt:" + mech, f"{cap.name} float_fmt={fmt}: {msg} | {ref.describe()}",
                 where=cap.name)
    # and the option is honoured: more digits never give a worse result than asked for
    p = oracle.expect_points(ref, cap)
    q = np.asarray(mb.points)
    if p.shape == q.shape and not oracle.close(p, q, pair.ptol, pair.patol):
        ctx.viol("float-fmt-precision", f"{cap.name} float_fmt={fmt}: coordinates are less accurate "
                 f"than the format asks for", where=cap.name)
