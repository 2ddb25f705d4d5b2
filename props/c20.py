"""C20: every representable number survives unchanged."""
import numpy as np

from vlib import gen, oracle
from vlib.caps import CAPS
from vlib.env import exc_str, observe, scratch
from vlib.ref import NN, Ref, tdim
from vlib.rt import ref_of, rng_of, write_read

ID = "C20"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: bit-level comparison of extreme values after a round trip"
RULE = ("coordinates, data values and references drawn from a pool of boundary values (signed "
        "zero, subnormals, smallest/largest normals, powers of two and ten, values needing 17 "
        "digits, infinities and NaN in data, limits of every integer type) and from random bit "
        "patterns, plus connectivity at the largest index each narrow integer type holds, "
        "through every encoding; non-trivial: at least one value was compared bit for bit (or "
        "to the declared text precision); distinct by variant, kind of value, dtype and shape")
ASSUMPTIONS = [
    "precision of an encoding is the capability table vlib/caps.py; formats storing 4-byte "
    "reals are fed values of that range; Nastran fields (12 significant digits) below 1e300",
    "Gmsh, AVS-UCD, Tecplot data and Medit ASCII, TetGen references are reals by definition of "
    "the format: integers beyond 2^53 are out of scope there",
]
REQUIRE = {"quick": {"values_compared": 100000, "variants": 70, "index_limits": 60,
                     "tags_checked": 200, "specials": 5000}}
CPU = 60

TINY = np.finfo("f8").tiny
MAX = np.finfo("f8").max
POOL = np.array([
    0.0, -0.0, 5e-324, -5e-324, 3.5e-310, TINY, -TINY, np.nextafter(TINY, 0), 1e-300, -1e-300,
    1e-100, 1e-99, 1e-20, 1e-10, 1e-5, -1e-5, 1e-4, 9.999999999999999e-5, 0.1, -0.1, 0.3,
    1 / 3, 2 / 3, np.pi, np.e, 0.1 + 0.2, 1 - 2**-53, 1.0, -1.0, 1 + 2**-52, 9.999999999999998,
    10.0, 12345678.9, 123456789.0, 1e15 + 0.3, 9007199254740991.0, 9007199254740993.0, 1e16,
    1.2345678901234567e17, 1e21, -1e22, 1e22, 123456789012345678901234567890.0, 1e99, -1e99,
    1e100, 1e101, 1.7976931348623155e300, 1e300, -1e300])
HUGE = np.array([1e308, MAX, -MAX, np.nextafter(MAX, 0)])
POOL4 = np.array([0.0, -0.0, 1e-45, -1e-45, 1e-40, np.finfo("f4").tiny, 1e-30, 1e-10, 0.1, -0.1,
                  1 / 3, 1.0, -1.0, 1 + 2**-23, 16777216.0, 16777215.0, 123456.79, 1e10, -1e30,
                  np.finfo("f4").max, -np.finfo("f4").max], dtype="f4")


def single(cap):
    """Encodings whose reals have four bytes."""
    return cap.ptol == 6e-8


def reals(rng, n, dt, cap=None, special=False, points=False):
    """n reals: pool values, random bit patterns, random decimal magnitudes."""
    f4 = np.dtype(dt).itemsize == 4 or (points and cap is not None and single(cap))
    lim = None
    if points and cap is not None and cap.group == "nastran":
        lim = 1e300
    pool = POOL4.astype("f8") if f4 else (POOL if lim else np.concatenate([POOL, HUGE]))
    k = rng.integers(0, 4, n)
    with np.errstate(all="ignore"):
        if f4:
            bits = rng.integers(0, 2**32, n, dtype="u8").astype("u4").view("f4").astype("f8")
            mag = (rng.normal(size=n) * 10.0 ** rng.integers(-37, 37, n)).astype("f4").astype("f8")
        else:
            bits = rng.integers(0, 2**64 - 1, n, dtype="u8", endpoint=True).view("f8")
            mag = rng.normal(size=n) * 10.0 ** rng.integers(-307, 307, n)
        nrm = rng.normal(size=n)
    v = np.choose(k, [rng.choice(pool, n), bits, mag, nrm])
    v[~np.isfinite(v)] = 0.125
    if lim is not None:
        v[np.abs(v) > lim] = -0.75
        v[(np.abs(v) < 1e-290) & (v != 0)] = 1e-290
    if f4 and np.dtype(dt).itemsize == 8:
        v = v.astype("f4").astype("f8")
    if special:
        for s in (np.nan, np.inf, -np.inf):
            if n and rng.random() < 0.7:
                v[int(rng.integers(0, n))] = s
    return v.astype(dt)


def ints(rng, n, dt, cap):
    ii = np.iinfo(dt)
    lo, hi = ii.min, ii.max
    if cap.group.startswith("gmsh") or cap.group in ("avsucd", "tecplot"):
        lo, hi = max(lo, -(2**53)), min(hi, 2**53)
    pool = [lo, lo + 1, hi, hi - 1, 0, 1, hi // 2]
    if lo < 0:
        pool += [-1]
    for p in (24, 31, 32, 53, 63):
        for o in (-1, 0, 1):
            for sg in (1, -1):
                if lo <= sg * (2**p + o) <= hi:
                    pool.append(sg * (2**p + o))
    out = [pool[int(rng.integers(0, len(pool)))] if rng.random() < 0.6 else
           int(rng.integers(max(lo, -(2**63)), min(hi, 2**63 - 1), endpoint=True)) for _ in range(n)]
    return np.array(out, dtype=dt)


def values(rng, shape, dt, cap, special):
    n = int(np.prod(shape))
    dt = np.dtype(dt)
    v = reals(rng, n, dt, cap, special) if dt.kind == "f" else ints(rng, n, dt, cap)
    return v.reshape(shape)


def same(exp, got, tol, ctx):
    """Message when got is not exp."""
    exp = np.asarray(exp)
    got = np.asarray(got)
    if exp.ndim == 2 and exp.shape[1] == 1 and got.ndim == 1:
        exp = exp[:, 0]
    if exp.shape != got.shape:
        return f"shape {exp.shape} came back as {got.shape}"
    ctx.event("values_compared", exp.size)
    for a, b in zip(exp.ravel().tolist(), got.ravel().tolist()):
        if isinstance(a, int):
            # exact integers, also when they come back as floats
            if b != b or b in (float("inf"), -float("inf")) or int(b) != a:
                return f"integer {a} came back as {b!r}"
            continue
        if a != a:
            ok = b != b
        elif a in (float("inf"), -float("inf")) or a == 0.0:
            ok = a == b
        elif tol == 0:
            ok = a == b
            if not ok and exp.dtype.itemsize == 4:
                ok = np.float32(b) == np.float32(a)  # short text of a 4-byte value
        else:
            ok = abs(b - a) <= tol * abs(a) + 5e-324
            if single_floor(exp, a):
                ok = ok or abs(b - a) <= 1.5e-45
        if not ok:
            return f"{a!r} came back as {b!r}"
        if a == 0.0:
            ctx.event("specials")
            if np.signbit(a) != np.signbit(b):
                return f"{a!r} came back as {b!r} (sign of zero)"
        elif a != a or abs(a) < TINY or abs(a) >= 1e300:
            ctx.event("specials")
    return None


def kindsize(a):
    a = np.asarray(a)
    return a.dtype.kind, a.dtype.itemsize


def single_floor(exp, a):
    return abs(a) < 1.2e-38


def cases(tier, seed):
    out = []
    n = 20 if tier == "quick" else 150
    for v, cap in CAPS.items():
        for i in range(n):
            if cap.coord_style is None:  # small-field Nastran is a precision of its own
                out.append({"k": "points", "v": v, "s": seed * 1000 + i})
        for which, kinds in (("p", cap.pd_kinds), ("c", cap.cd_kinds)):
            for kind, dts in kinds:
                for dt in dts:
                    for i in range(3 if tier == "quick" else 12):
                        out.append({"k": "data", "v": v, "s": seed * 1000 + i, "which": which,
                                    "kind": kind, "dt": dt})
        if not (cap.coord_style or cap.soup and False):
            for dt in ("i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8"):
                if dt in ("i2", "u2") and tier == "quick" and v not in BIGIDX:
                    continue
                out.append({"k": "index", "v": v, "s": seed, "dt": dt})
    for g in TAGS:
        for i in range(14 if tier == "quick" else 60):
            for v in TAGS[g]["variants"]:
                out.append({"k": "tags", "v": v, "s": seed * 1000 + i})
    for i in range(12 if tier == "quick" else 400):
        out.append({"k": "nastran-small", "v": "nastran-fixed-small-free", "s": seed * 1000 + i})
    return out


# one encoding of every group gets the 16-bit limits on the quick tier
BIGIDX = set()
_seen = set()
for _v, _c in CAPS.items():
    if _c.group not in _seen and not _c.heavy:
        _seen.add(_c.group)
        BIGIDX.add(_v)

NARROW_OK = {"u8": set(CAPS) - {"netgen.vol", "netgen.vol.gz"}}


def run(case, ctx):
    globals()["run_" + case["k"].replace("-", "_")](case, ctx)


def run_points(case, ctx):
    cap = CAPS[case["v"]]
    rng = rng_of("C20p", case["v"], case["s"])
    ref = gen.gen(rng, cap, size="small", data=False)
    dt = ref.points.dtype
    shp = ref.points.shape
    if cap.mirror:
        return mirror_points(cap, rng, ref, ctx)
    ref.points = reals(rng, shp[0] * shp[1], dt, cap, points=True).reshape(shp)
    with scratch() as d:
        m = write_read(ctx, cap, ref, d)
        if m is None:
            return
        if cap.soup:
            tri = np.concatenate([c for _, c in ref.cells])
            exp = oracle.expect_points(ref, cap)[tri]
            gt = [np.asarray(c.data) for c in m.cells]
            got = np.asarray(m.points)[np.concatenate(gt)] if gt else np.zeros((0, 3, 3))
            if cap.group in ("stl", "wkt"):
                # equal vertices are merged: the sign of zero is that of any of them
                exp = exp + 0.0
                got = got + 0.0
        else:
            exp, got = oracle.expect_points(ref, cap), np.asarray(m.points)
        tol = cap.ptol
        msg = same(exp, got, 0 if single(cap) else tol, ctx)
        if msg:
            ctx.viol("coordinate", f"{cap.name}: {msg}", where=cap.name)
        if cap.pdt_out == "same" and kindsize(got) != kindsize(ref.points):
            ctx.viol("coordinate-dtype", f"{cap.name}: {dt} came back as {got.dtype}", where=cap.name)
    ctx.mark("variants", cap.name)
    ctx.obs("points", cap.name, str(dt), shp)
    ctx.sample(variant=cap.name, coordinates=[float(x) for x in ref.points.ravel()[:6]])


def mirror_points(cap, rng, ref, ctx):
    """FLAC3D computes orientations: only the coordinates are compared."""
    shp = ref.points.shape
    ref.points = reals(rng, shp[0] * shp[1], "f8", cap).reshape(shp)
    with scratch() as d:
        m = write_read(ctx, cap, ref, d)
        if m is None:
            return
        msg = same(ref.points, m.points, cap.ptol, ctx)
        if msg:
            ctx.viol("coordinate", f"{cap.name}: {msg}", where=cap.name)
    ctx.mark("variants", cap.name)
    ctx.obs("points", cap.name, shp)


def run_data(case, ctx):
    cap = CAPS[case["v"]]
    rng = rng_of("C20d", case["v"], case["s"], case["which"], case["kind"], case["dt"])
    ref = gen.gen(rng, cap, size="small", data=False)
    dt = case["dt"]
    special = np.dtype(dt).kind == "f"
    if case["which"] == "p":
        ref.point_data["q"] = values(rng, gen.shape_of(case["kind"], len(ref.points)), dt, cap,
                                     special)
    else:
        ref.cell_data["q"] = [values(rng, gen.shape_of(case["kind"], len(c)), dt, cap, special)
                              for _, c in ref.cells]
    with scratch() as d:
        m = write_read(ctx, cap, ref, d)
        if m is None:
            return
        tol = cap.dtol
        if case["which"] == "p":
            if "q" not in m.point_data:
                ctx.viol("value", f"{cap.name}: point data lost", where=cap.name)
                return
            pairs = [(ref.point_data["q"], m.point_data["q"])]
        else:
            perm = oracle.block_perm(ref, m, cap)
            if perm is None or "q" not in m.cell_data:
                ctx.viol("value", f"{cap.name}: cells or cell data lost", where=cap.name)
                return
            pairs = [(np.concatenate([ref.cell_data["q"][i] for i in a]),
                      np.concatenate([np.asarray(m.cell_data["q"][i]) for i in b]))
                     for a, b in perm]
        for exp, got in pairs:
            msg = same(exp, got, tol, ctx)
            if msg:
                ctx.viol("value", f"{cap.name}: {case['which']} {dt} {case['kind']}: {msg}",
                         where=cap.name)
            if cap.data_dtype == "same" and exp.size and kindsize(got) != kindsize(exp):
                ctx.viol("value-dtype", f"{cap.name}: {exp.dtype} came back as {got.dtype}",
                         where=cap.name)
    ctx.mark("variants", cap.name)
    ctx.obs("data", cap.name, case["which"], case["kind"], dt, case["s"])


def run_index(case, ctx):
    """Cells whose largest index is the largest the integer type can hold (where a mesh of
    that many points is feasible)."""
    cap = CAPS[case["v"]]
    dt = np.dtype(case["dt"])
    if dt.str[1:] == "u8" and cap.group == "netgen":
        return  # Netgen refuses u8 connectivity
    rng = rng_of("C20i", case["v"], case["s"], case["dt"])
    npt = min(np.iinfo(dt).max + 1, 400)
    if dt.itemsize == 2:
        npt = np.iinfo(dt).max + 1
    t = str(rng.choice([t for t in cap.types if t != "polygon"]))
    dim = 3 if 3 in cap.dims else 2
    pts = np.column_stack([np.arange(npt) * 0.5, rng.random(npt), rng.random(npt)][:dim])
    if cap.mirror:
        t = "triangle"
    c = gen.conn(rng, NN[t], 5, npt)
    for r in range(5):
        if npt - 1 not in c[r]:
            c[r, int(rng.integers(0, NN[t]))] = npt - 1
    ref = Ref(pts, [(t, c.astype(dt))])
    with scratch() as d:
        m = write_read(ctx, cap, ref, d)
        if m is None:
            return
        for mech, msg in oracle.cmp_geometry(ref, m, cap):
            ctx.viol("index-" + mech, f"{cap.name} {dt} indices up to {npt - 1}: {msg}",
                     where=cap.name)
    ctx.event("index_limits")
    ctx.event("values_compared", c.size)
    ctx.obs("index", cap.name, case["dt"], t)


# -- reference tags at the limits of the stored integers ---------------------------------
def _both(a, b):
    return lambda n, x: {a: x, b: x}


TAGS = {
    "gmsh": {"variants": ["gmsh22-a", "gmsh22-b", "gmsh41-a", "gmsh41-b"],
             "cd": ["gmsh:physical", "gmsh:geometrical"], "uniform": True},
    "medit": {"variants": ["medit-a", "medit-b"], "cd": ["medit:ref"], "pd": ["medit:ref"]},
    "nastran": {"variants": [f"nastran-{p}-{c}" for p in ("free", "fixed-large")
                             for c in ("free", "fixed-small", "fixed-large")],
                "cd": ["nastran:ref"], "pd": ["nastran:ref"]},
    "su2": {"variants": ["su2"], "cd": ["su2:tag"], "boundary": True},
    "ugrid": {"variants": [v for v in CAPS if v.startswith("ugrid")], "cd": ["ugrid:ref"],
              "boundary": True},
    "tetgen": {"variants": ["tetgen.node"], "cd": ["tetgen:ref"], "pd": ["tetgen:ref"]},
    "avsucd": {"variants": ["avsucd"], "cd": ["avsucd:material"]},
    "netgen": {"variants": ["netgen.vol"], "cd": ["netgen:index"]},
}


def run_tags(case, ctx):
    cap = CAPS[case["v"]]
    spec = TAGS[cap.group if not cap.group.startswith("gmsh") else "gmsh"]
    rng = rng_of("C20t", case["v"], case["s"])
    if cap.group == "su2":
        ref = gen.gen(rng, cap, size="small", data=False, dim=3,
                      blocks=[["tetra", 3], ["triangle", 4]])
    elif cap.group == "ugrid":
        ref = gen.gen(rng, cap, size="small", data=False,
                      blocks=[["tetra", 3], ["triangle", 4], ["quad", 2]])
    elif cap.group == "netgen":
        ref = gen.gen(rng, cap, size="small", data=False, blocks=[["triangle", 4]])
    elif cap.group.startswith("gmsh"):
        ref = gen.gen(rng, cap, size="small", data=False,
                      blocks=[[str(rng.choice(["triangle", "tetra", "line"])), 4]])
    else:
        ref = gen.gen(rng, cap, size="small", data=False)
    pool = [1, 2**31 - 1, 2**31 - 2, 2**24 + 1, 99999999, 100000000, 10**7, 2**31, 2**32 + 5,
            2**40, 9999999999, 2**53 - 1, 65536, 32768]
    if spec.get("small"):
        pool = [1, 2, 255, 256, 300, 1000]
    if cap.group not in ("gmsh22", "gmsh41"):
        pool += [0]
    if cap.group in ("medit", "avsucd", "ugrid", "su2", "tetgen"):
        pool += [-1, -(2**31), -5]
    if case["s"] % 2 == 0:
        pool = [p for p in pool if -(2**31) <= p < 2**31]
    elif case["s"] % 3 == 1:
        pool = [p for p in pool if abs(p) < 10**8]

    def draw(n):
        x = rng.choice(np.array(pool, dtype="i8"), n)
        if cap.group == "gmsh41":
            x[:] = x[0]  # one entity per block
        return x
    for nm in spec["cd"]:
        ref.cell_data[nm] = [draw(len(c)) for _, c in ref.cells]
    if cap.group == "gmsh41":
        t = ref.cells[0][0]
        ref.point_data["gmsh:dim_tags"] = np.column_stack(
            [np.full(len(ref.points), tdim(t)),
             np.full(len(ref.points), ref.cell_data["gmsh:geometrical"][0][0])])
    for nm in spec.get("pd", []):
        ref.point_data[nm] = draw(len(ref.points))
    if cap.group in ("ugrid", "su2"):
        for nm in spec["cd"]:
            ref.cell_data[nm][0][:] = 0  # volume cells carry no tag
    with scratch() as d:
        w = observe(cap.write, cap.path(d), ref.mesh())
        if w.exc is not None:
            small = all(abs(int(x)) < 10**7 for n in spec["cd"] for a in ref.cell_data[n] for x in a)
            if small:
                ctx.viol("tags-write", f"{cap.name}: write raised {exc_str(w.exc)}", where=cap.name)
            ctx.event("tags_refused")
            ctx.event("tags_checked")
            return
        r = observe(cap.read, cap.path(d))
        if r.exc is not None:
            ctx.viol("tags-read", f"{cap.name}: {exc_str(r.exc)}", where=cap.name)
            return
        m = r.value
        ctx.event("tags_checked")
        for nm in spec.get("pd", []):
            if nm not in m.point_data:
                ctx.viol("tags-lost", f"{cap.name}: {nm} on points", where=cap.name)
                continue
            msg = same(ref.point_data[nm], m.point_data[nm], 0, ctx)
            if msg:
                ctx.viol("tags-value", f"{cap.name}: point {nm}: {msg}", where=cap.name)
        perm = oracle.block_perm(ref, m, cap)
        for nm in spec["cd"]:
            if nm not in m.cell_data:
                ctx.viol("tags-lost", f"{cap.name}: {nm} on cells", where=cap.name)
                continue
            exp = sorted(int(x) for a in ref.cell_data[nm] for x in a)
            got = sorted(int(x) for a in m.cell_data[nm] for x in np.asarray(a))
            ctx.event("values_compared", len(exp))
            if exp != got:
                bad = [x for x in got if x not in exp][:3]
                ctx.viol("tags-value", f"{cap.name}: cell {nm}: {exp[:6]} came back as {got[:6]} "
                                       f"(new values {bad})", where=cap.name)
    ctx.obs("tags", cap.name, case["s"])


def run_nastran_small(case, ctx):
    """Eight-column Nastran reals: every magnitude keeps the digits the field has room for."""
    cap = CAPS[case["v"]]
    rng = rng_of("C20n", case["s"])
    n = 60
    pts = (rng.normal(size=(n, 3)) * 10.0 ** rng.integers(-30, 31, (n, 3)))
    pts[0] = [0.0, -0.0, 1.0]
    ref = Ref(pts, [("triangle", gen.conn(rng, 3, 4, n))])
    with scratch() as d:
        m = write_read(ctx, cap, ref, d)
        if m is None:
            return
        got = np.asarray(m.points)
        err = np.abs(got - pts) / np.where(pts == 0, 1, np.abs(pts))
        # "-1.2E-10": sign, point and exponent leave two digits of the eight columns
        if got.shape != pts.shape or err.max() > 6e-2:
            i = np.unravel_index(int(np.argmax(err)), err.shape)
            ctx.viol("nastran-small", f"{pts[i]!r} came back as {got[i]!r}", where=cap.name)
    ctx.event("values_compared", n * 3)
    ctx.obs("nastran-small", case["s"])
