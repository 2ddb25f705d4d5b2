"""C10: damaged or foreign input ends in an error or a consistent mesh."""
import copy
import os
import resource
import signal

import numpy as np

from vlib import gen, mutate, oracle, tags
from vlib.caps import CAPS
from vlib.enc import FORMATS, R
from vlib.env import exc_str, meshio, observe, scratch
from vlib.rt import rng_of
from vlib.runner import Hang

ID = "C10"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: fuzzing of the real readers under CPU, memory and crash monitors"
RULE = ("files written in all 77 format/encoding variants with data, tags and sets, and files written "
        "by the independent encoders of C07 (34 formats) with the liberties other programs take, then damaged "
        "(truncated at every/sampled offset, bits, bytes, lines, numbers, fields, splices with other "
        "formats; structural damage inside HDF5 containers; garbage) and read under a CPU budget "
        "and an address-space limit; an exception or a mesh with matching data must result; "
        "non-trivial: a damaged file was read; distinct by variant, damage and outcome")
ASSUMPTIONS = [
    "2 CPU seconds per kilobyte-sized file count as not terminating",
    "MemoryError under a 3 GB address-space limit counts as an exception",
    "raw bit damage inside HDF5/netCDF containers is left to those libraries; "
    "meshio's readers see truncated containers and structurally changed ones",
]
REQUIRE = {"quick": {"reads": 60000, "raised": 20000, "returned": 8000, "variants": 77, "foreign_formats": 30, "truncations": 10000}}
CPU = 120
BUDGET = 6.0

HDF = {"cgns", "h5m", "hmf", "med", "exodus"}
FMTS = None


def cases(tier, seed):
    out = []
    reps = 14 if tier == "quick" else 200
    for v, cap in CAPS.items():
        hdf = cap.group in HDF or v.startswith("xdmf-hdf")
        for i in range(reps):
            s = seed * 1000 + i
            if not hdf or v.startswith("xdmf-hdf"):
                out.append({"k": "bytes", "v": v, "s": s, "n": 80 if tier == "quick" else 150})
            if hdf:
                out.append({"k": "hdf", "v": v, "s": s, "n": 12 if tier == "quick" else 40})
            if i < max(1, reps // 3):
                out.append({"k": "trunc", "v": v, "s": s,
                            "n": (12 if hdf else 60) if tier == "quick" else (60 if hdf else 400)})
    for f in FORMATS:
        if FORMATS[f]["cap"].split("-")[0] in HDF:
            continue
        for i in range(5 if tier == "quick" else 100):
            s = seed * 1000 + i
            out.append({"k": "bytes", "v": FORMATS[f]["cap"], "fo": f, "s": s, "n": 60 if tier == "quick" else 120})
            out.append({"k": "trunc", "v": FORMATS[f]["cap"], "fo": f, "s": s, "n": 60 if tier == "quick" else 300})
    for f in sorted(meshio._helpers.reader_map):
        for i in range(6 if tier == "quick" else 60):
            out.append({"k": "garbage", "f": f, "s": seed * 1000 + i, "n": 30})
    return out


_limited = False


def limit():
    global _limited
    if not _limited:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        _limited = True


def make(case, d, stem="m"):
    """A valid file to damage: (cap, path)."""
    if "fo" in case:
        return foreign(case, d, stem)
    cap = CAPS[case["v"]]
    rng = rng_of("c10", cap.name, case["s"])
    size = ["tiny", "small"][case["s"] % 2]
    ref = gen.gen(rng, cap, size=size, data=True)
    w = observe(lambda: None)
    path = cap.path(d, stem)
    if cap.group in tags.ADD and case["s"] % 4 != 3:
        r2 = ref.copy()
        try:
            if cap.group != "gmsh41":
                tags.ADD[cap.group](rng, cap, r2)
            r2.extra.pop("skip", None)
            w = observe(cap.write, path, r2.mesh())
            if w.exc is None:
                return cap, path, rng
        except Exception:
            pass
    w = observe(cap.write, path, ref.mesh())
    if w.exc is not None:
        return cap, None, rng
    return cap, path, rng


def foreign(case, d, stem):
    """A valid file as another program may write it."""
    spec = FORMATS[case["fo"]]
    cap = copy.copy(CAPS[spec["cap"]])
    for k, x in spec.get("over", {}).items():
        setattr(cap, k, x)
    rng = rng_of("c10f", case["fo"], case["s"])
    ref = gen.gen(rng, cap, size=["tiny", "small"][case["s"] % 2], data=bool(cap.pd_kinds or cap.cd_kinds))
    path = cap.path(d, stem)
    return cap, spec["enc"](R(rng), path, ref, cap) or path, rng


def read_damaged(ctx, read, what, where):
    """Read under the monitors; classify."""
    signal.setitimer(signal.ITIMER_PROF, BUDGET)
    try:
        o = observe(read)
    except Hang:
        ctx.viol("hang", f"{where}: reading did not end within {BUDGET:.0f} s of CPU time: {what}", where=where)
        ctx.event("hangs")
        return "hang"
    finally:
        signal.setitimer(signal.ITIMER_PROF, CPU)
    ctx.event("reads")
    if o.exc is not None:
        ctx.event("raised")
        ctx.mark("exception_types", type(o.exc).__name__)
        if isinstance(o.exc, SystemExit):
            ctx.viol("exit", f"{where}: the interpreter was asked to exit: {what}", where=where)
        return "raised " + type(o.exc).__name__
    ctx.event("returned")
    m = o.value
    if not isinstance(m, meshio.Mesh):
        ctx.viol("no-mesh", f"{where}: returned {type(m).__name__}: {what}", where=where)
        return "no mesh"
    bad = mismatch(m)
    if bad:
        ctx.viol("data-mismatch", f"{where}: {bad}: {what}", where=where)
    return "mesh"


def mismatch(m):
    for n, a in m.point_data.items():
        if np.ndim(a) == 0 or len(a) != len(m.points):
            return f"point data {n!r} of shape {np.shape(a)} for {len(m.points)} points"
    for n, l in m.cell_data.items():
        if len(l) != len(m.cells):
            return f"cell data {n!r}: {len(l)} arrays for {len(m.cells)} blocks"
        for k, (a, c) in enumerate(zip(l, m.cells)):
            if np.ndim(a) == 0 or len(a) != len(c.data):
                return f"cell data {n!r} block {k} of shape {np.shape(a)} for {len(c.data)} cells"
    return None


def run(case, ctx):
    limit()
    with scratch() as d:
        globals()["run_" + case["k"]](case, ctx, d)


def companions(d, path):
    return sorted(f for f in os.listdir(d) if os.path.join(d, f) != path and os.path.isfile(os.path.join(d, f)))


def run_bytes(case, ctx, d):
    cap, path, rng = make(case, d)
    if path is None:
        return
    good = open(path, "rb").read()
    target = path
    comp = companions(d, path)
    other = good
    with scratch() as d2:
        ov = sorted(CAPS)[int(rng.integers(0, len(CAPS)))]
        c2, p2, _ = make({"v": ov, "s": case["s"]}, d2)
        if p2:
            other = open(p2, "rb").read()
    ctx.mark("variants", cap.name)
    if "fo" in case:
        ctx.mark("foreign_formats", case["fo"])
    for i in range(case["n"]):
        tgt, g = target, good
        if comp and rng.random() < 0.4 and not cap.name.startswith("xdmf-hdf"):
            tgt = os.path.join(d, comp[int(rng.integers(0, len(comp)))])
            g = open(tgt, "rb").read()
        kind = mutate.KINDS[int(rng.integers(0, len(mutate.KINDS)))]
        gz = tgt.endswith(".gz")
        if gz and rng.random() < 0.8:
            import gzip
            b, what = mutate.mutate(rng, gzip.decompress(g), kind, other)
            b = gzip.compress(b, 1)
        else:
            b, what = mutate.mutate(rng, g, kind, other)
        if rng.random() < 0.15 and not gz:
            b, w2 = mutate.mutate(rng, b, "token" if rng.random() < 0.5 else "line-del", other)
            what += " + " + w2
        with open(tgt, "wb") as f:
            f.write(b)
        res = read_damaged(ctx, lambda: cap.read(path), f"#{i} {os.path.basename(tgt)} {what}", cap.name)
        ctx.obs(cap.name, case["s"], i)
        ctx.mark("damage_x_outcome", (cap.group, kind, res))
        with open(tgt, "wb") as f:
            f.write(g)
        if res == "hang":
            break


def run_trunc(case, ctx, d):
    cap, path, rng = make(case, d)
    if path is None:
        return
    comp = [path] + ([os.path.join(d, c) for c in companions(d, path)])
    for tgt in comp:
        good = open(tgt, "rb").read()
        n = len(good)
        ks = range(n) if n <= case["n"] else sorted({0, 1, n - 1, n - 2} | set(
            rng.integers(0, n, case["n"] // len(comp)).tolist()))
        # line ends are where readers look for the next thing
        nl = [i + 1 for i in range(n) if good[i:i + 1] == b"\n"]
        if len(nl) > 1:
            ks = sorted(set(ks) | {nl[int(i)] for i in rng.integers(0, len(nl), case["n"] // 4)})
        for k in ks:
            with open(tgt, "wb") as f:
                f.write(good[:k])
            res = read_damaged(ctx, lambda: cap.read(path), f"{os.path.basename(tgt)} truncated to {k}/{n}",
                               cap.name)
            ctx.event("truncations")
            ctx.obs(cap.name, case["s"], "t", k)
            ctx.mark("damage_x_outcome", (cap.group, "trunc", res))
            if res == "hang":
                break
        with open(tgt, "wb") as f:
            f.write(good)


def run_hdf(case, ctx, d):
    import h5py
    cap, path, rng = make(case, d)
    if path is None:
        return
    ctx.mark("variants", cap.name)
    tgt = path
    if cap.name.startswith("xdmf-hdf"):
        tgt = path.replace(".xdmf", ".h5")
    good = open(tgt, "rb").read()
    for i in range(case["n"]):
        what = None
        with open(tgt, "wb") as f:
            f.write(good)
        try:
            with h5py.File(tgt, "r+") as h:
                items = []
                h.visititems(lambda n, o: items.append(n))
                # netCDF's own bookkeeping is not meshio's to check
                items = [n for n in items if cap.group != "exodus" or isinstance(h[n], h5py.Dataset)]
                what = damage(rng, h, items, cap.group == "exodus")
        except (KeyError, ValueError, TypeError, RuntimeError, OSError) as e:
            ctx.event("damage_failed")
            continue
        res = read_damaged(ctx, lambda: cap.read(path), f"#{i} {what}", cap.name)
        ctx.obs(cap.name, case["s"], "h", i)
        ctx.mark("damage_x_outcome", (cap.group, what.split()[0], res))
        if res == "hang":
            break
    with open(tgt, "wb") as f:
        f.write(good)


def damage(rng, h, items, nc):
    import h5py
    n = items[int(rng.integers(0, len(items)))]
    o = h[n]
    kind = int(rng.integers(0, 6)) if not nc else 2
    if kind == 0 or (kind == 5 and isinstance(o, h5py.Group)):
        del h[n]
        return f"deleted {n}"
    if kind == 1 and len(o.attrs):
        a = list(o.attrs)[int(rng.integers(0, len(o.attrs)))]
        if rng.random() < 0.5:
            del o.attrs[a]
            return f"attr-deleted {n}@{a}"
        o.attrs[a] = [0, -1, 10**9, "junk", np.zeros(3)][int(rng.integers(0, 5))]
        return f"attr-changed {n}@{a}"
    if isinstance(o, h5py.Group):
        h.move(n, n + "_x")
        return f"renamed {n}"
    v = o[()]
    if kind == 2 and isinstance(v, np.ndarray) and v.dtype.kind in "iuf" and v.size:
        w = v.copy().ravel()
        w[int(rng.integers(0, w.size))] = [0, 1, 100, 7][int(rng.integers(0, 4))] if w.dtype.kind == "u" else [
            -1, 0, 10**6, 77][int(rng.integers(0, 4))]
        o[()] = w.reshape(v.shape)
        return f"value {n}"
    if not isinstance(v, np.ndarray) or nc:
        return f"nothing {n}"
    attrs = dict(o.attrs)
    del h[n]
    if kind == 3:
        h[n] = v[: max(0, len(v) - 1 - int(rng.integers(0, 3)))]
    elif kind == 4:
        h[n] = v.ravel() if v.ndim > 1 else np.repeat(v[:, None], 2, axis=1)
    else:
        h[n] = v.astype("f4") if v.dtype.kind in "iu" else (v.astype("i4") if v.dtype.kind == "f" else v)
    for k, a in attrs.items():
        try:
            h[n].attrs[k] = a
        except Exception:
            pass
    return f"reshaped{kind} {n}"


GARB = [b"", b"\n", b"\n" * 50, b" ", b"\x00" * 200, b"\xff" * 200, b"0\n", b"1\n1\n1\n", b"#\n", b"<", b"<?xml version='1.0'?>",
        b"<a/>", b"<VTKFile/>", b"<VTKFile type='UnstructuredGrid'/>", b"<Xdmf/>", b"<Xdmf Version='3.0'/>",
        b"<Xdmf><Domain/></Xdmf>", b"<dolfin/>", b"$MeshFormat\n", b"$MeshFormat\n4.1 0 8\n$EndMeshFormat\n",
        b"$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n", b"$Comments\n", b"*NODE\n", b"*ELEMENT\n", b"*INCLUDE\n",
        b"*HEADING", b"(", b"((((", b"(2 3)\n(10 (", b"(10 (0 1 5 0))", b"ply\n", b"ply\nformat ascii 1.0\n",
        b"ply\nformat ascii 1.0\nelement vertex 3\nend_header\n", b"OFF\n", b"OFF", b"OFF\n3 1 0\n", b"solid\n", b"solid x\nendsolid",
        b"NDIME= 2\n", b"NDIME=\n", b"NELEM= 5\n", b"MeshVersionFormatted 2\n", b"MeshVersionFormatted",
        b"Dimension", b"Dimension\n3\nVertices\n5\n", b"v\n", b"v 1\nf 1 2 3\n", b"f\n", b"TITLE\n", b"VARIABLES = \"X\"",
        b"ZONE", b"ZONE N=3, E=1, F=FEPOINT, ET=TRIANGLE\n", b"TIN", b"TIN ((", b"BEGIN BULK\n", b"BEGIN BULK\nGRID", b"GRID",
        b"CTRIA3,1,1\n", b"mesh3d\n", b"dimension\n3\n", b"mesh3d\npoints\n", b"points\n4\n", b"surfaceelements\n",
        b"Begin Nodes\n", b"Begin", b"Begin Elements Element2D3N\n", b"# vtk DataFile Version 4.2\n",
        b"# vtk DataFile Version 4.2\nx\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS 5 double\n",
        b"# vtk DataFile Version 5.1\nx\nBINARY\nDATASET UNSTRUCTURED_GRID\nPOINTS 5 double\n",
        b"# vtk DataFile Version 3.0\nx\nASCII\nDATASET STRUCTURED_POINTS\n",
        b"# vtk DataFile Version 3.0\nx\nASCII\nDATASET STRUCTURED_POINTS\nDIMENSIONS 0 0 0\nORIGIN 0 0 0\nSPACING 1 1 1\n",
        b"* GRIDPOINTS\nG 1 0 0 0\n", b"Z B8 1 1 2 3\n", b"$ENTER COMPONENT\n", b"$COOR\n", b"$ELEMENT TYPE = TRIA3\n",
        b"4 3 0 0\n", b"5 0 0 0 0\n1 UNDEF\n", b"\x1f\x8b", b"\x89HDF\r\n\x1a\n", b"CDF\x01", b"\x03\x00\x00\x00" * 30]


def run_garbage(case, ctx, d):
    rng = rng_of("garb", case["f"], case["s"])
    path = os.path.join(d, "x.msh")
    f = case["f"]
    if f == "ugrid":
        path = os.path.join(d, ["x.ugrid", "x.lb8.ugrid", "x.r4.ugrid", "x.b8.ugrid"][case["s"] % 4])
    if f == "tetgen":
        path = os.path.join(d, "x.node")
        open(os.path.join(d, "x.ele"), "wb").write(GARB[case["s"] % len(GARB)])
    for i in range(case["n"]):
        if rng.random() < 0.7:
            b = GARB[int(rng.integers(0, len(GARB)))]
            if rng.random() < 0.3:
                b += GARB[int(rng.integers(0, len(GARB)))]
        elif rng.random() < 0.5:
            b = bytes(rng.integers(0, 256, int(rng.integers(1, 400)), dtype=np.uint8))
        else:
            b = " ".join(str(x) for x in rng.integers(-5, 9, int(rng.integers(1, 200)))).encode()
            b = b.replace(b" ", b"\n", int(rng.integers(0, 20)))
        with open(path, "wb") as h:
            h.write(b)
        res = read_damaged(ctx, lambda: meshio.read(path, file_format=f), f"#{i} content {b[:120]!r}", f)
        ctx.mark("formats_fed_garbage", f)
        ctx.obs("garbage", f, case["s"], i)
        if res == "hang":
            break
