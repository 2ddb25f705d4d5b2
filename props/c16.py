"""C16: command-line tools preserve meshes and report what is in them."""
import os
import re
import shutil
import subprocess
import sys

import numpy as np

from vlib import gen, ops, oracle, tags
from vlib.caps import CAPS, Cap
from vlib.env import SRC, exc_str, meshio, observe, scratch
from vlib.ref import Ref, from_mesh
from vlib.rt import rng_of
from vlib.snap import diff, snap

ID = "C16"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: command lines run against the real entry point; files, messages and exit status "
             "compared with recorded meshes and with the library calls they stand for")
RULE = ("random meshes in every readable variant; convert to every writable format with every option, in-place tools "
        "on every format they handle and every encoding of it, info on consistent, out-of-range and partly used "
        "meshes, failing invocations; non-trivial: an output mesh, report or status was compared; distinct by command, "
        "formats and mesh")
ASSUMPTIONS = [
    "in-place tools store Gmsh files as version 4.1 (the default): one cell block, no tags of older versions",
    "a failed in-place rewrite is reported by the exit status; the old content is not promised",
]
REQUIRE = {"quick": {"converted": 2000, "out_formats": 30, "in_formats": 28, "inplace": 700, "inplace_kinds": 28, "inplace_sets": 40,
                     "info_ok": 250, "info_flagged": 250, "info_flagged_negative": 30, "info_unused": 12, "failures": 300, "sets_converted": 60,
                     "ints_converted": 60, "processes": 30}}
CPU = 120


def cases(tier, seed):
    q = tier == "quick"
    out = []
    for i in range(3600 if q else 60000):
        out.append({"k": "convert", "s": seed * 100000 + i})
    for tool in ("ascii", "binary", "compress", "decompress"):
        for v, cap in sorted(CAPS.items()):
            if fmt_of(cap) in TOOLS[tool]:
                for i in range(8 if q else 300):
                    out.append({"k": "inplace", "tool": tool, "v": v, "s": seed * 1000 + i})
    for v in sorted(CAPS):
        for i in range(4 if q else 120):
            out.append({"k": "info", "v": v, "s": seed * 1000 + i})
    for i in range(400 if q else 4000):
        out.append({"k": "flag", "s": seed * 10000 + i})
        out.append({"k": "sets", "s": seed * 10000 + i})
        out.append({"k": "ints", "s": seed * 10000 + i})
        out.append({"k": "fail", "s": seed * 10000 + i})
    for i in range(10 if q else 200):
        out.append({"k": "proc", "s": seed * 10000 + i})
    return out


def fmt_of(cap):
    return cap.rfmt


TOOLS = {
    "ascii": ["ansys", "flac3d", "gmsh", "ply", "stl", "vtk", "vtu", "xdmf", "mdpa"],
    "binary": ["ansys", "flac3d", "gmsh", "ply", "stl", "vtk", "vtu", "xdmf"],
    "compress": ["ansys", "cgns", "gmsh", "h5m", "ply", "stl", "vtk", "vtu", "xdmf"],
    "decompress": ["cgns", "h5m", "vtu", "xdmf"],
}


def run(case, ctx):
    with scratch() as d:
        globals()["run_" + case["k"]](case, ctx, d)


def cli(argv):
    """(status, Captured): the status a shell would see."""
    o = observe(meshio._cli.main, [str(a) for a in argv])
    if o.exc is None:
        st = 0 if o.value is None else o.value if isinstance(o.value, int) else 1
    elif isinstance(o.exc, SystemExit):
        c = o.exc.code
        st = 0 if c is None else c if isinstance(c, int) else 1
    else:
        st = 1
    return st, o


# ------------------------------------------------------------------ convert
def resolves(path, fmt):
    """Whether the suffix alone selects fmt (first) for reading/writing."""
    try:
        return meshio._helpers._filetypes_from_path(__import__("pathlib").Path(path))[0] == fmt
    except meshio.ReadError:
        return False


def both(rng, ci, co):
    """A mesh both formats carry."""
    types = [t for t in ci.types if t in co.types]
    dims = [x for x in ci.dims if x in co.dims]
    if 2 in dims and (ci.types2 or co.types2):
        dims = [3] if 3 in dims else []
    if ci.pad3 and 2 in dims and 3 not in co.dims:
        dims.remove(2)
    if not types or not dims:
        return None
    order = ["any", "unique", "single_type", "single"]
    multi = max(ci.multi, co.multi, key=order.index)
    if {ci.multi, co.multi} == {"unique", "single_type"}:
        multi = "single"
    c = Cap(name="both", types=types, dims=tuple(dims), multi=multi, pdt=("f8",),
            cdt=tuple(x for x in ci.cdt if x in co.cdt), pd_kinds=ci.pd_kinds, cd_kinds=ci.cd_kinds,
            name_style="simple", name_max=min(ci.name_max, co.name_max), coord_style=ci.coord_style or co.coord_style or (lambda r: "unit"),
            shared_names=ci.shared_names)
    return gen.gen(rng, c, size=str(rng.choice(["tiny", "small"])), data=rng.random() < 0.6)


def compound(ci, co):
    """Freedoms of both steps."""
    o = ["exact", "merge", "bytype"]
    return Cap(name=f"{ci.name}->{co.name}", types=co.types, blocks=max(ci.blocks, co.blocks, key=o.index),
               ptol=max(ci.ptol, co.ptol) * 2, patol=max(ci.patol, co.patol) * 2, pad3=ci.pad3 or co.pad3,
               mirror=ci.mirror or co.mirror, soup=ci.soup or co.soup, squeeze1=ci.squeeze1 or co.squeeze1)


def run_convert(case, ctx, d):
    rng = rng_of("conv", case["s"])
    vs = sorted(CAPS)
    ci, co = CAPS[vs[int(rng.integers(0, len(vs)))]], CAPS[vs[int(rng.integers(0, len(vs)))]]
    if case["s"] % 4:
        co = CAPS[vs[case["s"] % len(vs)]]
    if co.wfmt == "gmsh40":
        co = CAPS["gmsh22-a"]
    ref = both(rng, ci, co)
    if ref is None:
        return
    if co.group == "su2":
        ref.cell_data = {}  # an integer array would be taken for markers, which group the boundary cells
    for s in ("i", "o", "e"):
        os.mkdir(os.path.join(d, s))
    pi, po, pe = ci.path(os.path.join(d, "i")), co.path(os.path.join(d, "o")), co.path(os.path.join(d, "e"))
    if observe(ci.write, pi, ref.mesh()).exc is not None:
        return
    a = [str(rng.choice(["convert", "c"])), pi, po]
    rf = wf = None
    if not resolves(pi, ci.rfmt) or rng.random() < 0.5:
        rf = ci.rfmt
        a += [str(rng.choice(["-i", "--input-format"])), rf]
    if not resolves(po, co.wfmt) or rng.random() < 0.5:
        wf = co.wfmt
        a += [str(rng.choice(["-o", "--output-format"])), wf]
    kw = {}
    if rng.random() < 0.25:
        a.append(str(rng.choice(["-a", "--ascii"])))
        kw["binary"] = False
    if rng.random() < 0.2:
        kw["float_fmt"] = str(rng.choice([".3e", ".8f", ".16e", ".10g"]))
        a += [str(rng.choice(["-f", "--float-format"])), kw["float_fmt"]]
    before = ops.tree_digest(os.path.join(d, "i"))
    st, o = cli(a)

    def api():
        m = meshio.read(pi, file_format=rf)
        m.points = np.ascontiguousarray(m.points)
        meshio.write(pe, m, file_format=wf, **kw)
    e = observe(api)
    what = f"{ci.name} -> {co.name} {a[3:]}"
    if ops.tree_digest(os.path.join(d, "i")) != before:
        ctx.viol("input-changed", f"{what}: the input changed", where="convert")
    if (st == 0) != (e.exc is None):
        ctx.viol("status", f"{what}: exit status {st} ({o.exc!r}) but the library gives {e.exc!r}", where="convert")
        return
    if st:
        ctx.event("refused")
        return
    ctx.event("converted")
    ctx.mark("in_formats", ci.rfmt)
    ctx.mark("out_formats", co.wfmt)
    ctx.obs("convert", ci.name, co.name, case["s"])
    to, te = ops.tree_digest(os.path.join(d, "o")), ops.tree_digest(os.path.join(d, "e"))
    if to != te:
        ctx.viol("output", f"{what}: output differs from the library's in "
                 f"{sorted(k for k in set(to) | set(te) if to.get(k) != te.get(k))}", where="convert")
    r = observe(co.read, po)
    if r.exc is not None:
        ctx.viol("unreadable", f"{what}: {exc_str(r.exc)}", where=co.name)
        return
    cap = compound(ci, co)
    if kw.get("float_fmt"):
        cap.ptol, cap.patol = (2e-3, 0) if "3e" in kw["float_fmt"] else (cap.ptol + 1e-9, 2e-8)
    if kw.get("binary") is False or co.group == "vtu":
        cap.ptol = max(cap.ptol, 1e-11)
    if cap.mirror and kw.get("float_fmt"):
        return
    for mech, msg in oracle.cmp_geometry(ref, r.value, cap):
        ctx.viol(mech, f"{what}: {msg}", where="convert")


# ------------------------------------------------------------------ in place
def encoding(path, fmt):
    with open(path, "rb") as f:
        b = f.read()
    if fmt == "vtk":
        return {b"ASCII": "ascii", b"BINARY": "binary"}[b.split(b"\n")[2].strip()]
    if fmt == "vtu":
        fs = set(re.findall(rb'<DataArray[^>]*format="(\w+)"', b))
        c = re.search(rb'compressor="(\w+)"', b)
        if fs == {b"ascii"}:
            return "ascii"
        return "binary" + (":" + c.group(1).decode() if c else "")
    if fmt == "ply":
        return "ascii" if re.search(rb"^format ascii", b, re.M) else "binary"
    if fmt == "stl":
        return "ascii" if b.startswith(b"solid") else "binary"
    if fmt == "gmsh":
        return {b"0": "ascii", b"1": "binary"}[b.split(b"\n")[1].split()[1]]
    if fmt == "flac3d":
        return "ascii" if b[:1] == b"*" else "binary"
    if fmt == "ansys":
        return "binary" if re.search(rb"\([23]0\d\d ", b) else "ascii"
    if fmt == "mdpa":
        return "ascii"
    if fmt == "xdmf":
        fs = set(re.findall(rb'Format="(\w+)"', b))
        if fs == {b"XML"}:
            return "ascii"
        if fs == {b"HDF"}:
            return "binary" + (":gzip" if hdf_compressed(os.path.splitext(path)[0] + ".h5") else "")
        return str(fs)
    return "binary" + (":gzip" if hdf_compressed(path) else "")


def hdf_compressed(path):
    import h5py
    out = []
    with h5py.File(path, "r") as f:
        f.visititems(lambda n, o: out.append(o.compression) if isinstance(o, h5py.Dataset) and o.size > 3
                     and o.shape != () and o.dtype.kind in "iuf" else None)
    return any(out)


def wanted(tool, fmt, mx):
    if tool == "ascii":
        return "ascii"
    if fmt == "vtu":
        return {"binary": "binary:vtkZLibDataCompressor", "decompress": "binary",
                "compress": "binary:vtkLZMADataCompressor" if mx else "binary:vtkZLibDataCompressor"}[tool]
    if fmt in ("xdmf", "cgns", "h5m"):
        return "binary" if tool == "decompress" else "binary:gzip"
    return "binary"


def run_inplace(case, ctx, d):
    cap = CAPS[case["v"]]
    rng = rng_of("inpl", case["v"], case["tool"], case["s"])
    kw = {}
    if cap.rfmt == "gmsh":
        kw["blocks"] = [(str(rng.choice(cap.types)), int(rng.integers(1, 8)))]
    ref = gen.gen(rng, cap, size=["tiny", "small", "medium"][case["s"] % 3], data=True, **kw)
    tagged = cap.group in ("flac3d", "gmsh41") and rng.random() < 0.6
    if tagged:
        tags.ADD[cap.group](rng, cap, ref)
        if cap.group == "flac3d":
            # plain names get an encoding-specific default slot: use qualified ones
            ref.cell_sets = {k: v for k, v in ref.cell_sets.items() if k.count(":") == 2}
        if ref.extra.pop("skip", None):
            return
    stem = str(rng.choice(["m", "a.b", "with space"]))
    path = cap.path(d, stem)
    if observe(cap.write, path, ref.mesh()).exc is not None:
        return
    for k in range(2):
        tool = case["tool"] if k == 0 else str(rng.choice([t for t in TOOLS if cap.rfmt in TOOLS[t]]))
        names = sorted(os.listdir(d))
        size0 = os.stat(path).st_size
        a = [{"ascii": "a", "binary": "b"}.get(tool, tool) if rng.random() < 0.3 else tool, path]
        mx = tool == "compress" and rng.random() < 0.5
        if mx:
            a.append("--max")
        # the suffix is enough, also where several formats share it
        if rng.random() < 0.4 or cap.ext == "":
            a += ["-i", cap.rfmt]
        st, o = cli(a)
        what = f"{tool} {cap.name}" + (" (after another tool)" if k else "")
        if st:
            ctx.viol("inplace-failed", f"{what}: status {st} {o.exc!r} {o.warned[-200:]} for {ref.describe()}",
                     where=cap.group)
            return
        ctx.event("inplace")
        ctx.mark("inplace_kinds", (tool, cap.rfmt))
        ctx.obs("inplace", tool, cap.name, case["s"], k)
        said = re.findall(r"(before|after): *([0-9.]+) *MB", o.out.getvalue())
        if said and [(w, float(x)) for w, x in said] != [
                (w, float(f"{x / 1024 ** 2:.2f}")) for w, x in (("before", size0), ("after", os.stat(path).st_size))]:
            ctx.viol("inplace-report", f"{what}: {size0} -> {os.stat(path).st_size} bytes reported as {said}",
                     where=cap.group)
        enc = encoding(path, cap.rfmt)
        if enc != wanted(tool, cap.rfmt, mx) and not (
                enc + ":gzip" == wanted(tool, cap.rfmt, mx) and case["s"] % 3 == 0):
            ctx.viol("encoding", f"{what}: the file is {enc}, not {wanted(tool, cap.rfmt, mx)}", where=cap.group)
        extra = set(os.listdir(d)) - set(names)
        if extra - {os.path.basename(os.path.splitext(path)[0]) + ".h5"}:
            ctx.viol("files", f"{what}: left {sorted(extra)}", where=cap.group)
        r = observe(cap.read, path)
        if r.exc is not None:
            ctx.viol("unreadable", f"{what}: {exc_str(r.exc)}", where=cap.group)
            return
        c = compound(cap, cap)
        c.pad3 = cap.pad3
        if cap.rfmt == "vtu":
            c.ptol = c.dtol = 4e-11
        if cap.rfmt == "stl":
            c.ptol, c.patol = 1.3e-7, 1e-38
        for mech, msg in oracle.cmp_geometry(ref, r.value, c) + oracle.cmp_data(ref, r.value, c):
            ctx.viol(mech, f"{what}: {msg}", where=cap.group)
        if tagged:
            ctx.event("inplace_sets")
            for mech, msg in tags.compare(ref, r.value, cap):
                ctx.viol(mech, f"{what}: {msg}", where=cap.group)
    ctx.sample(tool=case["tool"], variant=cap.name, mesh=ref.describe())


# ------------------------------------------------------------------ info
def clean(text):
    return re.sub(r"\s+", " ", re.sub(r"\x1b\[[0-9;]*m", "", text))


def used_all(m):
    u = np.zeros(len(m.points), bool)
    for c in m.cells:
        if c.type.startswith("polyhedron"):
            return None
        u[np.asarray(c.data)] = True
    return bool(u.all())


def check_report(ctx, what, m, o, st):
    out = o.out.getvalue()
    if st != 0:
        ctx.viol("info-status", f"{what}: status {st} {o.exc!r}")
        return
    if not re.search(rf"points: *{len(m.points)}\b", out):
        ctx.viol("info-report", f"{what}: number of points {len(m.points)} not in {out[:300]!r}")
    at = 0
    for c in m.cells:
        x = re.compile(rf"^ *{re.escape(c.type)}(\(\d+\))?: {len(c.data)}$", re.M).search(out, at)
        if not x:
            ctx.viol("info-report", f"{what}: block {c.type}: {len(c.data)} not in (the rest of) {out[:400]!r}")
            return
        at = x.end()
    for kind, d in (("oint data", m.point_data), ("ell data", m.cell_data), ("oint sets", m.point_sets),
                    ("ell sets", m.cell_sets), ("ield data", m.field_data)):
        l = [x for x in out.splitlines() if kind in x]
        if d and not (l and all(str(n) in l[0] for n in d)):
            ctx.viol("info-report", f"{what}: {kind} {list(d)} not reported: {l}")
        if not d and l:
            ctx.viol("info-report", f"{what}: reports {l} but there is none")


def run_info(case, ctx, d):
    cap = CAPS[case["v"]]
    rng = rng_of("info", case["v"], case["s"])
    ref = gen.gen(rng, cap, size=["tiny", "small"][case["s"] % 2], data=True)
    if cap.group in tags.ADD and case["s"] % 2 and cap.group != "gmsh41":
        tags.ADD[cap.group](rng, cap, ref)
    path = cap.path(d)
    if observe(cap.write, path, ref.mesh()).exc is not None:
        return
    r = observe(cap.read, path)
    if r.exc is not None:
        return
    before = ops.tree_digest(d)
    st, o = cli([str(rng.choice(["info", "i"])), path, "-i", cap.rfmt])
    check_report(ctx, f"info {cap.name}", r.value, o, st)
    err = clean(o.err.getvalue())
    if "nonexistent" in err:
        ctx.viol("info-flag", f"info {cap.name}: consistent mesh flagged: {err}")
    if used_all(r.value) is not None and ("not part of any cell" in err) != (not used_all(r.value)):
        ctx.viol("info-flag", f"info {cap.name}: unused points: {not used_all(r.value)}, said {err!r}")
    if ops.tree_digest(d) != before:
        ctx.viol("info-touched", f"info {cap.name} changed files")
    ctx.event("info_ok")
    ctx.obs("info", cap.name, case["s"])


FLAG = ["vtk51-a", "vtk51-b", "vtk42-a", "vtk42-b", "vtu-a", "vtu-zlib", "vtu-raw", "xdmf-xml", "xdmf-bin", "xdmf-hdf",
        "hmf-gzip", "medit-a", "medit-b", "off", "obj", "su2", "tecplot", "ugrid.b8", "netgen.vol"]


def run_flag(case, ctx, d):
    """Out-of-range indices and unused points."""
    rng = rng_of("flag", case["s"])
    cap = CAPS[FLAG[case["s"] % len(FLAG)]]
    ref = gen.gen(rng, cap, size="small", data=False, types=[t for t in cap.types if t != "polygon"], cdt="i8")
    npt = len(ref.points)
    # every point used, then one thing wrong
    bad = int(rng.integers(0, 7))
    b = int(rng.integers(0, len(ref.cells)))
    t, c = ref.cells[b]
    c = c.copy()
    i, j = int(rng.integers(0, c.shape[0])), int(rng.integers(0, c.shape[1]))
    if bad < 6:
        c[i, j] = [npt, npt + 1, npt + 1000, npt, -1, -2][bad]
        ref.cells[b] = (t, c)
    path = cap.path(d)
    if observe(cap.write, path, ref.mesh()).exc is not None:
        return
    r = observe(cap.read, path)
    if r.exc is not None:
        return
    oob = any(len(x.data) and (np.max(x.data) >= len(r.value.points) or np.min(x.data) < 0) for x in r.value.cells)
    st, o = cli(["info", path, "-i", cap.rfmt])
    err = clean(o.err.getvalue())
    what = f"info {cap.name}"
    if not oob:
        un = not used_all(r.value)
        if un:
            ctx.event("info_unused")
        if ("not part of any cell" in err) != un or "nonexistent" in err:
            ctx.viol("info-flag", f"{what}: unused points: {un}, said {err!r}")
    else:
        ctx.event("info_flagged")
        if bad in (4, 5):
            ctx.event("info_flagged_negative")
        if "nonexistent" not in err:
            ctx.viol("info-flag", f"{what}: index {[npt, npt + 1, npt + 1000, npt, -1, -2][bad]} of {npt} points not flagged: "
                     f"status {st} {o.exc!r} {err!r}", where=cap.name)
    check_report(ctx, what, r.value, o, st)
    ctx.obs("flag", cap.name, case["s"])


# ------------------------------------------------------------------ sets and data
def partition(labels):
    return frozenset(frozenset(np.flatnonzero(labels == v).tolist()) for v in np.unique(labels))


def disjoint(rng, n, k):
    """k disjoint index sets over range(n); the rest is in none."""
    lab = rng.integers(0, k + 1, n)
    return [np.flatnonzero(lab == i + 1) for i in range(k)], lab


def run_sets(case, ctx, d):
    """convert --sets-to-int-data: disjoint sets become labels describing the same partition."""
    rng = rng_of("sets", case["s"])
    ci = CAPS[["abaqus", "flac3d-a", "flac3d-b", "exodus"][case["s"] % 4]]
    co = CAPS[["vtu-zlib", "vtk51-b", "xdmf-hdf", "xdmf-xml", "hmf-gzip", "vtu-a", "vtk51-a"][case["s"] % 7]]
    ref = both(rng, ci, co)
    if ref is None:
        return
    ref.point_data, ref.cell_data = {}, {}
    n = len(ref.points)
    k = int(rng.integers(1, 4))
    if ci.group in ("abaqus", "exodus"):
        ss, plab = disjoint(rng, n, k)
        ref.point_sets = {f"p{i}": s for i, s in enumerate(ss) if len(s)}
    if ci.group in ("abaqus", "flac3d"):
        tot = sum(len(c) for _, c in ref.cells)
        ss, clab = disjoint(rng, tot, k)
        offs = np.cumsum([0] + [len(c) for _, c in ref.cells])
        for i, s in enumerate(ss):
            if len(s):
                ref.cell_sets[f"c{i}"] = [s[(s >= a) & (s < b)] - a for a, b in zip(offs[:-1], offs[1:])]
    path, out = ci.path(d, "i"), co.path(d, "o")
    if observe(ci.write, path, ref.mesh()).exc is not None:
        return
    src = observe(ci.read, path)
    if src.exc is not None:
        return
    src = src.value
    st, o = cli(["convert", path, out, "-i", ci.rfmt, "-o", co.wfmt, str(rng.choice(["-s", "--sets-to-int-data"]))])
    what = f"--sets-to-int-data {ci.name} -> {co.name}"
    if st:
        ctx.viol("sets-failed", f"{what}: {o.exc!r} {clean(o.warned)[-200:]}", where=ci.name)
        return
    m = meshio.read(out, file_format=co.rfmt)
    ctx.event("sets_converted")
    ctx.obs("sets", ci.name, co.name, case["s"])
    if src.point_sets:
        lab = np.zeros(n, int)
        for i, s in enumerate(src.point_sets.values()):
            lab[np.asarray(s)] = i + 1
        if not any(np.asarray(a).ndim == 1 and partition(np.asarray(a)) == partition(lab)
                   for a in m.point_data.values()):
            ctx.viol("sets-data", f"{what}: no point data describes the point sets {list(src.point_sets)}; have "
                     f"{list(m.point_data)}", where=ci.name)
    if src.cell_sets:
        # cells of the output follow those of the mesh read, up to merging of equal types
        lab = []
        for b, c in enumerate(src.cells):
            l = np.zeros(len(c.data), int)
            for i, s in enumerate(src.cell_sets.values()):
                l[np.asarray(s[b], dtype=int)] = i + 1
            lab.append(l)
        lab = np.concatenate(lab)
        if not any(partition(np.concatenate([np.asarray(x) for x in l])) == partition(lab)
                   for l in m.cell_data.values()):
            ctx.viol("sets-data", f"{what}: no cell data describes the cell sets {list(src.cell_sets)}; have "
                     f"{list(m.cell_data)}", where=ci.name)


def run_ints(case, ctx, d):
    """convert --int-data-to-sets: every value of an integer array becomes a set of its members."""
    rng = rng_of("ints", case["s"])
    ci = CAPS[["vtu-zlib", "vtk51-b", "xdmf-hdf", "xdmf-xml", "hmf-None"][case["s"] % 5]]
    co = CAPS["abaqus"]
    ref = both(rng, ci, co)
    if ref is None:
        return
    ref.point_data, ref.cell_data = {}, {}
    n = len(ref.points)
    pl = rng.integers(0, int(rng.integers(1, 5)), n).astype(str(rng.choice(["i8", "i4"])))
    ref.point_data["ptag"] = pl
    ref.point_data["x"] = rng.random(n)
    cl = [rng.integers(1, 5, len(c)).astype("i8") for _, c in ref.cells]
    ref.cell_data["ctag"] = cl
    ref.cell_data["f"] = [rng.random(len(c)) for _, c in ref.cells]
    path, out = ci.path(d, "i"), co.path(d, "o")
    if observe(ci.write, path, ref.mesh()).exc is not None:
        return
    st, o = cli(["convert", path, out, "-i", ci.rfmt, str(rng.choice(["-d", "--int-data-to-sets"]))])
    what = f"--int-data-to-sets {ci.name} -> abaqus"
    if st:
        ctx.viol("ints-failed", f"{what}: {o.exc!r}", where=ci.name)
        return
    m = meshio.read(out)
    ctx.event("ints_converted")
    ctx.obs("ints", ci.name, case["s"])
    got = {frozenset(np.asarray(s).tolist()) for s in m.point_sets.values()}
    for v in np.unique(pl):
        if frozenset(np.flatnonzero(pl == v).tolist()) not in got:
            ctx.viol("ints-sets", f"{what}: no point set holds the points with ptag {v}", where=ci.name)
            break
    src = meshio.read(path, file_format=ci.rfmt)
    lab = np.concatenate([np.asarray(a) for a in src.cell_data["ctag"]])
    offs = np.cumsum([0] + [len(c.data) for c in m.cells])
    got = {frozenset(int(x) + int(offs[b]) for b, s in enumerate(l) for x in np.asarray(s).tolist())
           for l in m.cell_sets.values()}
    if [(c.type, len(c.data)) for c in m.cells] == [(c.type, len(c.data)) for c in src.cells]:
        for v in np.unique(lab):
            if frozenset(np.flatnonzero(lab == v).tolist()) not in got:
                ctx.viol("ints-sets", f"{what}: no cell set holds the cells with ctag {v}", where=ci.name)
                break


# ------------------------------------------------------------------ failures
def run_fail(case, ctx, d):
    rng = rng_of("fail", case["s"])
    k = case["s"] % 9
    vs = sorted(CAPS)
    cap = CAPS[vs[int(rng.integers(0, len(vs)))]]
    path = cap.path(d)
    ref = gen.gen(rng, cap, size="tiny", data=False)
    ok = observe(cap.write, path, ref.mesh()).exc is None
    out = os.path.join(d, "out.vtk")
    tool = str(rng.choice(["info", "ascii", "binary", "compress", "decompress"]))
    f = ["-i", cap.rfmt]
    if k == 0:
        a = ["convert", os.path.join(d, "absent" + (cap.ext or ".vtk")), out] + f
    elif k == 1:
        a = [tool, os.path.join(d, "absent" + (cap.ext or ".vtk"))] + f
    elif k == 2:
        a = ["convert", path, os.path.join(d, "out.unknown_suffix")] + f
    elif k == 3:
        p = os.path.join(d, "x.unknown_suffix")
        shutil.copy(path, p)
        a = ["convert", p, out] if rng.random() < 0.5 else [tool, p]
    elif k == 4:
        a = ["convert", path, out, "-i", "no-such-format"]
    elif k == 5:
        a = ["convert", path, out, "-o", "no-such-format"] + f
    elif k == 6:
        tool = str(rng.choice(list(TOOLS)))
        bad = [v for v in vs if CAPS[v].rfmt not in TOOLS[tool] and CAPS[v].rfmt != "mdpa"]
        cap = CAPS[bad[int(rng.integers(0, len(bad)))]]
        path = cap.path(d, "n")
        ref = gen.gen(rng, cap, size="tiny", data=False)
        ok = observe(cap.write, path, ref.mesh()).exc is None
        a = [tool, path, "-i", cap.rfmt]
    elif k == 7:
        # a file its reader rejects
        p = os.path.join(d, "g" + (cap.ext or ".ng"))
        with open(p, "wb") as fh:
            fh.write(b"")
        if observe(cap.read, p).exc is None:
            return
        a = [str(rng.choice(["info", "convert"])), p]
        a += ([out] if a[0] == "convert" else []) + f
    else:
        a = ["convert", path, os.path.join(d, "no", "such", "dir", "out.vtk")] + f
    if not ok:
        return
    before = ops.tree_digest(d)
    st, o = cli(a)
    ctx.event("failures")
    ctx.obs("fail", k, cap.name, case["s"])
    what = " ".join(os.path.basename(x) for x in a)
    if st == 0:
        ctx.viol("fail-status", f"{what}: exit status 0", where=str(k))
    after = ops.tree_digest(d)
    if any(after.get(n) != h for n, h in before.items()):
        ctx.viol("fail-touched", f"{what}: changed existing files", where=str(k))


def run_proc(case, ctx, d):
    """The installed command, as a process."""
    rng = rng_of("proc", case["s"])
    vs = [v for v in sorted(CAPS) if "vtu" in CAPS[v].rfmt or CAPS[v].rfmt in ("vtk", "xdmf", "gmsh", "off", "medit")]
    cap = CAPS[vs[int(rng.integers(0, len(vs)))]]
    path = cap.path(d)
    ref = gen.gen(rng, cap, size="tiny", data=False, types=["triangle"], cdt="i8")
    if observe(cap.write, path, ref.mesh()).exc is not None:
        return

    def sh(*a):
        p = subprocess.run([sys.executable, "-B", "-c", "import sys; from meshio._cli import main; sys.exit(main())", *a],
                           env=dict(os.environ, PYTHONPATH=SRC), cwd=d, capture_output=True, text=True)
        ctx.event("processes")
        return p
    b = os.path.basename(path)
    p = sh("info", b, "-i", cap.rfmt)
    if p.returncode or f"points: {len(ref.points)}" not in p.stdout:
        ctx.viol("process", f"info {cap.name}: {p.returncode} {p.stdout[-200:]} {p.stderr[-300:]}")
    p = sh("convert", b, "o.vtu", "-i", cap.rfmt)
    if p.returncode:
        ctx.viol("process", f"convert {cap.name}: {p.returncode} {p.stderr[-300:]}")
    else:
        m = meshio.read(os.path.join(d, "o.vtu"))
        for mech, msg in oracle.cmp_geometry(ref, m, compound(cap, CAPS["vtu-zlib"])):
            ctx.viol(mech, f"process convert {cap.name}: {msg}")
    p = sh("convert", "absent" + cap.ext, "o2.vtu", "-i", cap.rfmt)
    if p.returncode == 0:
        ctx.viol("process", "converting an absent file: exit status 0")
    p = sh("ascii", "o.vtu")
    if p.returncode:
        ctx.viol("process", f"ascii: {p.returncode} {p.stderr[-300:]}")
    p = sh()
    if p.returncode == 0:
        ctx.viol("process", "no arguments: exit status 0")
    p = sh("--version")
    if p.returncode or "meshio" not in p.stdout:
        ctx.viol("process", f"--version: {p.returncode} {p.stdout}")
    ctx.obs("proc", cap.name, case["s"])
