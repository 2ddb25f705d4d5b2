"""C12: files go to the reader and writer their name and format registry select."""
import os
import pathlib

import numpy as np

from vlib import gen, oracle
from vlib.caps import CAPS
from vlib.env import destamp, exc_str, meshio, observe, scratch
from vlib.ref import from_mesh
from vlib.rt import rng_of
from vlib.snap import diff, snap

ID = "C12"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: call trace of instrumented readers and writers checked online "
             "against a model of the registry; built-in dispatch against the documented table")
RULE = ("random sequences of register/deregister/read/write over recording stand-in formats that "
        "share suffixes with each other and with the built-in formats (accepting, refusing, "
        "failing readers), every step compared with a registry model and the calls recorded; "
        "every built-in suffix in several spellings written by name and read by name; "
        "non-trivial: a dispatch decision was observed; distinct by suffix, spelling, registry "
        "state and outcome")
ASSUMPTIONS = ["suffixes are registered in lower case",
               "formats without a reader do not share a suffix with others"]
REQUIRE = {"quick": {"dispatches": 5000, "registry_steps": 3000, "builtin_suffixes": 39,
                     "builtin_dispatches": 400, "fallbacks": 400, "refused": 300}}
CPU = 60

# documented suffixes, first format first
TABLE = {
    ".msh": ["ansys", "gmsh"], ".f3grid": ["flac3d"], ".mdpa": ["mdpa"], ".ply": ["ply"],
    ".stl": ["stl"], ".vtk": ["vtk"], ".vtu": ["vtu"], ".xdmf": ["xdmf"], ".xmf": ["xdmf"],
    ".cgns": ["cgns"], ".h5m": ["h5m"], ".inp": ["abaqus"], ".avs": ["avsucd"],
    ".xml": ["dolfin-xml"], ".e": ["exodus"], ".exo": ["exodus"], ".ex2": ["exodus"],
    ".hmf": ["hmf"], ".med": ["med"], ".mesh": ["medit"], ".meshb": ["medit"], ".bdf": ["nastran"],
    ".fem": ["nastran"], ".nas": ["nastran"], ".vol": ["netgen"], ".vol.gz": ["netgen"],
    ".obj": ["obj"], ".off": ["off"], ".post": ["permas"], ".post.gz": ["permas"],
    ".dato": ["permas"], ".dato.gz": ["permas"], ".su2": ["su2"], ".svg": ["svg"],
    ".dat": ["tecplot"], ".tec": ["tecplot"], ".ele": ["tetgen"], ".node": ["tetgen"],
    ".ugrid": ["ugrid"], ".wkt": ["wkt"],
}
WRITERS = ["abaqus", "ansys", "avsucd", "cgns", "dolfin-xml", "exodus", "flac3d", "gmsh", "gmsh22",
           "h5m", "hmf", "mdpa", "med", "medit", "nastran", "netgen", "neuroglancer", "obj", "off",
           "permas", "ply", "stl", "su2", "svg", "tecplot", "tetgen", "ugrid", "vtk", "vtk42",
           "vtk51", "vtu", "wkt", "xdmf"]
READERS = [w for w in WRITERS if w not in ("gmsh22", "svg", "vtk42", "vtk51")]
VARIANT = {"ansys": "ansys-b", "gmsh": "gmsh41-b", "flac3d": "flac3d-a", "ply": "ply-b", "stl": "stl-a",
           "vtk": "vtk51-b", "vtu": "vtu-zlib", "xdmf": "xdmf-hdf", "cgns": "cgns-gzip",
           "h5m": "h5m-gzip", "dolfin-xml": "dolfin", "hmf": "hmf-gzip", "medit": "medit-a",
           "nastran": "nastran-fixed-large-fixed-small", "netgen": "netgen.vol",
           "permas": "permas.post", "tetgen": "tetgen.node", "ugrid": "ugrid"}


def spell(rng, s):
    k = int(rng.integers(0, 4))
    return [s, s.upper(), s.title(), "".join(c.upper() if rng.random() < 0.5 else c for c in s)][k]


STEMS = ["m", "mesh.v1.2", "a b", "x.vtk.bak", ".hidden", "name.with.dots", "UPPER", "m.msh.old",
         "tetgen", "é"]


def cases(tier, seed):
    out = [{"k": "table", "s": seed}]
    for i in range(1800 if tier == "quick" else 20000):
        out.append({"k": "model", "s": seed * 100000 + i})
    for ext in TABLE:
        for i in range(40 if tier == "quick" else 300):
            out.append({"k": "builtin", "ext": ext, "s": seed * 1000 + i})
    for i in range(200 if tier == "quick" else 2000):
        out.append({"k": "msh", "s": seed * 1000 + i})
    for i in range(100 if tier == "quick" else 1000):
        out.append({"k": "unknown", "s": seed * 1000 + i})
    return out


def run(case, ctx):
    rng = rng_of("C12", case["k"], case.get("ext", ""), case["s"])
    globals()["run_" + case["k"]](case, ctx, rng)


def run_table(case, ctx, rng):
    got = {k: list(v) for k, v in meshio.extension_to_filetypes.items() if v}
    for ext, fm in TABLE.items():
        if got.get(ext) != fm:
            ctx.viol("suffix-table", f"{ext}: {got.get(ext)} instead of {fm}", where="table")
        ctx.mark("builtin_suffixes", ext)
    tri = meshio.Mesh([[0.0, 0, 0], [1, 0, 0], [0, 1, 0]], [("triangle", [[0, 1, 2]])])
    with scratch() as d:
        # every documented writer name is known; every reader name is known
        for w in WRITERS:
            o = observe(meshio.write, os.path.join(d, "w_" + w + ".zz"), tri, file_format=w)
            if o.exc is not None and "Unknown format" in str(o.exc):
                ctx.viol("writer-table", f"writer {w} is gone", where="table")
            ctx.event("dispatches")
        p = os.path.join(d, "g")
        open(p, "w").write("garbage\n")
        for r in READERS:
            o = observe(meshio.read, p, file_format=r)
            if o.exc is not None and isinstance(
                    o.exc, meshio.ReadError) and "Unknown file format" in str(o.exc):
                ctx.viol("reader-table", f"reader {r} is gone", where="table")
            ctx.event("dispatches")


def run_builtin(case, ctx, rng):
    """Write by name, read by name, in any spelling."""
    ext = case["ext"]
    fmt = TABLE[ext][0]
    cap = CAPS[VARIANT.get(fmt, fmt)] if fmt != "svg" else CAPS["off"]
    ref = gen.gen(rng, cap, size="tiny", data=False)
    if fmt == "svg":
        ref.points = np.asarray(ref.points)[:, :2]
    m = ref.mesh()
    stem = str(rng.choice(STEMS))
    sp = spell(rng, ext)
    if fmt == "tetgen":
        sp = ext  # the companion file is found by its exact name
    if fmt == "medit" and ext == ".meshb":
        pass
    with scratch() as d:
        path = os.path.join(d, stem + sp)
        q = pathlib.Path(path) if rng.random() < 0.5 else path
        o = observe(meshio.write, q, m)
        if o.exc is not None:
            ctx.viol("write-by-name", f"{stem + sp}: {exc_str(o.exc)}", where=ext)
            return
        ctx.event("builtin_dispatches")
        # the same bytes as the explicitly selected writer
        p2 = os.path.join(d, "e_" + stem + sp)
        e = observe(meshio.write, p2, ref.mesh(), file_format=fmt)
        if e.exc is not None:
            ctx.viol("write-explicit", f"{fmt}: {exc_str(e.exc)}", where=ext)
            return
        if fmt not in HDF and stem not in ("é",):
            a, b = open(path, "rb").read(), open(p2, "rb").read()
            if destamp(a) != destamp(b):
                ctx.viol("write-dispatch", f"{stem + sp} was not written by {fmt}", where=ext)
        if fmt != "svg":
            r = observe(meshio.read, q)
            x = observe(meshio.read, path, file_format=fmt)
            if r.exc is not None or x.exc is not None:
                ctx.viol("read-by-name", f"{stem + sp}: {exc_str(r.exc or x.exc)}", where=ext)
                return
            dd = diff(snap(x.value), snap(r.value))
            if dd:
                ctx.viol("read-dispatch", f"{stem + sp}: {dd[0]}", where=ext)
            ctx.event("builtin_dispatches")
        else:
            r = observe(meshio.read, q)
            x = observe(meshio.read, q, file_format="svg")
            if not isinstance(r.exc, meshio.ReadError) or not isinstance(x.exc, meshio.ReadError):
                ctx.viol("read-dispatch", f"reading SVG, which has no reader: {r.exc!r}, {x.exc!r}", where=ext)
    ctx.obs("builtin", ext, sp, stem)


HDF = {"cgns", "h5m", "hmf", "med", "xdmf", "exodus"}


def run_msh(case, ctx, rng):
    """.msh files: whichever of the registered formats accepts the file."""
    v = str(rng.choice(["gmsh22-a", "gmsh22-b", "gmsh40-a", "gmsh40-b", "gmsh41-a", "gmsh41-b", "ansys-a",
                        "ansys-b"]))
    cap = CAPS[v]
    ref = gen.gen(rng, cap, size="small", data=False)
    with scratch() as d:
        path = os.path.join(d, "m" + spell(rng, ".msh"))
        w = observe(cap.write, path, ref.mesh())
        r = observe(meshio.read, path) if w.exc is None else w
        x = observe(meshio.read, path, file_format=cap.rfmt) if w.exc is None else w
        if r.exc is not None or x.exc is not None:
            ctx.viol("msh-dispatch", f"{v}: {exc_str(r.exc or x.exc)}", where=v)
            return
        dd = diff(snap(x.value), snap(r.value))
        if dd:
            ctx.viol("msh-dispatch", f"{v}: {dd[0]}", where=v)
    ctx.event("dispatches")
    ctx.event("fallbacks")
    ctx.obs("msh", v, [(t, len(c)) for t, c in ref.cells])


def run_unknown(case, ctx, rng):
    tri = meshio.Mesh([[0.0, 0, 0], [1, 0, 0], [0, 1, 0]], [("triangle", [[0, 1, 2]])])
    name = str(rng.choice(["m.unknown", "m", "m.", "mesh.vtk.zip", "m.gz", "m.vtk2", "m.mshx", "vtk",
                           ".vtk", "m.vol.gz.bak", "a.stl/m", "m.zz9"]))
    fmt = str(rng.choice(["", "nope", "VTK", "Gmsh", "vtk ", ".vtk", "xdmf3"]))
    with scratch() as d:
        os.mkdir(os.path.join(d, "a.stl"))
        p = os.path.join(d, name)
        before = sorted(os.listdir(d))
        w = observe(meshio.write, p, tri, **({"file_format": fmt} if fmt else {}))
        if w.exc is None:
            ctx.viol("unknown-write", f"{name} format {fmt!r} was written", where="unknown")
        elif not isinstance(w.exc, (meshio.ReadError, meshio.WriteError)):
            ctx.viol("unknown-write", f"{name} format {fmt!r}: {exc_str(w.exc)}", where="unknown")
        if sorted(os.listdir(d)) != before:
            ctx.viol("unknown-write", f"refused write created {os.listdir(d)}", where="unknown")
        open(p, "w").write("x\n")
        r = observe(meshio.read, p, **({"file_format": fmt} if fmt else {}))
        if r.exc is None:
            ctx.viol("unknown-read", f"{name} format {fmt!r} was read", where="unknown")
        elif not isinstance(r.exc, meshio.ReadError):
            ctx.viol("unknown-read", f"{name} format {fmt!r}: {exc_str(r.exc)}", where="unknown")
        n = observe(meshio.read, os.path.join(d, "missing.vtk"))
        if not isinstance(n.exc, meshio.ReadError):
            ctx.viol("missing-read", f"missing file: {n.exc!r}", where="unknown")
    ctx.event("dispatches", 2)
    ctx.event("refused")
    ctx.obs("unknown", name, fmt)


class World:
    """The registry model and the recording formats."""

    def __init__(self):
        self.exts = {k: list(v) for k, v in TABLE.items()}
        self.readers = {}
        self.writers = {}
        self.log = []

    def reader(self, tag, behave):
        def read(path):
            self.log.append(("r", tag, str(path)))
            if behave == "refuse":
                raise meshio.ReadError(f"{tag} refuses")
            if behave == "fail":
                raise ZeroDivisionError(tag)
            return meshio.Mesh(np.array([[float(len(tag)), 0.0, 0.0]]), [], info=tag)
        return read

    def writer(self, tag):
        def write(path, mesh, **kw):
            self.log.append(("w", tag, str(path), tuple(sorted(kw.items()))))
        return write

    def candidates(self, name):
        """Formats registered for the suffixes of a file name, shorter suffixes first."""
        parts = name.lstrip(".").split(".")
        if name.startswith(".") and len(parts) == 1:
            return []
        sufs = ["." + p for p in parts[1:]]
        out = []
        for k in range(1, len(sufs) + 1):
            out += self.exts.get("".join(sufs[-k:]).lower(), [])
        return out


def run_model(case, ctx, rng):
    W = World()
    FM = ["fa", "fb", "fc", "fd"]
    EX = [".foo", ".foo", ".bar", ".foo.gz", ".vtk", ".msh", ".gz", ".e", ".a.b.c", ".b.c", ".c", ".x.a.b.c", ".f-1_0"]
    import meshio._helpers as h
    saved = ({k: list(v) for k, v in h.extension_to_filetypes.items()}, dict(h.reader_map),
             dict(h._writer_map))
    mesh = meshio.Mesh([[0.0, 0.0, 0.0]], [])
    try:
        with scratch() as d:
            for step in range(int(rng.integers(6, 22))):
                op = str(rng.choice(["reg", "reg", "dereg", "read", "read", "write", "xread", "xwrite"]))
                if step < 4:
                    op = "reg"
                W.log.clear()
                if op == "reg":
                    f = str(rng.choice(FM))
                    ex = [str(x) for x in rng.permutation(EX)[: int(rng.integers(1, 4))]]
                    b = str(rng.choice(["ok", "ok", "refuse", "refuse", "fail"]))
                    tag = f"{f}{step}"
                    # formats may be write-only, read-only, or have further writers under names of their own
                    rd = W.reader(tag, b) if rng.random() < 0.85 else None
                    wr = {f: W.writer(tag)} if rng.random() < 0.85 else {}
                    if rng.random() < 0.2:
                        wr[f + "-2"] = W.writer(tag + "-2")
                    meshio.register_format(f, ex, rd, wr)
                    for e in ex:
                        l = W.exts.setdefault(e, [])
                        if f not in l:
                            l.append(f)
                    if rd is not None:
                        W.readers[f] = (tag, b)
                    if f in wr:
                        W.writers[f] = tag
                    if f + "-2" in wr:
                        W.writers[f + "-2"] = tag + "-2"
                    ctx.event("registry_steps")
                elif op == "dereg":
                    f = str(rng.choice(FM + ["never"]))
                    o = observe(meshio.deregister_format, f)
                    if o.exc is not None:
                        ctx.viol("deregister", exc_str(o.exc), where="model")
                    for l in W.exts.values():
                        if f in l:
                            l.remove(f)
                    W.readers.pop(f, None)
                    W.writers.pop(f, None)
                    ctx.event("registry_steps")
                else:
                    name = str(rng.choice(["m", "a.b", "x.foo", "y.vtk"])) + spell(
                        rng, str(rng.choice([".foo", ".bar", ".foo.gz", ".gz", ".zzz", ".bar.gz", ".vtk", ".a.b.c", ".b.c",
                                              ".x.a.b.c", ".c", ".c.foo", ".f-1_0", ".x.y.z.foo"])))
                    p = os.path.join(d, name)
                    open(p, "w").close()
                    cand = W.candidates(name)
                    # built-in candidates would really run: leave those to the other cases
                    if op in ("read", "write") and any(c not in FM for c in cand):
                        continue
                    if op == "read":
                        check_read(ctx, W, p, cand, None)
                    elif op == "xread":
                        f = str(rng.choice(FM))
                        check_read(ctx, W, p, [f], f)
                    elif op == "write":
                        check_write(ctx, W, p, cand, None, mesh, d)
                    else:
                        f = str(rng.choice(FM + [x + "-2" for x in FM]))
                        check_write(ctx, W, p, [f], f, mesh, d)
                    ctx.obs("model", op, name, tuple(cand), tuple(sorted(W.readers.items())))
                got = {k: list(v) for k, v in meshio.extension_to_filetypes.items() if v}
                exp = {k: v for k, v in W.exts.items() if v}
                if got != exp:
                    dif = {k: (got.get(k), exp.get(k)) for k in set(got) | set(exp) if got.get(k) != exp.get(k)}
                    ctx.viol("registry-state", f"after {op}: {dif} (observed, expected)", where="model")
                    break
    finally:
        h.extension_to_filetypes.clear()
        h.extension_to_filetypes.update(saved[0])
        h.reader_map.clear()
        h.reader_map.update(saved[1])
        h._writer_map.clear()
        h._writer_map.update(saved[2])


def check_read(ctx, W, p, cand, fmt):
    o = observe(meshio.read, p, **({"file_format": fmt} if fmt else {}))
    ctx.event("dispatches")
    exp, outcome = [], None
    for c in cand:
        if c not in W.readers:
            outcome = "unknown"
            break
        tag, b = W.readers[c]
        exp.append(("r", tag, p))
        if b == "ok":
            outcome = tag
            break
        if b == "fail":
            outcome = "fail"
            break
    if len(exp) > 1:
        ctx.event("fallbacks")
    if W.log != exp:
        ctx.viol("read-trace", f"read({os.path.basename(p)}, {fmt}) called {[x[:2] for x in W.log]}, "
                 f"expected {[x[:2] for x in exp]}", where="model")
        return
    if outcome in (None, "unknown"):
        ctx.event("refused")
        if not isinstance(o.exc, meshio.ReadError):
            ctx.viol("read-outcome", f"no reader accepts, but {o.exc!r} / {o.value}", where="model")
    elif outcome == "fail":
        if o.exc is None:
            ctx.viol("read-outcome", "a failing reader was ignored", where="model")
    elif o.exc is not None or o.value.info != outcome:
        ctx.viol("read-outcome", f"{o.exc!r} instead of the mesh of {outcome}", where="model")


def check_write(ctx, W, p, cand, fmt, mesh, d):
    kw = {"opt": 3} if len(p) % 2 else {}
    o = observe(meshio.write, p, mesh, **({"file_format": fmt} if fmt else {}), **kw)
    ctx.event("dispatches")
    if not cand or cand[0] not in W.writers:
        ctx.event("refused")
        if not isinstance(o.exc, (meshio.WriteError, meshio.ReadError)) or W.log:
            ctx.viol("write-outcome", f"no writer, but {o.exc!r}, calls {W.log}", where="model")
        return
    exp = [("w", W.writers[cand[0]], p, tuple(sorted(kw.items())))]
    if o.exc is not None or W.log != exp:
        ctx.viol("write-trace", f"write({os.path.basename(p)}, {fmt}) called {W.log}, expected {exp}; "
                 f"{o.exc!r}", where="model")
