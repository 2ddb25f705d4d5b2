"""C13: paths, strings and open buffers are interchangeable."""
import io
import os
import pathlib

import numpy as np

from vlib import gen, oracle
from vlib.caps import CAPS
from vlib.env import destamp, exc_str, meshio, observe, scratch
from vlib.ref import from_mesh
from vlib.rt import ref_of, rng_of
from vlib.snap import diff, snap

ID = "C13"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: differential oracle between file, path object and buffer access; buffer-state monitor"
RULE = ("random meshes written to a file by name and to every kind of buffer the format accepts "
        "(in memory, real file, with content already in front), bytes compared up to time "
        "stamps; files read by name and from buffers, meshes compared; buffers must be open and "
        "positioned behind the data afterwards; string/Path, absolute/relative and hostile "
        "names compared; non-trivial: two accesses were compared; distinct by variant, kind of "
        "access and name")
ASSUMPTIONS = [
    "which formats accept which kind of buffer is the table in props/c13.py",
    "exodus names without backslash (netCDF library), xdmf names without surrounding blanks",
    "HDF5-based files are compared by content, not bytes",
]
REQUIRE = {"quick": {"buffer_writes": 1500, "buffer_reads": 1500, "path_pairs": 1500, "names": 12, "failing_paths": 3000,
                     "buffer_variants": 30}}
CPU = 60

HDF = {"cgns", "h5m", "hmf", "med"}
NAS = [v for v in CAPS if v.startswith("nastran")]
WBUF = {"text": ["abaqus", "avsucd", "flac3d-a", "netgen.vol", "obj", "permas.post", "stl-a", "tecplot",
                 "ugrid", "wkt"] + NAS,
        "bytes": ["ansys-a", "flac3d-b", "mdpa", "medit-a", "neuroglancer", "ply-a", "ply-b", "su2",
                  "cgns-gzip", "cgns-None", "h5m-gzip", "hmf-gzip", "hmf-None", "med"],
        "file-w": ["abaqus", "avsucd", "flac3d-a", "netgen.vol", "obj", "stl-a", "tecplot", "wkt", "ugrid"],
        "file-wb": ["ansys-a", "ansys-b", "flac3d-b", "mdpa", "medit-a", "neuroglancer", "ply-a", "ply-b",
                    "stl-b", "su2", "vtk42-a", "vtk42-b", "vtk51-a", "vtk51-b"]}
# objects that can only be written to (sockets, pipes, response objects)
WBUF["wo-text"] = list(WBUF["text"])
WBUF["wo-bytes"] = ["ansys-a", "flac3d-b", "mdpa", "medit-a", "neuroglancer", "ply-a", "ply-b", "su2"]
RBUF = {"text": ["abaqus", "avsucd", "netgen.vol", "obj", "permas.post", "tecplot", "wkt", "xdmf-xml",
                 "flac3d-a"] + NAS,
        "bytes": ["ansys-a", "flac3d-a", "flac3d-b", "neuroglancer", "ply-a", "ply-b", "cgns-gzip",
                  "cgns-None", "h5m-gzip", "h5m-None", "hmf-gzip", "hmf-None", "med", "xdmf-xml"],
        "file-rb": ["ansys-a", "ansys-b", "flac3d-a", "flac3d-b", "mdpa", "neuroglancer", "ply-a", "ply-b",
                    "cgns-gzip", "h5m-gzip", "hmf-gzip", "med"],
        "file-r": ["abaqus", "avsucd", "netgen.vol", "obj", "off", "tecplot", "wkt", "medit-a", "su2",
                   "ugrid"] + NAS[:3]}

NAMES = ["m", "with space", "é-ü-ж", "quo'te", 'dq"uote', "ha#sh", "per%cent", "amp&lt", "par(en)", "a.b.c",
         "semi;colon", "com,ma", "pl+us", "at@", "eq=ual", "-dash", "tilde~", "brack[et]", "curly{}",
         "star*", "back\\slash", "co:lon", "<angle>", "excl!", "dollar$x", "UPPER", "long" * 20,
         "  lead", "new\nline", "..dots", "日本", "dollar$HOME", "${VERIF_X}a", "%VERIF_X%", "~tilde", "~root", "{0}", "%s%d", "ta\tb", "a..b",
         "m.VTK.x", "1e5", "b][", "[red]", "[link=x]a", ":smile:", "trail\\"]


class WriteOnly:
    closed = False

    def __init__(self, empty):
        self.empty, self.data = empty, empty

    def write(self, x):
        if isinstance(self.empty, str):
            if not isinstance(x, str):
                raise TypeError("str expected")
        else:
            x = bytes(x)
        self.data += x
        return len(x)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        pass

    def tell(self):
        return len(self.data)

    def close(self):
        self.closed = True

    def getvalue(self):
        return self.data


def cases(tier, seed):
    out = []
    n = 40 if tier == "quick" else 600
    for kind, l in WBUF.items():
        for v in l:
            for i in range(n if not CAPS[v].heavy and kind[:2] != "wo" else n // 2):
                out.append({"k": "wbuf", "b": kind, "v": v, "s": seed * 1000 + i})
    for kind, l in RBUF.items():
        for v in l:
            for i in range(n if not CAPS[v].heavy else n // 2):
                out.append({"k": "rbuf", "b": kind, "v": v, "s": seed * 1000 + i})
    # buffers of the wrong kind: refused, or the same mesh
    for v, cap in CAPS.items():
        for kind in ("text", "bytes", "file-r", "file-rb"):
            if v in RBUF[kind] or v == "flac3d-b" or (cap.group in HDF and kind in ("text", "file-r")):
                continue
            for i in range(2 if tier == "quick" else 20):
                out.append({"k": "rbuf", "b": kind, "v": v, "s": seed * 1000 + i, "any": 1})
    for v in CAPS:
        for j, nm in enumerate(NAMES):
            if not legal(CAPS[v], nm):
                continue
            for i in range(1 if tier == "quick" else 10):
                out.append({"k": "path", "v": v, "n": j, "s": seed * 1000 + i})
    return out


def run(case, ctx):
    cap, rng, ref = ref_of({"v": case["v"], "s": case["s"], "size": ["tiny", "small", "medium"][case["s"] % 3]},
                           data=True)
    globals()["run_" + case["k"]](case, ctx, cap, rng, ref)


def run_wbuf(case, ctx, cap, rng, ref):
    kind = case["b"]
    with scratch() as d:
        path = cap.path(d)
        w = observe(cap.write, path, ref.mesh())
        if w.exc is not None:
            return
        want = open(path, "rb").read()
        pre = b""
        if cap.group not in HDF and case["s"] % 3 == 1 and kind in ("text", "bytes", "file-w", "file-wb"):
            pre = b"# something already in the buffer\n"
        q = os.path.join(d, "other.bin")
        if kind == "text":
            f = io.StringIO(newline="")
            f.write(pre.decode())
        elif kind == "bytes":
            f = io.BytesIO()
            f.write(pre)
        elif kind == "wo-text":
            f = WriteOnly("")
        elif kind == "wo-bytes":
            f = WriteOnly(b"")
        else:
            f = open(q, "w" if kind == "file-w" else "wb")
            f.write(pre.decode() if kind == "file-w" else pre)
            f.flush()
        o = observe(cap.write, f, ref.mesh())
        ctx.event("buffer_writes")
        ctx.mark("buffer_variants", cap.name)
        ctx.obs("wbuf", kind, cap.name, case["s"])
        if o.exc is not None:
            ctx.viol("buffer-write", f"{cap.name} {kind}: {exc_str(o.exc)}", where=cap.name)
            return
        if f.closed:
            ctx.viol("buffer-closed", f"{cap.name} {kind}: the buffer was closed by write", where=cap.name)
            return
        if cap.group not in HDF:
            end = f.tell()
            tail = "tail\n" if kind in ("text", "file-w", "wo-text") else b"tail\n"
            f.write(tail)  # still usable, and behind the mesh
        if kind in ("text", "bytes") or kind[:2] == "wo":
            got = f.getvalue()
            got = got.encode() if isinstance(got, str) else got
        else:
            f.close()
            got = open(q, "rb").read()
        if cap.group in HDF:
            f2 = io.BytesIO(got)
            r = observe(meshio.read, f2, file_format=cap.rfmt)
            x = observe(cap.read, path)
            if r.exc is not None or x.exc is not None:
                ctx.viol("buffer-bytes", f"{cap.name}: content written to a buffer unreadable: "
                         f"{exc_str(r.exc or x.exc)}", where=cap.name)
            elif diff(snap(x.value), snap(r.value)):
                ctx.viol("buffer-bytes", f"{cap.name}: {diff(snap(x.value), snap(r.value))[0]}", where=cap.name)
            return
        if destamp(got) != destamp(pre + want + b"tail\n"):
            ctx.viol("buffer-bytes", f"{cap.name} {kind}: buffer has {len(got)} bytes, file {len(want)}; "
                     f"prefix {'kept' if got.startswith(pre) else 'lost'}", where=cap.name)


def text_encoding(path):
    """The encoding meshio's text readers assume, where the file has one."""
    try:
        open(path, encoding="utf-8").read()
        return "utf-8"
    except UnicodeDecodeError:
        return "latin-1"


def run_rbuf(case, ctx, cap, rng, ref):
    kind = case["b"]
    with scratch() as d:
        path = cap.path(d)
        w = observe(cap.write, path, ref.mesh())
        if w.exc is not None:
            return
        x = observe(cap.read, path)
        if x.exc is not None:
            return
        if kind == "text":
            f = io.StringIO(open(path, newline="", encoding=text_encoding(path)).read())
        elif kind == "bytes":
            f = io.BytesIO(open(path, "rb").read())
        else:
            f = open(path, kind[5:], **({} if "b" in kind else {"encoding": text_encoding(path)}))
        try:
            r = observe(meshio.read, f, file_format=cap.rfmt)
            ctx.event("buffer_reads")
            ctx.mark("buffer_variants", cap.name)
            ctx.obs("rbuf", kind, cap.name, case["s"])
            if case.get("any"):
                ctx.event("wrong_kind_refused" if r.exc is not None else "wrong_kind_read")
                if r.exc is None and not oracle_same(x.value, r.value):
                    ctx.viol("buffer-kind", f"{cap.name} {kind}: silently another mesh", where=cap.name)
                return
            if r.exc is not None:
                ctx.viol("buffer-read", f"{cap.name} {kind}: {exc_str(r.exc)}", where=cap.name)
                return
            dd = diff(snap(x.value), snap(r.value))
            if dd:
                ctx.viol("buffer-mesh", f"{cap.name} {kind}: {dd[0]}", where=cap.name)
            if f.closed:
                ctx.viol("buffer-closed", f"{cap.name} {kind}: the buffer was closed by read", where=cap.name)
                return
            # usable: the same buffer gives the same mesh again
            f.seek(0)
            r2 = observe(meshio.read, f, file_format=cap.rfmt)
            if r2.exc is not None or diff(snap(x.value), snap(r2.value)):
                ctx.viol("buffer-reread", f"{cap.name} {kind}: second read of the buffer: "
                         f"{exc_str(r2.exc) if r2.exc else 'another mesh'}", where=cap.name)
        finally:
            f.close()


def oracle_same(a, b):
    return not diff(snap(a), snap(b))


# names a format cannot take by its own rules
# (netCDF takes a backslash for a separator, XML character data has no leading blanks)
def legal(cap, nm):
    return not (cap.group == "exodus" and "\\" in nm or cap.group in ("xdmf", "exodus") and nm != nm.strip())


def run_path(case, ctx, cap, rng, ref):
    nm = NAMES[case["n"]]
    os.environ["VERIF_X"] = "other"
    mode = ["str", "Path", "rel", "relPath"][(case["n"] + case["s"]) % 4]
    with scratch() as d:
        base = observe(cap.write, cap.path(d, "plain"), ref.mesh())
        if base.exc is not None:
            return
        bx = observe(cap.read, cap.path(d, "plain"))
        if bx.exc is not None:
            return
        sub = os.path.join(d, "dir " + nm.strip() if nm not in ("..dots",) else "dd")
        os.mkdir(sub)
        cwd = os.getcwd()
        try:
            os.chdir(sub)
            p = cap.path(sub, nm)
            if mode == "Path":
                p = pathlib.Path(p)
            elif mode == "rel":
                p = cap.path("", nm)
            elif mode == "relPath":
                p = pathlib.Path(cap.path("", nm))
            w = observe(cap.write, p, ref.mesh())
            ctx.event("path_pairs")
            ctx.mark("names", nm)
            ctx.obs("path", cap.name, nm, mode)
            if w.exc is not None:
                ctx.viol("path-write", f"{cap.name} {mode} {nm!r}: {exc_str(w.exc)}", where=cap.name)
                return
            if not os.path.exists(p):
                ctx.viol("path-write", f"{cap.name}: {p!r} does not exist after writing; {os.listdir(sub)}",
                         where=cap.name)
                return
            if cap.group not in HDF | {"exodus"}:
                a = open(p, "rb").read()
                b = open(cap.path(d, "plain"), "rb").read()
                # XDMF and TetGen refer to their companion files by name
                if destamp(a) != destamp(b) and cap.group not in ("xdmf", "tetgen"):
                    ctx.viol("path-bytes", f"{cap.name} {mode} {nm!r}: other bytes", where=cap.name)
            # read through the other kind of path, from another directory
            r = observe(cap.read, p)
            os.chdir(d)
            full = cap.path(sub, nm)
            r2 = observe(cap.read, pathlib.Path(full) if mode in ("str", "rel") else full)
            for which, x in (("same", r), ("other", r2)):
                if x.exc is not None:
                    ctx.viol("path-read", f"{cap.name} {mode} {nm!r} ({which}): {exc_str(x.exc)}",
                             where=cap.name)
                elif diff(snap(bx.value), snap(x.value)):
                    ctx.viol("path-mesh", f"{cap.name} {mode} {nm!r} ({which}): "
                             f"{diff(snap(bx.value), snap(x.value))[0]}", where=cap.name)
            # a file that cannot be read fails in the same way whatever its name, and so does a missing one
            for what in ("damaged", "missing"):
                res = []
                for q in (cap.path(d, "plain"), full):
                    if what == "missing":
                        os.remove(q)
                    else:
                        with open(q, "rb") as f:
                            b = f.read(30)
                        with open(q, "wb") as f:
                            f.write(b)
                    res.append(observe(cap.read, q))
                    if what == "damaged":
                        res.append(observe(meshio.read, q))
                ctx.event("failing_paths", len(res) // 2)
                for a, b in zip(res[: len(res) // 2], res[len(res) // 2:]):
                    ta, tb = (type(x.exc).__name__ for x in (a, b))
                    if ta != tb:
                        ctx.viol("path-error", f"{cap.name}: reading a {what} file: {exc_str(a.exc)} for 'plain', "
                                 f"{exc_str(b.exc)} for {nm!r}", where=cap.name)
        finally:
            os.chdir(cwd)
