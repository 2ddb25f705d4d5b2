"""Legacy VTK 2.0-5.1 and VTU."""
import base64
import lzma
import re
import zlib
from xml.sax.saxutils import quoteattr

import numpy as np

from ..dec import vtk as dv
from ..ref import NN

CODE = {t: k for k, t in dv.TYPES.items()}
NAME = {"u1": "unsigned_char", "i1": "char", "u2": "unsigned_short", "i2": "short", "u4": "unsigned_int", "i4": "int",
        "u8": "unsigned_long", "i8": "long", "f4": "float", "f8": "double"}
NAME51 = dict(NAME, i8="vtktypeint64", u8="vtktypeuint64")
INV = [0] * 6
for _i, _x in enumerate(dv.WEDGE):
    INV[_x] = _i


def _row(t, row):
    row = np.asarray(row)
    return row[INV] if t == "wedge" else row


def pad3(p):
    return p if p.shape[1] == 3 else np.column_stack([p, np.zeros(len(p), p.dtype)])


def structured(r, ref):
    """Replace the mesh by a structured grid; returns its description."""
    kind = r.pick(["STRUCTURED_POINTS", "STRUCTURED_GRID", "RECTILINEAR_GRID"], "dataset")
    nd = r.pick([1, 2, 3, 3])
    dim = [r.int(2, 5) for _ in range(nd)] + [1] * (3 - nd)
    if r.p(0.3, "degenerate first dimension"):
        dim = [dim[i] for i in r.rng.permutation(3)]
    g = {"kind": kind, "dim": dim}
    dt = "f8"
    if kind == "STRUCTURED_POINTS":
        # exactly representable, so that origin + i * spacing is exact in every evaluation order
        g["origin"] = np.round(r.rng.normal(size=3) * 64) / 64
        g["spacing"] = np.round(r.rng.uniform(0.1, 2, 3) * 64) / 64
        ax = [g["origin"][i] + np.arange(dim[i]) * g["spacing"][i] for i in range(3)]
    else:
        dt = r.pick(["f8", "f4"])
        ax = [np.sort(np.round(r.rng.normal(size=d), 3)).astype(dt) for d in dim]
    g["axes"] = ax
    idx = [(i, j, k) for k in range(dim[2]) for j in range(dim[1]) for i in range(dim[0])]
    pts = np.array([[ax[0][i], ax[1][j], ax[2][k]] for i, j, k in idx], dtype=dt)
    if kind == "STRUCTURED_GRID":
        pts = r.rng.normal(size=pts.shape).astype(dt)
    at = {x: n for n, x in enumerate(idx)}
    ext = [a for a in range(3) if dim[a] > 1]
    corners = {1: [(0,), (1,)], 2: [(0, 0), (1, 0), (1, 1), (0, 1)],
               3: [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}[len(ext)]
    rows = []
    for k in range(max(dim[2] - 1, 1)):
        for j in range(max(dim[1] - 1, 1)):
            for i in range(max(dim[0] - 1, 1)):
                row = []
                for c in corners:
                    p = [i, j, k]
                    for a, x in zip(ext, c):
                        p[a] += x
                    row.append(at[tuple(p)])
                rows.append(row)
    t = {1: "line", 2: "quad", 3: "hexahedron"}[len(ext)]
    ref.points, ref.cells = pts, [(t, np.array(rows))]
    n, m = len(pts), len(rows)

    def arr(k):
        s = r.pick([(), (3,)])
        return r.rng.normal(size=(k,) + s).astype(r.pick(["f8", "f4"]))
    ref.point_data = {nm: arr(n) for nm in ["u", "v_2"][:r.int(0, 3)]}
    ref.cell_data = {nm: [arr(m)] for nm in ["c", "w"][:r.int(0, 3)]}
    return g


def legacy(r, path, ref, cap):
    binary = cap.kw["binary"]
    v51 = cap.wfmt == "vtk"
    ver = "5.1" if v51 else r.pick(["2.0", "3.0", "3.1", "4.0", "4.1", "4.2"], "version")
    out = b""
    names = dict(NAME51 if v51 else NAME)

    def line(s):
        nonlocal out
        out += (s + "\n").encode()

    def nums(a, dt):
        nonlocal out
        a = np.asarray(a).ravel()
        if binary:
            out += a.astype(">" + dt).tobytes() + b"\n"
        else:
            f = (lambda x: r.fl(x) if dt == "f8" else r.fl(np.float32(x))) if dt[0] == "f" else (lambda x: str(int(x)))
            w = r.pick([3, 9, 1000])
            tok = [f(x) for x in a]
            out += "".join(r.sp().join(tok[i:i + w]) + r.pick(["\n", " \n"]) for i in range(0, len(tok), w)).encode()
            if not len(tok):
                out += b"\n"
            if r.p(0.2):
                out += b"\n"
    line(f"# vtk DataFile Version {ver}")
    line(r.pick(["title", "", "a title of 3 words # !", "vtk output"]))
    line(r.pick(["BINARY", "binary"]) if binary else r.pick(["ASCII", "ascii"]))
    kw = (lambda s: s.lower()) if r.p(0.15, "lower-case keywords") else (lambda s: s)
    g = structured(r, ref) if r.p(0.25) else None
    line(kw("DATASET") + " " + (g["kind"] if g else "UNSTRUCTURED_GRID"))
    meta = v51 or ver == "4.2"

    def metadata():
        nonlocal out
        if meta and r.p(0.2, "METADATA"):
            line("METADATA")
            line("INFORMATION 1")
            line("NAME L2_NORM_RANGE LOCATION vtkDataArray")
            line("DATA 2 0 1")
            line("")
    if r.p(0.2, "FIELD before the geometry"):
        line("FIELD FieldData 1")
        line("TIME 1 1 double")
        nums([0.5], "f8")
        metadata()
        # what the mesh has of it depends on where meshio keeps it: not compared
    if g:
        d = g["dim"]
        line(f"DIMENSIONS {d[0]} {d[1]} {d[2]}")
        if g["kind"] == "STRUCTURED_POINTS":
            a = "ORIGIN " + " ".join(r.fl(x) for x in g["origin"])
            b = r.pick(["SPACING", "SPACING", "ASPECT_RATIO"]) + " " + " ".join(r.fl(x) for x in g["spacing"])
            for s in ([a, b] if r.p(0.5) else [b, a]):
                line(s)
        elif g["kind"] == "RECTILINEAR_GRID":
            for c, x in zip("XYZ", g["axes"]):
                dt = x.dtype.str[1:]
                line(f"{c}_COORDINATES {len(x)} {names[dt]}")
                nums(x, dt)
        else:
            dt = ref.points.dtype.str[1:]
            line(f"POINTS {len(ref.points)} {names[dt]}")
            nums(ref.points, dt)
    else:
        ref.points = pad3(ref.points)
        dt = ref.points.dtype.str[1:]
        line(f"{kw('POINTS')} {len(ref.points)} {names[dt]}")
        nums(ref.points, dt)
        metadata()
        rows = [(t, _row(t, c)) for t, d in ref.cells for c in d]
        sz = [len(c) for _, c in rows]
        if v51:
            it = r.pick(["i8", "i8", "i4"], "offsets")
            nm = {"i8": "vtktypeint64", "i4": r.pick(["vtktypeint32", "int"])}[it]
            line(f"{kw('CELLS')} {len(rows) + 1} {sum(sz)}")
            line(f"OFFSETS {nm}")
            nums(np.concatenate([[0], np.cumsum(sz)]), it)
            line(f"CONNECTIVITY {nm}")
            nums(np.concatenate([c for _, c in rows]), it)
        else:
            line(f"{kw('CELLS')} {len(rows)} {sum(sz) + len(rows)}")
            if binary:
                nums(np.concatenate([np.concatenate([[len(c)], c]) for _, c in rows]), "i4")
            else:
                for _, c in rows:
                    line(r.sp().join(map(str, [len(c), *c])))
        if r.p(0.3) and not binary:
            line("")
        line(f"{kw('CELL_TYPES')} {len(rows)}")
        nums([CODE[t] for t, _ in rows], "i4")
    npt, nc = len(ref.points), sum(len(c) for _, c in ref.cells)
    secs = [("POINT_DATA", npt, ref.point_data), ("CELL_DATA", nc, {k: np.concatenate(v) for k, v in ref.cell_data.items()})]
    if r.p(0.4, "cell data first"):
        secs.reverse()
    reshaped = {}
    for tag, n, data in secs:
        if not data and r.p(0.7):
            continue
        line(f"{kw(tag)} {n}")
        left = list(data.items())
        while left:
            nm, a = left[0]
            a = np.asarray(a)
            dt = a.dtype.str[1:]
            ty = names[dt]
            if dt == "i4" and r.p(0.1, "vtkIdType"):
                ty = "vtkIdType"
            k = a.shape[1] if a.ndim == 2 else 1
            style = r.pick(["FIELD", "own"])
            if style == "own" and (a.ndim == 1 or k in (2, 3, 4)) and not (k == 3 and r.p(0.5)):
                line(f"SCALARS {nm} {ty}" + (f" {k}" if k > 1 or r.p(0.3) else ""))
                if k > 1:
                    r.used.append("SCALARS with components")
                r.used.append("SCALARS")
                line("LOOKUP_TABLE " + r.pick(["default", "my_table"]))
                nums(a, dt)
                if a.ndim == 1:
                    reshaped[tag, nm] = (n, 1)
                left.pop(0)
                metadata()
            elif style == "own" and k == 3:
                r.used.append("VECTORS")
                line(f"VECTORS {nm} {ty}")
                nums(a, dt)
                left.pop(0)
                metadata()
            elif style == "own" and k == 9:
                r.used.append("TENSORS")
                line(f"TENSORS {nm} {ty}")
                nums(a, dt)
                reshaped[tag, nm] = (n, 3, 3)
                left.pop(0)
                metadata()
            else:
                m = r.int(1, len(left) + 1)
                line(f"{kw('FIELD')} {r.pick(['FieldData', 'x'])} {m}")
                for nm, a in left[:m]:
                    a = np.asarray(a)
                    dt = a.dtype.str[1:]
                    line(f"{nm} {a.shape[1] if a.ndim == 2 else 1} {n} {names[dt]}")
                    nums(a, dt)
                    metadata()
                left = left[m:]
        if r.p(0.1, "LOOKUP_TABLE"):
            line("LOOKUP_TABLE my_table 2")
            if binary:
                out += bytes([0, 0, 0, 255, 10, 200, 255, 255]) + b"\n"
            else:
                line("0 0 0 1\n.5 1 1 1.0")
        if r.p(0.1, "COLOR_SCALARS"):
            line("COLOR_SCALARS col 3")
            if binary:
                out += bytes(r.rng.integers(0, 256, 3 * n).tolist()) + b"\n"
            else:
                for _ in range(n):
                    line("0.5 1 0.25")
    for (tag, nm), s in reshaped.items():
        if tag == "POINT_DATA":
            ref.point_data[nm] = np.asarray(ref.point_data[nm]).reshape(s)
        else:
            ref.cell_data[nm] = [np.asarray(x).reshape((len(x),) + s[1:]) for x in ref.cell_data[nm]]
    open(path, "wb").write(out)


VN = {v: k for k, v in dv.VT.items()}


def vtu(r, path, ref, cap):
    form = r.pick(["ascii", "binary", "appended-base64", "appended-raw"], "format")
    o = r.pick(["<", "<", ">"], "byte order")
    ht = r.pick(["UInt32", "UInt64"], "header")
    htd = np.dtype(o + dv.VT[ht])
    comp = r.pick([None, "zlib", "lzma"], "compressor") if form != "ascii" else None
    blk = r.pick([64, 1000, 32768])
    app = b""
    q = quoteattr
    padded = r.p(0.2, "padded offsets")

    def payload(a):
        raw = a.astype(a.dtype.newbyteorder(o)).tobytes()
        if comp is None:
            h = np.array([len(raw)], htd).tobytes()
            if form == "appended-raw":
                return h + raw
            if r.p(0.2, "header encoded separately"):
                return base64.b64encode(h) + base64.b64encode(raw)
            return base64.b64encode(h + raw)
        # multiples of 8 so that no value is cut
        ch = [raw[i:i + blk // 8 * 8] for i in range(0, len(raw), blk // 8 * 8)]
        z = [(zlib if comp == "zlib" else lzma).compress(c) for c in ch]
        last = len(ch[-1]) if ch and len(ch[-1]) != blk // 8 * 8 else 0
        h = np.array([len(ch), blk // 8 * 8, last] + [len(c) for c in z], htd).tobytes()
        if form == "appended-raw":
            return h + b"".join(z)
        return base64.b64encode(h) + base64.b64encode(b"".join(z))

    def array(name, a, nc=None, mixed=True):
        nonlocal app
        a = np.asarray(a)
        dt = a.dtype.str[1:]
        at = [("type", VN[dt]), ("Name", name)]
        if nc is not None:
            at.append(("NumberOfComponents", nc))
        f = form
        if mixed and form != "ascii" and r.p(0.1, "one array in ascii"):
            f = "ascii"
        if not (f == "ascii" and r.p(0.2, "format by default")):
            at.append(("format", f.split("-")[0]))
        body = ""
        if f == "ascii":
            s = [r.fl(x) if dt == "f8" else r.fl(np.float32(x)) if dt[0] == "f" else str(int(x)) for x in a.ravel()]
            w = r.pick([3, 6, 1000])
            body = "\n" + "\n".join("  " + r.sp().join(s[i:i + w]) for i in range(0, len(s), w)) + "\n"
        elif f == "binary":
            body = r.pick(["\n    ", ""]) + payload(a).decode() + r.pick(["\n", ""])
        else:
            at.append(("offset", f"{len(app):<12}" if padded else len(app)))
            app += payload(a)
        if r.p(0.3, "range attributes") and a.size:
            at += [("RangeMin", a.min()), ("RangeMax", a.max())]
        if r.p(0.3, "attribute order"):
            at = [at[i] for i in r.rng.permutation(len(at))]
        s = "<DataArray " + " ".join(f"{k}={q(str(v))}" for k, v in at)
        return s + ("/>" if f.startswith("appended") and r.p(0.5) else f">{body}</DataArray>") + "\n"

    ref.points = pad3(ref.points)
    n = len(ref.points)
    pieces = 1
    if len(ref.cells) > 1 and r.p(0.3, "several pieces"):
        pieces = 2
    # distribute the blocks over the pieces; points of a piece follow each other
    cuts = [0, len(ref.cells)] if pieces == 1 else [0, r.int(1, len(ref.cells)), len(ref.cells)]
    pts, cells, pd = [], [], {k: [] for k in ref.point_data}
    body = ""
    for a, e in zip(cuts, cuts[1:]):
        if pieces == 1:
            use = np.arange(n)
        else:
            use = np.unique(np.concatenate([np.ravel(c) for _, c in ref.cells[a:e]]))
        loc = np.full(n, -1)
        loc[use] = np.arange(len(use))
        off = sum(map(len, pts))
        pts.append(ref.points[use])
        for k in pd:
            pd[k].append(np.asarray(ref.point_data[k])[use])
        rows = [(t, loc[_row(t, c)]) for t, d in ref.cells[a:e] for c in d]
        cells += [(t, loc[np.asarray(d)] + off) for t, d in ref.cells[a:e]]
        it = r.pick(["i8", "i4"])
        P = "<Points>\n" + array("Points", pts[-1], 3) + "</Points>\n"
        ca = [array("connectivity", np.concatenate([c for _, c in rows]).astype(it)),
              array("offsets", np.cumsum([len(c) for _, c in rows]).astype(r.pick(["i8", "i4"]))),
              array("types", np.array([CODE[t] for t, _ in rows], r.pick(["u1", "u1", "i4"])))]
        if r.p(0.3, "order in Cells"):
            ca = [ca[i] for i in r.rng.permutation(3)]
        C = "<Cells>\n" + "".join(ca) + "</Cells>\n"

        def data(tag, items):
            s = "".join(array(k, v, v.shape[1] if v.ndim == 2 else (None if r.p(0.6) else "drop")) for k, v in items)
            s = s.replace(' NumberOfComponents="drop"', "")
            if not items and r.p(0.3):
                return ""
            at = ""
            if items and r.p(0.3, "active attributes"):
                at = f" Scalars={q(items[0][0])}"
            return f"<{tag}{at}>\n{s}</{tag}>\n"
        D = data("PointData", [(k, v[-1]) for k, v in pd.items()])
        K = data("CellData", [(k, np.concatenate([np.asarray(x) for x in l[a:e]])) for k, l in ref.cell_data.items()])
        parts = [P, C, D, K] if r.p(0.5, "Points first") else [D, K, P, C]
        body += f'<Piece NumberOfPoints="{len(use)}" NumberOfCells="{len(rows)}">\n' + "".join(parts) + "</Piece>\n"
    fd = ""
    if r.p(0.2, "FieldData"):
        fd = "<FieldData>\n" + array("TimeValue", np.array([0.5])) + "</FieldData>\n"
        ref.field_data["TimeValue"] = np.array([0.5])
    at = [("type", "UnstructuredGrid"), ("byte_order", "LittleEndian" if o == "<" else "BigEndian")]
    if r.p(0.8):
        at.append(("version", r.pick(["0.1", "1.0"])))
    if ht != "UInt32" or r.p(0.5):
        at.append(("header_type", ht))
    if comp:
        at.append(("compressor", {"zlib": "vtkZLibDataCompressor", "lzma": "vtkLZMADataCompressor"}[comp]))
    out = r.pick(["", '<?xml version="1.0"?>\n']) + "<VTKFile " + " ".join(f"{k}={q(v)}" for k, v in at) + ">\n"
    out += "<UnstructuredGrid>\n" + (fd + body if r.p(0.5) else body + fd) + "</UnstructuredGrid>\n"
    out = out.encode()
    if r.p(0.3, "XML comments"):
        out = out.replace(b"<UnstructuredGrid>", b"<!-- a comment --><UnstructuredGrid>")
    if form.startswith("appended"):
        out += f'<AppendedData encoding="{form.split("-")[1]}">\n   _'.encode() + app + b"\n  </AppendedData>\n"
    out += b"</VTKFile>\n"
    ref.points = np.concatenate(pts)
    ref.cells = cells
    ref.point_data = {k: np.concatenate(v) for k, v in pd.items()}
    open(path, "wb").write(out)
