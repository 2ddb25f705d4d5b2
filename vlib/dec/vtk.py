"""Legacy VTK files 2.0-5.1 and VTU (VTK file formats, VTK 4.2 document and the 5.1 extension of
VTK 9; VTK XML file formats)."""
import base64
import lzma
import re
import struct
import xml.etree.ElementTree as ET
import zlib

import numpy as np

from . import D, Bad, Block, group_runs, need, split

TYPES = {1: "vertex", 3: "line", 5: "triangle", 7: "polygon", 9: "quad", 10: "tetra", 12: "hexahedron",
         13: "wedge", 14: "pyramid", 21: "line3", 22: "triangle6", 23: "quad8", 24: "tetra10", 25: "hexahedron20",
         26: "wedge15", 27: "pyramid13", 28: "quad9", 29: "hexahedron27", 32: "wedge18", 33: "hexahedron24",
         35: "line4", 68: "VTK_LAGRANGE_CURVE", 69: "VTK_LAGRANGE_TRIANGLE", 70: "VTK_LAGRANGE_QUADRILATERAL",
         71: "VTK_LAGRANGE_TETRAHEDRON", 72: "VTK_LAGRANGE_HEXAHEDRON", 73: "VTK_LAGRANGE_WEDGE",
         74: "VTK_LAGRANGE_PYRAMID"}
WIDTH = {1: 1, 3: 2, 5: 3, 9: 4, 10: 4, 12: 8, 13: 6, 14: 5, 21: 3, 22: 6, 23: 8, 24: 10, 25: 20, 26: 15, 27: 13,
         28: 9, 29: 27, 32: 18, 33: 24, 35: 4}
# vtkWedge: the normal of the first triangle points outwards
WEDGE = [0, 2, 1, 3, 5, 4]
DT = {"unsigned_char": "u1", "char": "i1", "unsigned_short": "u2", "short": "i2", "unsigned_int": "u4", "int": "i4",
      "unsigned_long": "u8", "long": "i8", "vtktypeint64": "i8", "vtktypeuint64": "u8", "vtktypeint32": "i4",
      "float": "f4", "double": "f8"}


def cells_of(conn, offsets, types):
    """offsets: ends of the cells"""
    need(len(offsets) == len(types), "as many offsets as types")
    rows, names = [], []
    a = 0
    for e, t in zip(offsets, types):
        t = int(t)
        need(t in TYPES, f"cell type {t}")
        need(a < e <= len(conn), f"offsets increase ({a} {e})")
        r = conn[a:e]
        need(t == 7 or 68 <= t <= 74 or len(r) == WIDTH[t], f"type {t} has {len(r)} nodes")
        rows.append(r[WEDGE] if t == 13 else r)
        names.append(TYPES[t])
        a = int(e)
    need(a == len(conn), f"connectivity has {len(conn)} entries, cells use {a}")
    return group_runs(names, rows)


class L:
    def __init__(self, b):
        self.b, self.p = b, 0

    def line(self):
        e = self.b.find(b"\n", self.p)
        if e < 0:
            e = len(self.b)
        s = self.b[self.p:e].decode("utf-8")
        self.p = e + 1
        return s

    def keyword(self):
        while self.p < len(self.b):
            s = self.line().strip()
            if s:
                return s.split()
        return None

    def numbers(self, dt, n, binary):
        if binary:
            k = n * np.dtype(dt).itemsize
            need(self.p + k <= len(self.b), "array too short")
            v = np.frombuffer(self.b, ">" + dt if dt[1] != "1" else dt, n, self.p).astype(dt)
            self.p += k
            need(self.b[self.p:self.p + 1] in (b"\n", b""), "newline after binary data")
            return v
        v = []
        while len(v) < n:
            need(self.p < len(self.b), "array too short")
            v += self.line().split()
        need(len(v) == n, f"{len(v)} values instead of {n}")
        if dt[0] == "f":
            return np.array([float(x) for x in v], dtype=dt)
        return np.array([int(x) for x in v], dtype=dt)


def decode(path):
    b = open(path, "rb").read()
    f = L(b)
    m = re.match(r"# vtk DataFile Version (\d\.\d)$", f.line())
    need(m, "identifier")
    ver = m.group(1)
    need(len(f.line()) <= 256, "header is at most 256 characters")
    kind = f.line().strip()
    need(kind in ("ASCII", "BINARY"), "data type")
    binary = kind == "BINARY"
    need(f.line().strip() == "DATASET UNSTRUCTURED_GRID", "data set")
    pts = conn = offs = types = None
    data = {"POINT_DATA": {}, "CELL_DATA": {}}
    where = None
    n_of = {}
    while True:
        k = f.keyword()
        if k is None:
            break
        if k[0] == "POINTS":
            n = int(k[1])
            pts = f.numbers(DT[k[2].lower()], 3 * n, binary).reshape(n, 3)
            n_of["POINT_DATA"] = n
        elif k[0] == "CELLS":
            if ver == "5.1":
                no, nc = int(k[1]), int(k[2])
                o = f.keyword()
                need(o[0] == "OFFSETS", "OFFSETS")
                offs = f.numbers(DT[o[1].lower()], no, binary)
                o = f.keyword()
                need(o[0] == "CONNECTIVITY", "CONNECTIVITY")
                conn = f.numbers(DT[o[1].lower()], nc, binary)
                need(no == 0 or (offs[0] == 0 and offs[-1] == nc), "first and last offset")
                offs = offs[1:]
            else:
                n, sz = int(k[1]), int(k[2])
                raw = f.numbers("i4", sz, binary)
                conn, offs, p = [], [], 0
                for _ in range(n):
                    need(p < sz, "cell list too short")
                    w = int(raw[p])
                    conn += raw[p + 1:p + 1 + w].tolist()
                    offs.append(len(conn))
                    p += 1 + w
                need(p == sz, "size of the cell list")
                conn = np.array(conn, dtype="i8")
        elif k[0] == "CELL_TYPES":
            types = f.numbers("i4", int(k[1]), binary)
            n_of["CELL_DATA"] = len(types)
        elif k[0] in data:
            where = k[0]
            need(int(k[1]) == n_of[where], f"{where} {k[1]} for {n_of[where]} entities")
        elif k[0] == "FIELD":
            for _ in range(int(k[2])):
                h = f.keyword()
                while h[0] == "METADATA":
                    while f.line().strip():
                        pass
                    h = f.keyword()
                need(len(h) == 4, f"array header {h}")
                nm, nc, nt = h[0], int(h[1]), int(h[2])
                nm = re.sub("%([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), nm)
                v = f.numbers(DT[h[3].lower()], nc * nt, binary)
                need(where is None or nt == n_of[where], f"array {nm}: {nt} tuples")
                v = v.reshape(nt, nc) if nc > 1 else v
                if where:
                    data[where][nm] = v
        elif k[0] == "SCALARS":
            nm, dt = k[1], DT[k[2].lower()]
            nc = int(k[3]) if len(k) > 3 else 1
            need(f.keyword()[0] == "LOOKUP_TABLE", "LOOKUP_TABLE")
            v = f.numbers(dt, n_of[where] * nc, binary)
            data[where][nm] = v.reshape(-1, nc) if nc > 1 else v
        elif k[0] in ("VECTORS", "NORMALS"):
            data[where][k[1]] = f.numbers(DT[k[2].lower()], 3 * n_of[where], binary).reshape(-1, 3)
        elif k[0] == "METADATA":
            while f.line().strip():
                pass
        else:
            raise Bad(f"keyword {k[0]!r}")
    need(pts is not None and types is not None and conn is not None, "sections")
    blocks, mem = cells_of(conn, offs, types)
    return D(pts, blocks, data["POINT_DATA"], {k: split(v, mem) for k, v in data["CELL_DATA"].items()}, version=ver)


VT = {"Int8": "i1", "UInt8": "u1", "Int16": "i2", "UInt16": "u2", "Int32": "i4", "UInt32": "u4", "Int64": "i8",
      "UInt64": "u8", "Float32": "f4", "Float64": "f8"}


def b64len(n):
    return (n + 2) // 3 * 4


def vtu_array(e, root, appended=None):
    dt = VT[e.get("type")]
    o = "<" if root.get("byte_order", "LittleEndian") == "LittleEndian" else ">"
    fmt = e.get("format", "ascii")
    nc = int(e.get("NumberOfComponents", 1))
    if fmt == "ascii":
        w = (e.text or "").split()
        v = np.array([float(x) for x in w], dtype=dt) if dt[0] == "f" else np.array([int(x) for x in w], dtype=dt)
    else:
        need(fmt == "binary", "format")
        ht = o + VT[root.get("header_type", "UInt32")]
        hs = np.dtype(ht).itemsize
        txt = "".join((e.text or "").split())
        comp = root.get("compressor")
        if comp is None:
            # header and data are encoded together
            raw = base64.b64decode(txt, validate=True)
            n = int(np.frombuffer(raw, ht, 1)[0])
            need(len(raw) == hs + n, f"{len(raw) - hs} bytes instead of {n}")
            raw = raw[hs:]
        else:
            nb = int(np.frombuffer(base64.b64decode(txt[:b64len(hs)] + "=="), ht, 1)[0]) if txt else 0
            k = b64len(hs * (3 + nb))
            h = np.frombuffer(base64.b64decode(txt[:k], validate=True), ht)
            need(len(h) == 3 + nb, "header")
            body = base64.b64decode(txt[k:], validate=True)
            need(len(body) == int(h[3:].sum()), "compressed sizes")
            out, p = [], 0
            for i, c in enumerate(h[3:]):
                z = body[p:p + int(c)]
                u = zlib.decompress(z) if "ZLib" in comp else lzma.decompress(z)
                p += int(c)
                want = int(h[2]) if (i == nb - 1 and h[2]) else int(h[1])
                need(len(u) == want, f"block {i}: {len(u)} bytes instead of {want}")
                out.append(u)
            raw = b"".join(out)
        v = np.frombuffer(raw, (o + dt) if dt[1] != "1" else dt).astype(dt)
    return v.reshape(-1, nc) if nc > 1 or e.get("NumberOfComponents") == "1" and False else v


def polyhedra(c):
    """All cells are polyhedra: one block (type, list of cells, each a list of faces) per cell run."""
    need((c["types"] == 42).all(), "polyhedra only")
    fo = c["faceoffsets"].tolist()
    f = c["faces"].tolist()
    need(len(fo) == len(c["types"]), "as many faceoffsets as cells")
    blocks, mem = [], []
    a = b = 0
    for i, (e, o) in enumerate(zip(fo, c["offsets"].tolist())):
        n, p = f[a], a + 1
        faces = []
        for _ in range(n):
            faces.append(f[p + 1:p + 1 + f[p]])
            need(len(faces[-1]) == f[p], "face complete")
            p += 1 + f[p]
        need(p == e, f"faces of cell {i} end at {p}, faceoffset {e}")
        nod = sorted(set(sum(faces, [])))
        need(sorted(c["connectivity"][b:o].tolist()) == nod, "connectivity lists the nodes of the faces")
        t = f"polyhedron{len(nod)}"
        if not blocks or blocks[-1].type != t:
            blocks.append(Poly(t))
            mem.append([])
        blocks[-1].data.append(faces)
        mem[-1].append(i)
        a, b = e, o
    need(a == len(f) and b == len(c["connectivity"]), "all faces and nodes used")
    return blocks, mem


class Poly(Block):
    def __init__(self, t):
        self.type, self.data = t, []


def decode_vtu(path):
    root = ET.parse(path).getroot()
    need(root.tag == "VTKFile" and root.get("type") == "UnstructuredGrid", "root")
    need(root.get("byte_order") in ("LittleEndian", "BigEndian"), "byte_order")
    g = root.find("UnstructuredGrid")
    pieces = g.findall("Piece")
    need(len(pieces) == 1, "one piece")
    p = pieces[0]
    npt, ncell = int(p.get("NumberOfPoints")), int(p.get("NumberOfCells"))
    pa = p.find("Points").findall("DataArray")
    need(len(pa) == 1 and pa[0].get("NumberOfComponents") == "3", "points")
    pts = vtu_array(pa[0], root).reshape(-1, 3)
    need(len(pts) == npt, "number of points")
    c = {e.get("Name"): vtu_array(e, root) for e in p.find("Cells").findall("DataArray")}
    need({"connectivity", "offsets", "types"} <= set(c), "cells")
    need(len(c["types"]) == ncell, "number of cells")
    if (c["types"] == 42).any():
        blocks, mem = polyhedra(c)
    else:
        blocks, mem = cells_of(c["connectivity"].reshape(-1), c["offsets"], c["types"])
    pd, cd = {}, {}
    for tag, out, n in (("PointData", pd, npt), ("CellData", cd, ncell)):
        s = p.find(tag)
        for e in (s.findall("DataArray") if s is not None else []):
            v = vtu_array(e, root)
            if e.get("NumberOfComponents") == "1":
                v = v.reshape(-1, 1)
            need(len(v) == n, f"{tag} {e.get('Name')}: {len(v)} tuples for {n}")
            need(e.get("Name") not in out, f"{tag} {e.get('Name')} twice")
            out[e.get("Name")] = v
    return D(pts, blocks, pd, {k: split(v, mem) for k, v in cd.items()})
