"""Text formats."""
import gzip
import re

import numpy as np

from .. import spec
from ..ref import NN
from . import D, Bad, Block, group_runs, need, reorder, split


def lines(path, comment=None, enc="utf-8"):
    op = gzip.open if open(path, "rb").read(2) == b"\x1f\x8b" else open
    with op(path, "rt", encoding=enc) as f:
        for line in f:
            if comment is not None:
                line = line.split(comment)[0]
            if line.strip():
                yield line.rstrip("\n")


def rows_by_id(ids, rows, pids):
    at = {p: i for i, p in enumerate(pids)}
    need(len(at) == len(pids), "node ids are unique")
    try:
        return [[at[x] for x in r] for r in rows]
    except KeyError as e:
        raise Bad(f"cell refers to undefined node {e}")


# ---------------------------------------------------------------- Abaqus
ABAQUS = [("C3D4", "tetra"), ("C3D5", "pyramid"), ("C3D6", "wedge"), ("C3D8", "hexahedron"), ("C3D10", "tetra10"),
          ("C3D15", "wedge15"), ("C3D20", "hexahedron20"), ("C3D27", "hexahedron27"), ("STRI3", "triangle"),
          ("STRI65", "triangle6"), ("T2D2", "line"), ("T3D2", "line"), ("T2D3", "line3"), ("T3D3", "line3"),
          ("B21", "line"), ("B31", "line"), ("B23", "line"), ("B33", "line"), ("B22", "line3"), ("B32", "line3"),
          ("R3D3", "triangle"), ("R3D4", "quad"), ("CONN3D2", "line")]
for _f in ("CPS", "CPE", "CAX", "S", "M3D", "SFM3D", "DC2D"):
    ABAQUS += [(_f + "3", "triangle"), (_f + "4", "quad"), (_f + "6", "triangle6"), (_f + "8", "quad8"),
               (_f + "9", "quad9")]


def abaqus_type(name):
    best = None
    for k, v in ABAQUS:
        # trailing letters (and the 5 of five-dof shells) are formulation variants
        if re.fullmatch(re.escape(k) + r"(R?5|[A-Z]*)", name):
            best = v
    need(best, f"element type {name}")
    return best


def abaqus(path):
    pts, pids, cells, types = [], [], [], []
    mode = None
    nsets, elsets = {}, {}
    eids = []
    for l in lines(path):
        if l.startswith("**"):
            continue
        if l.startswith("*"):
            p = [x.strip() for x in l.split(",")]
            opt = {}
            for x in p[1:]:
                k, _, v = x.partition("=")
                opt[k.strip().upper()] = v.strip()
            mode = p[0].upper()
            continue
        v = [x.strip() for x in l.split(",")]
        if mode == "*NODE":
            pids.append(int(v[0]))
            pts.append([float(x) for x in v[1:]])
        elif mode == "*ELEMENT":
            t = abaqus_type(opt["TYPE"].upper())
            if cells and need_more:
                cells[-1] += [int(x) for x in v if x]
            else:
                eids.append(int(v[0]))
                types.append((t, id(opt)))
                cells.append([int(x) for x in v[1:] if x])
            need_more = v[-1] == ""
            need(need_more or len(cells[-1]) == NN[t], f"{t} with {len(cells[-1])} nodes")
        elif mode == "*NSET":
            nsets.setdefault(opt["NSET"], []).extend(int(x) for x in v if x)
        elif mode == "*ELSET":
            elsets.setdefault(opt["ELSET"], []).extend(int(x) for x in v if x)
        elif mode != "*HEADING":
            raise Bad(f"data line in {mode}")
    need(len(set(eids)) == len(eids), "element ids are unique")
    rows = rows_by_id(eids, cells, pids)
    blocks, mem = group_runs(types, rows)
    for b in blocks:
        b.type = b.type[0]
    at = {e: i for i, e in enumerate(eids)}
    pat = {e: i for i, e in enumerate(pids)}
    cs = {}
    for k, v in elsets.items():
        w = {at[e] for e in v}
        cs[k] = [[j for j, i in enumerate(m) if i in w] for m in mem]
    return D(pts, blocks, point_sets={k: sorted(pat[x] for x in v) for k, v in nsets.items()}, cell_sets=cs)


# ---------------------------------------------------------------- Nastran
NASTRAN = {("CBEAM", 2): "line", ("CBAR", 2): "line", ("CROD", 2): "line", ("CBUSH", 2): "line", ("CBUSH1D", 2): "line",
           ("CGAP", 2): "line", ("CTUBE", 2): "line",
           ("CTRIA3", 3): "triangle", ("CTRAX3", 3): "triangle", ("CTRIAR", 3): "triangle", ("CTRIA6", 6): "triangle6",
           ("CTRAX6", 6): "triangle6x", ("CTRIAX6", 6): "triangle6x", ("CTRIAX", 6): "triangle6",
           ("CQUAD4", 4): "quad", ("CQUADR", 4): "quad", ("CQUADX4", 4): "quad",
           ("CQUAD8", 8): "quad8", ("CQUADX8", 8): "quad8", ("CQUAD", 9): "quad9", ("CQUADX", 9): "quad9",
           ("CTETRA", 4): "tetra", ("CTETRA", 10): "tetra10", ("CPYRA", 5): "pyramid", ("CPYRAM", 5): "pyramid",
           ("CPYRA", 13): "pyramid13", ("CPYRAM", 13): "pyramid13", ("CPENTA", 6): "wedge", ("CPENTA", 15): "wedge15",
           ("CHEXA", 8): "hexahedron", ("CHEXA", 20): "hexahedron20", ("CELAS1", 1): "vertex", ("CELAS2", 1): "vertex",
           ("CCONEAX", 2): "line"}


def nastran_real(s):
    s = s.strip().upper().replace("D", "E")
    need("." in s, f"real number without decimal point {s!r}")
    m = re.fullmatch(r"([+-]?(?:\d+\.\d*|\.\d+))(?:E?([+-]?\d+))?", s)
    need(m, f"real number {s!r}")
    return float(m.group(1) + "e" + (m.group(2) or "0"))


def nastran_cards(path):
    """Logical cards (lists of fields; name first) of a bulk data section."""
    cur = None
    bulk = False
    for l in lines(path, "$"):
        l = l.rstrip()
        if not l:
            continue
        if l.strip().upper() == "BEGIN BULK":
            bulk = True
            continue
        if l.strip().upper() == "ENDDATA":
            break
        need(bulk, "bulk data outside the bulk section")
        if "," in l:
            f = [x.strip() for x in l.split(",")]
            need(len(f) <= 10 and all(len(x) <= 16 for x in f), f"free-format line {l!r}")
            cont = f[0] == "" or f[0][0] in "+*"
            body = f[1:9]
        else:
            need(len(l) <= 80, f"line of {len(l)} characters")
            first = l[:8].strip()
            large = first.endswith("*") or first.startswith("*")
            w = 16 if large else 8
            body = [l[8 + i * w:8 + (i + 1) * w] for i in range(4 if large else 8)]
            for x in body:
                # a field is a single word, and data may not run over from its neighbour
                need(" " not in x.strip(), f"field {x!r}")
            body = [x.strip() for x in body]
            rest = l[72:].strip()
            need(rest == "" or rest[0] in "+*", f"columns 73-80 {rest!r}")
            f = [first]
            cont = first == "" or first[0] in "+*"
        if cont:
            need(cur is not None, "continuation without a card")
            cur += body
        else:
            if cur:
                yield cur
            cur = [f[0].rstrip("*").upper()] + body
            # a large-field line holds the first half of the fields
    if cur:
        yield cur


def nastran(path):
    pts, pids, rows, types, refs, eids, prefs = [], [], [], [], [], [], []
    for c in nastran_cards(path):
        if c[0] == "GRID":
            pids.append(int(c[1]))
            prefs.append(c[2])
            pts.append([nastran_real(x) if x else 0.0 for x in c[3:6]])
        else:
            nod = [int(x) for x in c[3:] if x]
            # no blanks between node ids
            gap = [bool(x) for x in c[3:]]
            need(gap == sorted(gap, reverse=True), f"blank field among the nodes of {c}")
            k = (c[0], len(nod))
            need(k in NASTRAN, f"card {c[0]} with {len(nod)} nodes")
            t = NASTRAN[k]
            eids.append(int(c[1]))
            refs.append(c[2])
            types.append(t)
            rows.append(nod)
    need(len(set(eids)) == len(eids), "element ids unique")
    rows = rows_by_id(eids, rows, pids)
    out = []
    for t, r in zip(types, rows):
        if t == "triangle6x":  # nodes in order around the triangle
            r = [r[i] for i in (0, 2, 4, 1, 3, 5)]
            t = "triangle6"
        p = spec.perm(t, spec.NASTRAN)
        out.append((t, [r[i] for i in p]))
    blocks, mem = group_runs([t for t, _ in out], [r for _, r in out])
    cd, pd = {}, {}
    if any(refs):
        cd["nastran:ref"] = split([int(x) if x else -1 for x in refs], mem)
    if any(prefs):
        pd["nastran:ref"] = np.array([int(x) if x else -1 for x in prefs])
    return D(pts, blocks, pd, cd)


# ---------------------------------------------------------------- AVS UCD
AVS = {"pt": ("vertex", [0]), "line": ("line", [0, 1]), "tri": ("triangle", [0, 1, 2]), "quad": ("quad", [0, 1, 2, 3]),
       "tet": ("tetra", [0, 1, 3, 2]), "pyr": ("pyramid", [1, 2, 3, 4, 0]),
       "prism": ("wedge", [3, 4, 5, 0, 1, 2]), "hex": ("hexahedron", [4, 5, 6, 7, 0, 1, 2, 3])}


def avsucd(path):
    it = (l for l in lines(path) if not l.startswith("#"))
    n, m, nd, cdn, _ = (int(x) for x in next(it).split())
    pids, pts = [], []
    for _ in range(n):
        v = next(it).split()
        need(len(v) == 4, "node line")
        pids.append(int(v[0]))
        pts.append([float(x) for x in v[1:]])
    types, rows, mat, eids = [], [], [], []
    for _ in range(m):
        v = next(it).split()
        need(v[2] in AVS, f"cell type {v[2]}")
        t, p = AVS[v[2]]
        need(len(v) == 3 + len(p), f"{v[2]} with {len(v) - 3} nodes")
        eids.append(int(v[0]))
        mat.append(int(v[1]))
        nod = [int(x) for x in v[3:]]
        types.append(t)
        rows.append([nod[i] for i in p])
    rows = rows_by_id(eids, rows, pids)
    blocks, mem = group_runs(types, rows)

    def data(ids, total):
        if not total:
            return {}
        h = [int(x) for x in next(it).split()]
        need(len(h) == 1 + h[0] and sum(h[1:]) == total, f"component header {h} total {total}")
        names = []
        for _ in range(h[0]):
            names.append(next(it).rpartition(",")[0].strip())
        vals = {}
        for _ in ids:
            v = next(it).split()
            need(len(v) == 1 + total, "data line")
            vals[int(v[0])] = [float(x) for x in v[1:]]
        a = np.array([vals[i] for i in ids])
        out, p = {}, 0
        for nm, k in zip(names, h[1:]):
            out[nm] = a[:, p] if k == 1 else a[:, p:p + k]
            p += k
        return out
    pd = data(pids, nd)
    cd = {k: split(v, mem) for k, v in data(eids, cdn).items()}
    cd["avsucd:material"] = split(mat, mem)
    need(next(it, None) is None, "trailing lines")
    return D(pts, blocks, pd, cd)


# ---------------------------------------------------------------- DOLFIN XML
def dolfin(path):
    import glob
    import os
    import xml.etree.ElementTree as ET
    root = ET.parse(path).getroot()
    need(root.tag == "dolfin", "root")
    m = root.find("mesh")
    ct, dim = m.get("celltype"), int(m.get("dim"))
    t = {"triangle": "triangle", "tetrahedron": "tetra"}[ct]
    vs = m.find("vertices")
    n = int(vs.get("size"))
    pts = np.full((n, dim), np.nan)
    seen = set()
    for v in vs:
        i = int(v.get("index"))
        seen.add(i)
        pts[i] = [float(v.get(c)) for c in "xyz"[:dim]]
    need(seen == set(range(n)), "vertices")
    cs = m.find("cells")
    k = int(cs.get("size"))
    rows = np.full((k, NN[t]), -1)
    seen = set()
    for c in cs:
        need(c.tag == ct, "cell tag")
        i = int(c.get("index"))
        seen.add(i)
        rows[i] = [int(c.get(f"v{j}")) for j in range(NN[t])]
    need(seen == set(range(k)), "cells")
    cd = {}
    base, stem = os.path.dirname(path), os.path.splitext(os.path.basename(path))[0]
    for f in glob.glob(os.path.join(glob.escape(base), glob.escape(stem) + "_*.xml")):
        r = ET.parse(f).getroot()
        mf = r.find("mesh_function")
        need(int(mf.get("size")) == k, "mesh function size")
        vals = [None] * k
        for e in mf:
            vals[int(e.get("index"))] = e.get("value")
        ty = mf.get("type")
        cd[os.path.basename(f)[len(stem) + 1:-4]] = [np.array(
            [float(x) if ty in ("float", "double") else int(x) for x in vals],
            dtype="f8" if ty in ("float", "double") else "u8" if ty == "uint" else "i8")]
    return D(pts, [(t, rows)], None, cd)


# ---------------------------------------------------------------- Medit
MEDIT = {"Edges": ("line", 5), "Triangles": ("triangle", 6), "Quadrilaterals": ("quad", 7), "Tetrahedra": ("tetra", 8),
         "Prisms": ("wedge", 9), "Hexahedra": ("hexahedron", 10), "Pyramids": ("pyramid", 49)}


def medit(path):
    if path.endswith("b"):
        return meditb(path)
    tok = []
    for l in lines(path, "#"):
        tok += l.split()
    p = 0

    def nxt():
        nonlocal p
        p += 1
        return tok[p - 1]
    need(nxt() == "MeshVersionFormatted", "header")
    need(nxt() in "1234", "version")
    dim = None
    pts, prefs, blocks, refs = None, None, [], []
    while True:
        k = nxt()
        if k == "End":
            break
        if k == "Dimension":
            dim = int(nxt())
        elif k == "Vertices":
            n = int(nxt())
            a = [[float(nxt()) for _ in range(dim)] + [int(nxt())] for _ in range(n)]
            pts = np.array([r[:dim] for r in a])
            prefs = np.array([r[dim] for r in a])
        elif k in MEDIT:
            t = MEDIT[k][0]
            n = int(nxt())
            a = [[int(nxt()) for _ in range(NN[t] + 1)] for _ in range(n)]
            blocks.append((t, np.array([r[:-1] for r in a], dtype="i8").reshape(n, -1) - 1))
            refs.append(np.array([r[-1] for r in a], dtype="i8"))
        else:
            raise Bad(f"keyword {k}")
    need(p == len(tok), "text after End")
    return D(pts, blocks, {"medit:ref": prefs}, {"medit:ref": refs})


def meditb(path):
    b = open(path, "rb").read()
    import struct
    code, ver = struct.unpack_from("<2i", b, 0)
    need(code == 1 and ver in (1, 2, 3, 4), "header")
    pt = "<i" if ver < 3 else "<q"
    it = "i4" if ver < 4 else "i8"
    ft = "f4" if ver == 1 else "f8"
    pos = 8
    byid = {v[1]: v[0] for v in MEDIT.values()}
    dim = pts = prefs = None
    blocks, refs = [], []
    while True:
        (key,) = struct.unpack_from("<i", b, pos)
        (nxt,) = struct.unpack_from(pt, b, pos + 4)
        q = pos + 4 + struct.calcsize(pt)
        if key == 54:
            need(q == len(b), "bytes after End")
            break
        if key == 3:
            (dim,) = struct.unpack_from("<i", b, q)
            q += 4
        else:
            n = int(np.frombuffer(b, "<" + it, 1, q)[0])
            q += np.dtype(it).itemsize
            if key == 4:
                dt = np.dtype([("x", "<" + ft, dim), ("r", "<" + it)])
                a = np.frombuffer(b, dt, n, q)
                pts, prefs = a["x"], a["r"]
            else:
                need(key in byid, f"keyword {key}")
                t = byid[key]
                dt = np.dtype([("v", "<" + it, NN[t]), ("r", "<" + it)])
                a = np.frombuffer(b, dt, n, q)
                blocks.append((t, a["v"].astype("i8").reshape(n, -1) - 1))
                refs.append(a["r"])
            q += n * dt.itemsize
        need(nxt == q, f"next keyword at {nxt}, section {key} ends at {q}")
        pos = nxt
    return D(pts, blocks, {"medit:ref": prefs}, {"medit:ref": refs})


# ---------------------------------------------------------------- Netgen
def netgen(path):
    it = iter(list(lines(path, "#")))
    need(next(it).strip() == "mesh3d", "header")
    dim = None
    blocks, idx = [], []
    pts = np.zeros((0, 3))
    names = {}
    ident = itypes = None

    def add(rows):
        b, mem = group_runs([r[0] for r in rows], [r[1] for r in rows])
        for x in b:
            x.data = reorder(x.type, x.data, spec.perm(x.type, spec.NETGEN, spec.NETGEN_VERT)) - 1
        blocks.extend(b)
        idx.extend(split([r[2] for r in rows], mem))
    for l in it:
        k = l.strip()
        if k == "dimension":
            dim = int(next(it))
        elif k == "geomtype":
            next(it)
        elif k == "points":
            n = int(next(it))
            pts = np.array([[float(x) for x in next(it).split()] for _ in range(n)]).reshape(n, 3)
        elif k == "surfaceelements":
            rows = []
            for _ in range(int(next(it))):
                v = [int(x) for x in next(it).split()]
                np_ = v[4]
                need(len(v) == 5 + np_, f"surface element {v}")
                rows.append(({3: "triangle", 4: "quad", 6: "triangle6", 8: "quad8"}[np_], v[5:], v[1]))
            add(rows)
        elif k == "volumeelements":
            rows = []
            for _ in range(int(next(it))):
                v = [int(x) for x in next(it).split()]
                np_ = v[1]
                need(len(v) == 2 + np_, f"volume element {v}")
                rows.append(({4: "tetra", 5: "pyramid", 6: "wedge", 8: "hexahedron", 10: "tetra10", 13: "pyramid13",
                              15: "wedge15", 20: "hexahedron20"}[np_], v[2:], v[0]))
            add(rows)
        elif k == "edgesegmentsgi2":
            rows = []
            for _ in range(int(next(it))):
                v = [int(float(x)) for x in next(it).split()]
                need(len(v) == 12, f"segment {v}")
                rows.append(("line", v[2:4], v[0]))
            add(rows)
        elif k == "pointelements":
            rows = []
            for _ in range(int(next(it))):
                v = [int(x) for x in next(it).split()]
                need(len(v) == 2, f"point element {v}")
                rows.append(("vertex", v[:1], v[1]))
            add(rows)
        elif k in ("materials", "bcnames", "cd2names", "cd3names"):
            n = int(next(it))
            for _ in range(n):
                v = next(it).strip().split(None, 1)
                names[(k, int(v[0]))] = v[1] if len(v) > 1 else ""
        elif k == "identifications":
            n = int(next(it))
            ident = [[int(x) for x in next(it).split()] for _ in range(n)]
        elif k == "identificationtypes":
            n = int(next(it))
            itypes = np.array([[int(x) for x in next(it).split()]])
            need(itypes.size == n, "number of identification types")
        elif k == "endmesh":
            break
        else:
            raise Bad(f"token {k!r}")
    return D(pts[:, :dim] if dim == 2 else pts, blocks, None, {"netgen:index": idx}, names=names, ident=ident, itypes=itypes)


# ---------------------------------------------------------------- OBJ, OFF
def obj(path):
    pts, rows = [], []
    for l in lines(path, "#"):
        v = l.split()
        if v[0] == "v":
            need(len(v) == 4, "vertex")
            pts.append([float(x) for x in v[1:]])
        elif v[0] == "f":
            r = [int(x.split("/")[0]) for x in v[1:]]
            need(len(r) >= 3 and min(r) >= 1 and max(r) <= len(pts), f"face {r}")
            rows.append([x - 1 for x in r])
        else:
            need(v[0] in ("vn", "vt", "s", "g", "o", "usemtl"), f"keyword {v[0]}")
    t = {3: "triangle", 4: "quad"}
    blocks, _ = group_runs([t.get(len(r), "polygon") for r in rows], rows)
    return D(pts, blocks)


def off(path):
    l = list(lines(path, "#"))
    need(l[0].strip() == "OFF", "header")
    n, m, _ = (int(x) for x in l[1].split())
    pts = [[float(x) for x in s.split()] for s in l[2:2 + n]]
    need(all(len(p) == 3 for p in pts), "vertices have three coordinates")
    rows = []
    for s in l[2 + n:]:
        v = [int(x) for x in s.split()]
        need(len(v) == 1 + v[0], f"face {v}")
        rows.append(v[1:])
    need(len(rows) == m, "number of faces")
    blocks, _ = group_runs([{3: "triangle"}.get(len(r), "polygon") for r in rows], rows)
    return D(pts, blocks)


# ---------------------------------------------------------------- PERMAS
PERMAS = {"PLOT1": "vertex", "PLOTL2": "line", "FLA2": "line", "BECOS": "line", "BECOC": "line", "BETAC": "line",
          "BECOP": "line", "BETOP": "line", "BEAM2": "line", "FSCPIPE2": "line", "FLA3": "line3", "PLOTL3": "line3",
          "LOADA4": "quad", "PLOTA4": "quad", "QUAD4": "quad", "QUAD4S": "quad", "QUAMS4": "quad", "SHELL4": "quad",
          "PLOTA8": "quad8", "LOADA8": "quad8", "QUAMS8": "quad8", "PLOTA9": "quad9", "LOADA9": "quad9",
          "QUAMS9": "quad9", "PLOTA3": "triangle", "SHELL3": "triangle", "TRIA3": "triangle", "TRIA3K": "triangle",
          "TRIA3S": "triangle", "TRIMS3": "triangle", "LOADA6": "triangle6", "TRIMS6": "triangle6",
          "HEXE8": "hexahedron", "HEXFO8": "hexahedron", "HEXE20": "hexahedron20", "HEXE27": "hexahedron27",
          "TET4": "tetra", "TET10": "tetra10", "PYRA5": "pyramid", "PENTA6": "wedge", "PENTA15": "wedge15"}
# position in the PERMAS element of meshio's node i
PERMAS_ORDER = {"triangle6": [0, 2, 4, 1, 3, 5], "tetra10": [0, 2, 4, 9, 1, 3, 5, 6, 7, 8],
                "quad9": [0, 2, 8, 6, 1, 5, 7, 3, 4],
                # pinned
                "wedge15": [0, 2, 4, 9, 11, 13, 1, 3, 5, 6, 7, 8, 10, 12, 14]}


def permas(path):
    pts, pids, types, rows, eids = [], [], [], [], []
    mode, k = None, 0
    for l in lines(path, "!"):
        l = l.strip()
        if l.startswith("$"):
            w = l[1:].upper().split()
            mode = w[0]
            if mode == "ELEMENT":
                k += 1
                name = w[1].split("=")[1]
                need(name in PERMAS, f"element {name}")
                t = PERMAS[name]
            continue
        v = l.split()
        if mode == "COOR":
            pids.append(int(v[0]))
            pts.append([float(x) for x in v[1:]])
            need(len(v) == 4, "three coordinates")
        elif mode == "ELEMENT":
            eids.append(int(v[0]))
            need(len(v) == 1 + NN[t], f"{t} with {len(v) - 1} nodes")
            types.append((t, k))
            rows.append([int(x) for x in v[1:]])
    need(len(set(eids)) == len(eids), "element ids unique")
    blocks, _ = group_runs(types, rows_by_id(eids, rows, pids))
    for b in blocks:
        b.type = b.type[0]
        b.data = reorder(b.type, b.data, PERMAS_ORDER.get(b.type))
    return D(pts, blocks)


# ---------------------------------------------------------------- SU2
SU2 = {3: "line", 5: "triangle", 9: "quad", 10: "tetra", 12: "hexahedron", 13: "wedge", 14: "pyramid"}


def su2(path):
    it = iter(list(lines(path, "%")))
    dim = None
    types, rows, mark = [], [], []
    nmark = 0
    pts = []

    def elem(l, tag):
        v = [int(x) for x in l.split()]
        t = SU2[v[0]]
        need(len(v) - 1 - NN[t] in (0, 1), f"element {v}")
        types.append(t)
        rows.append(v[1:1 + NN[t]])
        mark.append(tag)
    for l in it:
        k, _, v = l.partition("=")
        k = k.strip().upper()
        if k == "NDIME":
            dim = int(v)
        elif k == "NPOIN":
            for _ in range(int(v.split()[0])):
                w = next(it).split()
                need(len(w) in (dim, dim + 1), "point")
                pts.append([float(x) for x in w[:dim]])
        elif k == "NELEM":
            for _ in range(int(v)):
                elem(next(it), 0)
                need(types[-1] in (("triangle", "quad") if dim == 2 else
                                   ("tetra", "hexahedron", "wedge", "pyramid")), "inner element")
        elif k == "NMARK":
            nmark = int(v)
        elif k == "MARKER_TAG":
            tag = v.strip()
            nmark -= 1
        elif k == "MARKER_ELEMS":
            for _ in range(int(v)):
                elem(next(it), tag)
                need(types[-1] in (("line",) if dim == 2 else ("triangle", "quad")), "boundary element")
        else:
            raise Bad(f"keyword {k}")
    need(nmark == 0, "number of markers")
    blocks, mem = group_runs(types, rows)
    return D(np.array(pts).reshape(-1, dim), blocks, marks=[[mark[i] for i in m] for m in mem])


# ---------------------------------------------------------------- Tecplot
def tecplot(path):
    txt = open(path).read()
    m = re.search(r"VARIABLES\s*=\s*((?:\"[^\"]*\"[\s,]*)+)", txt, re.I)
    need(m, "VARIABLES")
    names = re.findall(r'"([^"]*)"', m.group(1))
    need(len(set(names)) == len(names), "variable names are unique")
    rest = txt[m.end():]
    need(rest.strip().upper().startswith("ZONE"), "ZONE")
    hdr = []
    body = []
    state = 0
    for l in rest.strip().splitlines():
        if state == 0 and re.search("[A-Za-z]{3,}|=", l):
            hdr.append(l)
        else:
            state = 1
            body += l.split()
    h = " ".join(hdr)

    def opt(k):
        q = re.search(rf"\b{k}\s*=\s*([^\s,]+)", h, re.I)
        return q and q.group(1)
    n, c = int(opt("NODES")), int(opt("ELEMENTS"))
    need(opt("DATAPACKING") == "BLOCK", "DATAPACKING")
    zt = opt("ZONETYPE").upper()
    t = {"FELINESEG": "line", "FETRIANGLE": "triangle", "FEQUADRILATERAL": "quad", "FETETRAHEDRON": "tetra",
         "FEBRICK": "hexahedron"}[zt]
    cc = set()
    q = re.search(r"VARLOCATION\s*=\s*\(\[([^]]*)\]\s*=\s*CELLCENTERED\)", h, re.I)
    if q:
        for r in q.group(1).split(","):
            a, _, b = r.partition("-")
            cc |= set(range(int(a), int(b or a) + 1))
    need(all(1 <= x <= len(names) for x in cc), f"VARLOCATION {sorted(cc)} of {len(names)} variables")
    p = 0
    pd, cd = {}, {}
    for i, nm in enumerate(names, 1):
        k = c if i in cc else n
        v = np.array([float(x) for x in body[p:p + k]])
        need(len(v) == k, "data too short")
        p += k
        (cd if i in cc else pd)[nm] = v
    rows = np.array([int(x) for x in body[p:]], dtype="i8")
    need(len(rows) == c * NN[t], f"{len(rows)} connectivity entries for {c} {zt}")
    rows = rows.reshape(c, -1) - 1
    xyz = [pd.pop(k) for k in ("X", "Y", "Z") if k in pd]
    return D(np.stack(xyz, axis=1), [(t, rows)], pd, {k: [v] for k, v in cd.items()})


# ---------------------------------------------------------------- TetGen
def tetgen(path):
    import os
    stem = os.path.splitext(path)[0]
    it = iter(list(lines(stem + ".node", "#")))
    n, dim, na, nb = (int(x) for x in next(it).split())
    need(dim == 3 and nb in (0, 1), "node header")
    pids, pts, at = [], [], []
    for l in it:
        v = l.split()
        need(len(v) == 1 + 3 + na + nb, f"node line {l!r}")
        pids.append(int(v[0]))
        pts.append([float(x) for x in v[1:4]])
        at.append(v[4:])
    need(len(pts) == n, "number of nodes")
    it = iter(list(lines(stem + ".ele", "#")))
    m, k, ne = (int(x) for x in next(it).split())
    need(k == 4, "nodes per tetrahedron")
    rows, eat = [], []
    for l in it:
        v = l.split()
        need(len(v) == 5 + ne, f"element line {l!r}")
        rows.append([int(x) for x in v[1:5]])
        eat.append(v[5:])
    need(len(rows) == m, "number of tetrahedra")
    need(pids[0] in (0, 1) and pids == list(range(pids[0], pids[0] + n)), "node numbering")
    return D(pts, [("tetra", np.array(rows_by_id(None, rows, pids), dtype="i8").reshape(m, 4))], attrs=at, eattrs=eat)


# ---------------------------------------------------------------- WKT
def wkt(path):
    s = open(path).read().strip()
    m = re.fullmatch(r"TIN(\s+Z)?\s*\((.*)\)", s, re.S)
    need(m, "TIN")
    z, body = m.group(1), m.group(2)
    num = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"
    tri = re.findall(r"\(\(([^()]*)\)\)", body)
    need(re.fullmatch(r"\s*(\(\([^()]*\)\)\s*(,\s*|$))*", body), "list of triangles")
    pts, rows, dims = [], [], set()
    for t in tri:
        v = [[float(x) for x in q.split()] for q in t.split(",")]
        need(re.fullmatch(rf"\s*({num}\s+{num}(\s+{num})?\s*(,\s*|$))*", t), "coordinates")
        need(len(v) == 4 and v[0] == v[3], "closed ring of three points")
        dims |= {len(x) for x in v}
        rows.append([len(pts), len(pts) + 1, len(pts) + 2])
        pts += v[:3]
    need(len(dims) <= 1 and not (z and 2 in dims), "one dimension throughout")
    dim = dims.pop() if dims else 3
    return D(np.array(pts).reshape(-1, dim), [("triangle", rows)] if rows else [])


# ---------------------------------------------------------------- MDPA
MDPA = {"Line": {2: "line", 3: "line3"}, "Triangle": {3: "triangle", 6: "triangle6"},
        "Quadrilateral": {4: "quad", 8: "quad8", 9: "quad9"}, "Tetrahedra": {4: "tetra", 10: "tetra10"},
        "Hexahedra": {8: "hexahedron", 20: "hexahedron20", 27: "hexahedron27"}, "Prism": {6: "wedge"},
        "Point": {1: "vertex"}}


def mdpa(path):
    stack = []
    pids, pts, types, rows, eids = [], [], [], [], []
    k = 0
    for l in lines(path, "//"):
        v = l.split()
        if v[0] == "Begin":
            stack.append(v[1])
            if v[1] in ("Elements", "Conditions"):
                k += 1
                m = re.match(r"([A-Z][a-z]+)([23])D(\d*)", v[2])
                need(m and m.group(1) in MDPA, f"element {v[2]}")
                w = int(m.group(3) or 1)
                t = MDPA[m.group(1)][w]
        elif v[0] == "End":
            need(stack and stack.pop() == v[1], f"End {v[1]}")
        elif stack[-1] == "Nodes":
            pids.append(int(v[0]))
            pts.append([float(x) for x in v[1:]])
            need(len(v) == 4, "node")
        elif stack[-1] in ("Elements", "Conditions"):
            eids.append(int(v[0]))
            need(len(v) == 2 + NN[t], f"{t} with {len(v) - 2} nodes")
            types.append(t)
            rows.append([int(x) for x in v[2:]])
    need(not stack, "unclosed section")
    blocks, _ = group_runs(types, rows_by_id(eids, rows, pids))
    return D(pts, blocks)


# ---------------------------------------------------------------- SVG (2-D, output only)
