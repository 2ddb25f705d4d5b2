"""Binary and HDF5/netCDF formats."""
import re
import struct

import numpy as np

from .. import spec
from ..ref import NN
from . import D, Bad, Block, group_runs, need, split


# ---------------------------------------------------------------- Exodus II
EXO = {("SPHERE", 1): "vertex", ("CIRCLE", 1): "vertex", ("BEAM", 2): "line", ("BEAM", 3): "line3", ("TRUSS", 2): "line",
       ("TRUSS", 3): "line3", ("BAR", 2): "line", ("BAR", 3): "line3", ("EDGE", 2): "line", ("EDGE", 3): "line3",
       ("TRI", 3): "triangle", ("TRI", 6): "triangle6", ("TRIANGLE", 3): "triangle", ("TRIANGLE", 6): "triangle6",
       ("QUAD", 4): "quad", ("QUAD", 8): "quad8", ("QUAD", 9): "quad9", ("SHELL", 4): "quad", ("SHELL", 8): "quad8",
       ("SHELL", 9): "quad9", ("TET", 4): "tetra", ("TET", 10): "tetra10", ("TETRA", 4): "tetra",
       ("TETRA", 10): "tetra10", ("PYRAMID", 5): "pyramid", ("WEDGE", 6): "wedge", ("HEX", 8): "hexahedron",
       ("HEX", 20): "hexahedron20", ("HEX", 27): "hexahedron27"}


def _strings(var):
    out = []
    for row in np.ma.filled(var[:], b"\0"):
        out.append(b"".join(row.tolist()).split(b"\0")[0].decode().strip())
    return out


def exodus(path):
    import netCDF4
    with netCDF4.Dataset(path) as f:
        f.set_auto_mask(False)
        nd = len(f.dimensions["num_dim"])
        nn = len(f.dimensions["num_nodes"])
        if "coord" in f.variables:
            pts = np.asarray(f.variables["coord"][:]).T
        else:
            pts = np.stack([np.asarray(f.variables["coord" + c][:]) for c in "xyz"[:nd]], axis=1)
        need(pts.shape == (nn, nd), f"coordinates {pts.shape} for {nn} nodes of dimension {nd}")
        nb = len(f.dimensions["num_el_blk"])
        ids = np.asarray(f.variables["eb_prop1"][:])
        need(len(set(ids.tolist())) == nb, "block ids are unique")
        blocks, total = [], 0
        for k in range(1, nb + 1):
            v = f.variables[f"connect{k}"]
            c = np.asarray(v[:]).astype("i8")
            name = re.match("[A-Za-z]+", v.elem_type).group().upper()
            t = EXO.get((name, c.shape[1]))
            need(t, f"element type {v.elem_type} with {c.shape[1]} nodes")
            need(c.size == 0 or c.min() >= 1 and c.max() <= nn, "connectivity refers to existing nodes (1-based)")
            p = spec.perm(t, spec.EXODUS)
            blocks.append(Block(t, c[:, p] - 1))
            total += len(c)
        need(total == len(f.dimensions["num_elem"]), "num_elem")
        pd = {}
        if "name_nod_var" in f.variables:
            for k, n in enumerate(_strings(f.variables["name_nod_var"]), 1):
                v = np.asarray(f.variables[f"vals_nod_var{k}"][:])
                need(len(v) == 1, "one time step")
                pd[n] = v[0]
        ps = {}
        if "ns_names" in f.variables:
            for k, n in enumerate(_strings(f.variables["ns_names"]), 1):
                ps[n] = np.asarray(f.variables[f"node_ns{k}"][:]).astype("i8") - 1
        return D(pts, blocks, pd, point_sets=ps)


# ---------------------------------------------------------------- ANSYS (Fluent) mesh
ANSYS = {1: "triangle", 2: "tetra", 3: "quad", 4: "hexahedron", 5: "pyramid", 6: "wedge"}


def ansys(path):
    """Sections of ANSYS/Fluent mesh files; cells are stored (as meshio does) as node lists in the
    body of the cell sections."""
    b = open(path, "rb").read()
    p = 0
    pts, blocks, dim = None, [], None
    ncells = nnodes = None
    while True:
        m = re.compile(rb"\s*").match(b, p)
        p = m.end()
        if p >= len(b):
            break
        m = re.compile(rb"\((\d+)\s*").match(b, p)
        need(m, f"section start at {p}: {b[p:p + 30]!r}")
        idx = m.group(1).decode()
        if idx in ("0", "1"):
            m2 = re.compile(rb'\s*"[^"]*"\)').match(b, m.end())
            need(m2, "comment section")
            p = m2.end()
            continue
        if idx == "2":
            m2 = re.compile(rb"(\d+)\)").match(b, m.end())
            dim = int(m2.group(1))
            p = m2.end()
            continue
        m2 = re.compile(rb"\(([0-9a-fA-F ]+)\)").match(b, m.end())
        need(m2, f"section header {idx}")
        h = [int(x, 16) for x in m2.group(1).split()]
        p = m2.end()
        kind = idx[-2:]
        need(kind in ("10", "12"), f"section {idx}")
        if h[0] == 0:
            need(b[p:p + 1] == b")", "declaration section ends")
            p += 1
            if kind == "10":
                nnodes = h[2] - h[1] + 1
            else:
                ncells = h[2] - h[1] + 1
            continue
        need(b[p:p + 1] == b"(", "section body")
        p += 1
        n = h[2] - h[1] + 1
        if kind == "10":
            w = h[4] if len(h) > 4 else dim
            need(h[1] == 1, "nodes are numbered from 1")
        else:
            t = ANSYS.get(h[4])
            need(t, f"cell type {h[4]}")
            w = NN[t]
        if len(idx) == 4:
            dt = {"3010": "<f8", "2010": "<f4", "2012": "<i4", "3012": "<i8"}.get(idx)
            need(dt, f"binary section {idx}")
            need(b[p:p + 1] == b"\n", "newline before binary data")
            p += 1
            size = n * w * np.dtype(dt).itemsize
            a = np.frombuffer(b[p:p + size], dt).reshape(n, w)
            p += size
            e = f"\n)End of Binary Section {idx})".encode()
            need(b[p:p + len(e)] == e, f"end of binary section at {p}: {b[p:p + 40]!r}")
            p += len(e)
        else:
            e = b.index(b")", p)
            tok = b[p:e].split()
            need(len(tok) == n * w, f"section {idx}: {len(tok)} values for {n} x {w}")
            a = np.array([float(x) if kind == "10" else int(x, 16) for x in tok]).reshape(n, w)
            need(b[e:e + 2] == b"))", "section end")
            p = e + 2
        if kind == "10":
            need(pts is None, "one node section")
            pts = a
        else:
            blocks.append(Block(t, a.astype("i8") - 1))
    need(dim == pts.shape[1], "dimension")
    need(nnodes == len(pts), f"{nnodes} nodes declared, {len(pts)} given")
    need(ncells == sum(map(len, blocks)), f"{ncells} cells declared, {sum(map(len, blocks))} given")
    return D(pts, blocks)


# ---------------------------------------------------------------- CGNS (as far as meshio goes)
def cgns(path):
    import h5py
    with h5py.File(path) as f:
        z = f["Base/Zone1"]
        pts = np.stack([z[f"GridCoordinates/Coordinate{c}/ data"][()] for c in "XYZ"], axis=1)
        a, e = z["GridElements/ElementRange/ data"][()]
        c = z["GridElements/ElementConnectivity/ data"][()]
        need(c.ndim == 1 and c.size == 4 * (e - a + 1), "connectivity of tetrahedra")
        return D(pts, [Block("tetra", c.reshape(-1, 4).astype("i8") - 1)])


# ---------------------------------------------------------------- H5M (MOAB)
def h5m(path):
    import h5py
    names = {"Edge": "line", "Tri": "triangle", "Tet": "tetra", "Quad": "quad", "Hex": "hexahedron", "Prism": "wedge",
             "Pyramid": "pyramid"}
    with h5py.File(path) as f:
        t = f["tstt"]
        co = t["nodes/coordinates"]
        first = int(co.attrs["start_id"])
        pts = co[()]
        pd = {k: v[()] for k, v in t["nodes"].get("tags", {}).items()}
        need(all(k in t["tags"] for k in pd), "dense tags are described in /tstt/tags")
        used = set(range(first, first + len(pts)))
        blocks, cds = [], []
        en = {v: k for k, v in h5py.check_dtype(enum=t["elemtypes"].dtype).items()}
        for k, g in t["elements"].items():
            c = g["connectivity"]
            ty = en[int(g.attrs["element_type"])]
            m = re.fullmatch(r"([A-Za-z]+)(\d+)", k)
            need(m and m.group(1) == ty and int(m.group(2)) == c.shape[1], f"group {k} of type {ty} {c.shape}")
            ids = range(int(c.attrs["start_id"]), int(c.attrs["start_id"]) + len(c))
            need(used.isdisjoint(ids), "handles of elements and nodes are disjoint")
            used.update(ids)
            blocks.append(Block(names[ty], c[()].astype("i8") - first))
            cds.append({n: v[()] for n, v in g.get("tags", {}).items()})
            need(all(n in t["tags"] for n in cds[-1]), "dense tags are described in /tstt/tags")
        need(int(t.attrs["max_id"]) >= max(used), "max_id")
        cd = {n: [c[n] for c in cds] for n in (cds[0] if cds else {})}
        return D(pts, blocks, pd, cd)


# ---------------------------------------------------------------- HMF (XDMF tags in HDF5)
def hmf(path):
    import h5py

    from .xdmf import TYPES as NAMES
    with h5py.File(path) as f:
        need(f.attrs["type"] == "hmf", "type")
        g = f["domain/grid"]
        pts = g["Geometry"][()]
        need(g["Geometry"].attrs["GeometryType"] == "XYZ"[:pts.shape[1]], "geometry type")
        blocks = []
        k = 0
        while f"Topology{k}" in g:
            tp = g[f"Topology{k}"]
            blocks.append(Block(NAMES[str(tp.attrs["TopologyType"]).lower()], tp[()]))
            k += 1
        need(sum(n.startswith("Topology") for n in g) == k, "topologies are numbered")
        pd = {n: v[()] for n, v in g["NodeAttributes"].items()}
        cd = {}
        ends = np.cumsum([len(b) for b in blocks])[:-1]
        for n, v in g["CellAttributes"].items():
            v = v[()]
            need(len(v) == sum(map(len, blocks)), f"cell attribute {n} length")
            cd[n] = np.split(v, ends)
        return D(pts, blocks, pd, cd)


# ---------------------------------------------------------------- MED
MED = {"PO1": "vertex", "SE2": "line", "SE3": "line3", "TR3": "triangle", "TR6": "triangle6", "QU4": "quad",
       "QU8": "quad8", "QU9": "quad9", "TE4": "tetra", "T10": "tetra10", "HE8": "hexahedron", "H20": "hexahedron20",
       "PY5": "pyramid", "P13": "pyramid13", "PE6": "wedge", "P15": "wedge15"}


def med(path):
    import h5py
    with h5py.File(path) as f:
        (m,) = f["ENS_MAA"].values()
        dim = int(m.attrs["ESP"])
        (ts,) = m.values()
        co = ts["NOE/COO"]
        n = int(co.attrs["NBR"])
        need(co.shape == (n * dim,), f"COO has {co.shape} values for {n} x {dim}")
        pts = co[()].reshape(dim, n).T  # all x, then all y, ...
        blocks, at, fam = [], {}, []
        for k, g in ts["MAI"].items():
            t = MED[k]
            c = g["NOD"]
            nb = int(c.attrs["NBR"])
            need(c.shape == (nb * NN[t],), f"{k}: NOD has {c.shape} values for {nb}")
            at[k] = len(blocks)
            blocks.append(Block(t, c[()].astype("i8").reshape(NN[t], nb).T - 1))
            fam.append(g["FAM"][()] if "FAM" in g else None)
        pd, cd = {}, {}
        for name, fl in f.get("CHA", {}).items():
            nco = int(fl.attrs["NCO"])
            need(int(fl.attrs["TYP"]) == 6, "MED_FLOAT64")
            (st,) = fl.values()
            for k, g in st.items():
                pf = g[g.attrs["PFL"].decode()]
                nv, ng = int(pf.attrs["NBR"]), int(pf.attrs["NGA"])
                v = pf["CO"][()]
                need(v.dtype == np.dtype("f8"), f"field {name} has type {v.dtype}")
                need(v.shape == (nco * ng * nv,), f"field {name}: {v.shape} values for {nv} x {ng} x {nco}")
                v = v.reshape(nco, ng, nv).transpose(2, 1, 0)
                v = v[:, 0] if k == "NOE" or k.startswith("MAI.") else v
                if nco == 1 and v.ndim == 2:
                    v = v[:, 0]
                if k == "NOE":
                    need(nv == n, "nodal field length")
                    pd[name] = v
                else:
                    b = at[k.split(".")[1]]
                    need(nv == len(blocks[b]), "cell field length")
                    cd.setdefault(name, [None] * len(blocks))[b] = v
        if all(x is not None for x in fam) and fam:
            cd["cell_tags"] = fam
        if "FAM" in ts["NOE"]:
            pd["point_tags"] = ts["NOE/FAM"][()]
        groups = {}
        for w in ("NOEUD", "ELEME"):
            (fa,) = f["FAS"].values()
            groups[w] = {}
            for k, g in fa.get(w, {}).items():
                nom = g["GRO/NOM"][()] if "GRO" in g else []
                if len(nom):
                    need(len(nom) == int(g["GRO"].attrs["NBR"]), "number of groups")
                groups[w][int(g.attrs["NUM"])] = [bytes(int(x) & 255 for x in r).split(b"\0")[0].decode() for r in nom]
        return D(pts, blocks, pd, cd, groups=groups)


# ---------------------------------------------------------------- Neuroglancer precomputed
def neuroglancer(path):
    b = open(path, "rb").read()
    (n,) = struct.unpack("<I", b[:4])
    need((len(b) - 4 - 12 * n) % 12 == 0, "size")
    pts = np.frombuffer(b[4:4 + 12 * n], "<f4").reshape(n, 3)
    tri = np.frombuffer(b[4 + 12 * n:], "<u4").reshape(-1, 3)
    return D(pts, [Block("triangle", tri)] if len(tri) else [])


# ---------------------------------------------------------------- PLY
PLYT = {"char": "i1", "int8": "i1", "uchar": "u1", "uint8": "u1", "short": "i2", "int16": "i2", "ushort": "u2",
        "uint16": "u2", "int": "i4", "int32": "i4", "uint": "u4", "uint32": "u4", "float": "f4", "float32": "f4",
        "double": "f8", "float64": "f8", "int64": "i8", "uint64": "u8"}


def ply(path):
    b = open(path, "rb").read()
    need(b.startswith(b"ply\n"), "magic")
    e = b.index(b"end_header\n")
    head = b[:e].decode().split("\n")[1:-1]
    els, fmt = [], None
    for l in head:
        w = l.split()
        if w[0] == "format":
            fmt = w[1]
            need(w[2] == "1.0", "version")
        elif w[0] == "element":
            need(len(w) == 3, l)
            els.append((w[1], int(w[2]), []))
        elif w[0] == "property":
            if w[1] == "list":
                need(len(w) == 5, l)
                els[-1][2].append((w[4], PLYT[w[2]], PLYT[w[3]]))
            else:
                need(len(w) == 3, f"property line {l!r}")
                els[-1][2].append((w[2], None, PLYT[w[1]]))
        else:
            need(w[0] in ("comment", "obj_info"), l)
    body = b[e + 11:]
    out = {}
    if fmt == "ascii":
        tok = body.decode().split("\n")
        need(tok[-1] == "", "final newline")
        tok = tok[:-1]
        p = 0
        for name, n, props in els:
            rows = []
            for l in tok[p:p + n]:
                w = l.split()
                q, row = 0, []
                for pn, ct, dt in props:
                    if ct:
                        c = int(w[q])
                        row.append(np.array([int(x) for x in w[q + 1:q + 1 + c]], dtype=dt))
                        need(len(row[-1]) == c, "list length")
                        q += 1 + c
                    else:
                        row.append(np.array(int(w[q]) if dt[0] in "iu" else float(w[q])).astype(dt)[()])
                        q += 1
                need(q == len(w), f"line {l!r}")
                rows.append(row)
            need(len(rows) == n, f"{n} {name}")
            p += n
            out[name] = (props, rows)
        need(p == len(tok), "no surplus lines")
    else:
        bo = {"binary_little_endian": "<", "binary_big_endian": ">"}[fmt]
        p = 0
        for name, n, props in els:
            rows = []
            for _ in range(n):
                row = []
                for pn, ct, dt in props:
                    if ct:
                        d = np.dtype(bo + ct)
                        c = int(np.frombuffer(body[p:p + d.itemsize], d)[0])
                        p += d.itemsize
                        d = np.dtype(bo + dt)
                        row.append(np.frombuffer(body[p:p + c * d.itemsize], d))
                        p += c * d.itemsize
                    else:
                        d = np.dtype(bo + dt)
                        row.append(np.frombuffer(body[p:p + d.itemsize], d)[0])
                        p += d.itemsize
                rows.append(row)
            out[name] = (props, rows)
        need(p == len(body), f"{len(body) - p} surplus bytes")
    props, rows = out["vertex"]
    cols = {pn: np.array([r[i] for r in rows], dtype=dt) for i, (pn, ct, dt) in enumerate(props)}
    pts = np.stack([cols.pop(k) for k in "xyz" if k in cols], axis=1)
    blocks = []
    if "face" in out:
        props, rows = out["face"]
        i = [k for k, pr in enumerate(props) if pr[0] in ("vertex_indices", "vertex_index")][0]
        name = {1: "vertex", 2: "line", 3: "triangle", 4: "quad"}
        blocks, _ = group_runs([name.get(len(r[i]), "polygon") for r in rows], [r[i] for r in rows])
    return D(pts, blocks, cols)


# ---------------------------------------------------------------- STL
def stl(path):
    b = open(path, "rb").read()
    if b[:5] == b"solid":
        w = b.decode().split("\n")
        need(w[0].split()[0] == "solid", "solid")
        nrm, tri, i = [], [], 1
        while w[i].split()[0] == "facet":
            f = w[i].split()
            need(f[:2] == ["facet", "normal"] and len(f) == 5, w[i])
            nrm.append([float(x) for x in f[2:]])
            need(w[i + 1].split() == ["outer", "loop"], w[i + 1])
            t = []
            for k in range(3):
                v = w[i + 2 + k].split()
                need(v[0] == "vertex" and len(v) == 4, w[i + 2 + k])
                t.append([float(x) for x in v[1:]])
            tri.append(t)
            need(w[i + 5].split() == ["endloop"] and w[i + 6].split() == ["endfacet"], "facet end")
            i += 7
        need(w[i].split()[0] == "endsolid", "endsolid")
        tri, nrm = np.array(tri), np.array(nrm)
    else:
        (n,) = struct.unpack("<I", b[80:84])
        need(len(b) == 84 + 50 * n, f"size {len(b)} for {n} facets")
        a = np.frombuffer(b[84:], np.dtype([("n", "<f4", 3), ("t", "<f4", (3, 3)), ("a", "<u2")]))
        tri, nrm = a["t"], a["n"]
        need((a["a"] == 0).all(), "attribute byte count")
    return D(tri.reshape(-1, 3), [Block("triangle", np.arange(3 * len(tri)).reshape(-1, 3))],
             cell_data={"facet_normals": [nrm]})


# ---------------------------------------------------------------- UGRID (AFLR3)
def ugrid(path):
    """File names tell the encoding: [l]b8[l], [l]b4, [l]r8, [l]r4 (r: Fortran records), ascii otherwise."""
    m = re.search(r"\.(l?)([br])([48])(l?)\.ugrid$", path)
    b = open(path, "rb").read()
    if m is None:
        tok = b.split()
        p = 0

        def take(n, kind):
            nonlocal p
            o = [float(x) if kind == "f" else int(x) for x in tok[p:p + n]]
            need(len(o) == n, "enough values")
            p += n
            return np.array(o)
        end = lambda: p == len(tok)
        mark = lambda: None
    else:
        bo = "<" if m.group(1) else ">"
        ft = np.dtype(bo + "f" + m.group(3))
        it = np.dtype(bo + ("i8" if m.group(4) else "i4"))
        p = 0

        def take(n, kind):
            nonlocal p
            dt = ft if kind == "f" else it
            o = np.frombuffer(b[p:p + n * dt.itemsize], dt)
            need(len(o) == n, "enough values")
            p += n * dt.itemsize
            return o
        end = lambda: p == len(b)
        if m.group(2) == "r":
            def mark():
                nonlocal p
                (v,) = struct.unpack(bo + "I", b[p:p + 4])
                p += 4
                return v, p
        else:
            mark = lambda: None
    s = mark()
    cnt = [int(x) for x in take(7, "i")]
    if s:
        e = mark()
        need(s[0] == e[0] == e[1] - 4 - s[1], f"record markers {s} {e}")
    s = mark()
    npt, ntri, nquad, ntet, npyr, npri, nhex = cnt
    pts = take(3 * npt, "f").reshape(-1, 3)
    raw = {}
    raw["triangle"] = take(3 * ntri, "i").reshape(-1, 3)
    raw["quad"] = take(4 * nquad, "i").reshape(-1, 4)
    tags = {"triangle": take(ntri, "i"), "quad": take(nquad, "i")}
    raw["tetra"] = take(4 * ntet, "i").reshape(-1, 4)
    raw["pyramid"] = take(5 * npyr, "i").reshape(-1, 5)
    raw["wedge"] = take(6 * npri, "i").reshape(-1, 6)
    raw["hexahedron"] = take(8 * nhex, "i").reshape(-1, 8)
    if s:
        e = mark()
        need(s[0] == e[0] == e[1] - 4 - s[1], f"record markers {s} {e}")
    need(end(), "no surplus data")
    # UGRID pyramid: quadrilateral 1 2 5 4 (in the order 1,4,5,2 seen from node 3), apex node 3
    blocks, cd = [], []
    for t, r in raw.items():
        if not len(r):
            continue
        r = r.astype("i8") - 1
        if t == "pyramid":
            q = np.empty_like(r)
            q[:, [1, 0, 4, 2, 3]] = r
            r = q
        blocks.append(Block(t, r))
        cd.append(tags.get(t, np.zeros(len(r), "i8")))
    return D(pts, blocks, cell_data={"ugrid:ref": cd})


# ---------------------------------------------------------------- FLAC3D grid
# positions in a FLAC3D zone of meshio's nodes
FLAC = {"T4": ("tetra", [0, 1, 2, 3]), "P5": ("pyramid", [0, 1, 4, 2, 3]), "W6": ("wedge", [0, 1, 3, 2, 4, 5]),
        "B8": ("hexahedron", [0, 1, 4, 2, 3, 6, 7, 5]), "T3": ("triangle", [0, 1, 2]), "Q4": ("quad", [0, 1, 2, 3])}


def flac3d(path):
    b = open(path, "rb").read()
    pids, pts, types, rows, eids, groups = [], [], [], [], [], {}
    kinds = []
    if b[:4] == struct.pack("<I", 1375135718):
        p = 8

        def u(n=1):
            nonlocal p
            v = struct.unpack(f"<{n}I", b[p:p + 4 * n])
            p += 4 * n
            return v

        def s():
            nonlocal p
            (n,) = struct.unpack("<H", b[p:p + 2])
            v = b[p + 2:p + 2 + n].decode()
            p += 2 + n
            return v
        need(u() and True, "")
        p = 8
        for _ in range(u()[0]):
            i, *x = struct.unpack("<I3d", b[p:p + 28])
            p += 28
            pids.append(i)
            pts.append(x)
        for kind, codes in (("zone", {4: "T4", 5: "P5", 6: "W6", 8: "B8"}), ("face", {3: "T3", 4: "Q4"})):
            for _ in range(u()[0]):
                i, n = u(2)
                need(n in codes, f"{kind} with {n} nodes")
                eids.append(i)
                kinds.append(kind)
                types.append(codes[n])
                rows.append(list(u(n)))
            for _ in range(u()[0]):
                name, slot = s(), s()
                groups[kind, name, slot] = list(u(u()[0]))
        need(p == len(b), f"{len(b) - p} surplus bytes")
    else:
        cur = None
        for l in b.decode().split("\n"):
            w = l.split()
            if not w or w[0].startswith("*"):
                continue
            if w[0] == "G":
                pids.append(int(w[1]))
                pts.append([float(x) for x in w[2:]])
                need(len(w) == 5, l)
            elif w[0] in ("Z", "F"):
                need(w[1] in FLAC, l)
                kinds.append("zone" if w[0] == "Z" else "face")
                types.append(w[1])
                eids.append(int(w[2]))
                rows.append([int(x) for x in w[3:]])
                need(len(rows[-1]) == NN[FLAC[w[1]][0]], l)
            elif w[0] in ("ZGROUP", "FGROUP"):
                m = re.fullmatch(r'\S+ "(.*)" SLOT (\S+)', l)
                need(m, l)
                cur = groups[{"Z": "zone", "F": "face"}[w[0][0]], m.group(1), m.group(2)] = []
            else:
                cur += [int(x) for x in w]
    need(len(set(eids)) == len(eids), "ids are unique")
    at = {x: i for i, x in enumerate(pids)}
    rows = [[at[x] for x in r] for r in rows]
    pts = np.array(pts).reshape(-1, 3)
    nodes = [np.array(r)[FLAC[t][1]] for t, r in zip(types, rows)]
    # zones: right-handed P1-P2, P1-P3, P1-P4
    left = 0
    for k, t, r in zip(kinds, types, rows):
        if k == "zone":
            q = pts[r[:4]] - pts[r[0]]
            det = np.linalg.det(q[1:])
            if det < -1e-9 * np.prod(np.linalg.norm(q[1:], axis=1)):
                left += 1
    need(left == 0, f"{left} left-handed zones")
    blocks, mem = group_runs([FLAC[t][0] for t in types], nodes)
    eat = {e: i for i, e in enumerate(eids)}
    cs = {}
    for (k, n, sl), v in groups.items():
        w = set()
        for x in v:
            need(x in eat and kinds[eat[x]] == k, f"{k} group {n} refers to {x}")
            w.add(eat[x])
        cs[f"{k}:{n}:{sl}"] = [[j for j, i in enumerate(m) if i in w] for m in mem]
    return D(pts, blocks, cell_sets=cs)
