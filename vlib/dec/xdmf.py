"""XDMF 3 (xdmf.org, "XDMF Model and Format")."""
import os
import xml.etree.ElementTree as ET

import numpy as np

from . import D, Bad, group_runs, need, split

TYPES = {"polyvertex": "vertex", "polyline": "line", "triangle": "triangle", "quadrilateral": "quad",
         "tetrahedron": "tetra", "pyramid": "pyramid", "wedge": "wedge", "hexahedron": "hexahedron",
         "edge_3": "line3", "triangle_6": "triangle6", "tri_6": "triangle6", "quadrilateral_8": "quad8",
         "quad_8": "quad8", "quadrilateral_9": "quad9", "quad_9": "quad9", "tetrahedron_10": "tetra10",
         "tet_10": "tetra10", "pyramid_13": "pyramid13", "wedge_15": "wedge15", "wedge_18": "wedge18",
         "hexahedron_20": "hexahedron20", "hex_20": "hexahedron20", "hexahedron_24": "hexahedron24",
         "hexahedron_27": "hexahedron27", "hex_27": "hexahedron27", "hexahedron_64": "hexahedron64",
         "hex_64": "hexahedron64", "polygon": "polygon"}
TYPES.update({f"{a}_{n}": f"hexahedron{n}" for a in ("hexahedron", "hex")
              for n in (24, 125, 216, 343, 512, 729, 1000, 1331)})
MIXED = {1: ("vertex", None), 2: ("line", None), 3: ("polygon", None), 4: ("triangle", 3), 5: ("quad", 4),
         6: ("tetra", 4), 7: ("pyramid", 5), 8: ("wedge", 6), 9: ("hexahedron", 8), 0x22: ("line3", 3),
         0x23: ("quad9", 9), 0x24: ("triangle6", 6), 0x25: ("quad8", 8), 0x26: ("tetra10", 10),
         0x27: ("pyramid13", 13), 0x28: ("wedge15", 15), 0x29: ("wedge18", 18), 0x30: ("hexahedron20", 20),
         0x31: ("hexahedron24", 24), 0x32: ("hexahedron27", 27), 0x33: ("hexahedron64", 64),
         0x34: ("hexahedron125", 125), 0x35: ("hexahedron216", 216), 0x36: ("hexahedron343", 343),
         0x37: ("hexahedron512", 512), 0x38: ("hexahedron729", 729), 0x39: ("hexahedron1000", 1000),
         0x40: ("hexahedron1331", 1331)}
DT = {("Float", "8"): "f8", ("Float", "4"): "f4", ("Int", "8"): "i8", ("Int", "4"): "i4", ("Int", "2"): "i2",
      ("Int", "1"): "i1", ("Char", "1"): "i1", ("UChar", "1"): "u1", ("UInt", "8"): "u8", ("UInt", "4"): "u4",
      ("UInt", "2"): "u2", ("UInt", "1"): "u1", ("Short", "2"): "i2", ("UShort", "2"): "u2"}


def item(e, base):
    dims = [int(x) for x in e.get("Dimensions").split()]
    nt = e.get("NumberType") or e.get("DataType") or "Float"
    prec = e.get("Precision", "4")
    need((nt, prec) in DT, f"number type {nt} {prec}")
    dt = DT[(nt, prec)]
    fmt = e.get("Format", "XML")
    if fmt == "XML":
        w = (e.text or "").split()
        v = np.array([float(x) for x in w], dtype=dt) if dt[0] == "f" else np.array([int(x) for x in w], dtype=dt)
    elif fmt == "Binary":
        p = os.path.join(base, e.text.strip())
        raw = open(p, "rb").read()
        o = {"Big": ">", "Little": "<"}.get(e.get("Endian"), "<")
        raw = raw[int(e.get("Seek", 0)):]
        need(len(raw) == np.prod(dims) * np.dtype(dt).itemsize, f"size of {os.path.basename(p)}")
        v = np.frombuffer(raw, o + dt)
    elif fmt == "HDF":
        import h5py
        fn, _, ds = e.text.strip().rpartition(":")
        need(not os.path.isabs(fn), "HDF5 reference relative to the file")
        with h5py.File(os.path.join(base, fn), "r") as h:
            v = h[ds][()]
        need(list(v.shape) == dims, f"dataset shape {v.shape}, Dimensions {dims}")
        need((v.dtype.kind, v.dtype.itemsize) == (np.dtype(dt).kind, np.dtype(dt).itemsize), f"{v.dtype} declared {dt}")
    else:
        raise Bad("Format " + fmt)
    need(v.size == np.prod(dims), f"{v.size} values for Dimensions {dims}")
    return v.reshape(dims)


def topology(t, base):
    tt = (t.get("TopologyType") or t.get("Type")).lower()
    a = item(t.find("DataItem"), base)
    if tt == "mixed":
        a = a.reshape(-1)
        names, rows, p = [], [], 0
        while p < len(a):
            code = int(a[p])
            need(code in MIXED, f"mixed topology code {code}")
            nm, w = MIXED[code]
            p += 1
            if w is None:
                w = int(a[p])
                p += 1
            rows.append(a[p:p + w])
            need(len(rows[-1]) == w, "topology too short")
            names.append(nm)
            p += w
        n = t.get("NumberOfElements")
        need(n is None or int(n) == len(rows), f"NumberOfElements {n} for {len(rows)}")
        return group_runs(names, rows)
    need(tt in TYPES, f"topology type {tt}")
    n = t.get("NumberOfElements")
    need(n is None or int(n) == len(a), f"NumberOfElements {n} for {len(a)}")
    npe = t.get("NodesPerElement")
    need(npe is None or int(npe) == a.shape[1], "NodesPerElement")
    return group_runs([TYPES[tt]] * len(a), list(a))


def attributes(grid, base, npt, mem):
    pd, cd = {}, {}
    ncell = sum(len(m) for m in mem)
    for at in grid.findall("Attribute"):
        v = item(at.find("DataItem"), base)
        c = at.get("Center")
        kind = at.get("AttributeType") or at.get("Type")
        shape = {"Scalar": [()], "Vector": [(3,), (2,)], "Tensor": [(9,), (3, 3)], "Tensor6": [(6,)]}
        if kind in shape:
            need(v.shape[1:] in shape[kind] or (kind == "Scalar" and v.shape[1:] == (1,)),
                 f"{kind} attribute of shape {v.shape}")
        if c == "Node":
            need(len(v) == npt, f"{at.get('Name')}: {len(v)} values for {npt} nodes")
            pd[at.get("Name")] = v
        else:
            need(c == "Cell", "Center")
            need(len(v) == ncell, f"{at.get('Name')}: {len(v)} values for {ncell} cells")
            cd[at.get("Name")] = split(v, mem)
    return pd, cd


def decode(path):
    root = ET.parse(path).getroot()
    base = os.path.dirname(os.path.abspath(path))
    need(root.tag == "Xdmf", "root")
    dom = root.findall("Domain")
    need(len(dom) == 1, "one domain")
    grids = dom[0].findall("Grid")
    need(len(grids) == 1, "one grid")
    g = grids[0]
    geo = g.find("Geometry")
    gt = geo.get("GeometryType") or geo.get("Type")
    pts = item(geo.find("DataItem"), base)
    need({"XYZ": 3, "XY": 2}.get(gt) == pts.shape[1], f"geometry {gt} with {pts.shape}")
    topo = g.findall("Topology")
    need(len(topo) == 1, "one topology")
    blocks, mem = topology(topo[0], base)
    pd, cd = attributes(g, base, len(pts), mem)
    return D(pts, blocks, pd, cd)
