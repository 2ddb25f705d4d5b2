"""What each format/encoding is able to carry: the scope in which the round-trip
properties are claimed.  Derived from the formats' specifications and the library's
documented cell-type tables; nothing here imports library internals."""
import os
import zlib

import numpy as np

from .env import meshio
from .ref import NN

LIN = ["line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid"]
ALLF = ["f8", "f4"]
INTS = ["i8", "i4"]
F = ["f8", "f4"]
ALLDT = ["f8", "f4", "i8", "i4", "i2", "i1", "u1", "u2", "u4", "u8"]


class Cap:
    name = ""
    group = ""  # the format; variants of one group encode the same content
    ext = ""
    wfmt = None  # writer name
    rfmt = None  # reader name
    types = ()
    types2 = None  # types admissible when the points are 2-D (default: the same)
    mirror = False  # FLAC3D: zones are made right-handed on writing
    dims = (2, 3)
    pad3 = False  # 2-D points come back with a zero third coordinate
    blocks = "exact"  # exact | merge (adjacent same type) | bytype
    multi = "any"  # any | unique | single_type | single
    empty_blocks = False
    min_points = 1
    pdt = ("f8",)
    pdt_out = None  # expected dtype of points read: None = unchecked, "same" = as written
    ptol = 0.0  # relative tolerance for points (0 = exact)
    patol = 0.0
    cdt = ("i8", "i4")
    pd_kinds = ()
    cd_kinds = ()
    max_data = 3
    shared_names = True
    degenerate = True  # cells may repeat a node
    name_style = "simple"
    name_max = 100  # longest array name tried
    name_uni = True  # array names beyond ASCII
    dtol = 0.0
    data_dtype = None  # "same": dtype kind+size preserved
    squeeze1 = False  # (n,1) arrays come back as (n,)
    flat = False  # (n,a,b) arrays come back as (n,a*b)
    polygon = (5, 9)
    use_all_points = False
    coord_style = None
    add_sets = None
    soup = False  # points are not numbered (STL, WKT)
    big = True
    heavy = False  # slow per file
    buffers = ()  # "text"/"bytes" if the format accepts open buffers
    ts_bytes = False  # embeds a time stamp

    def __init__(self, **kw):
        self.kw = kw.pop("kw", {})
        for k, v in kw.items():
            assert hasattr(Cap, k), k
            setattr(self, k, v)
        self.rfmt = self.rfmt or self.wfmt
        self.xtypes = []

    def path(self, d, stem="m"):
        return os.path.join(d, stem + self.ext)

    def write(self, path, mesh, **over):
        kw = dict(self.kw)
        kw.update(over)
        if self.wfmt == "gmsh40":
            return meshio.gmsh.write(path, mesh, fmt_version="4.0", **kw)
        how = route(mesh)
        if how == "method":
            return mesh.write(path, file_format=self.wfmt, **kw)
        if how in ("points-cells", "dict"):
            cells = mesh.cells if how != "dict" else {c.type: c.data for c in mesh.cells}
            return meshio.write_points_cells(
                path, mesh.points, cells, point_data=mesh.point_data, cell_data=mesh.cell_data,
                field_data=mesh.field_data, point_sets=mesh.point_sets, cell_sets=mesh.cell_sets,
                file_format=self.wfmt, **kw)
        return meshio.write(path, mesh, file_format=self.wfmt, **kw)

    def read(self, path):
        return meshio.read(path, file_format=self.rfmt)


def route(mesh):
    """Which of the equivalent ways to write a mesh to use; the same one for the same mesh."""
    if type(mesh) is not meshio.Mesh:
        return "function"
    k = (len(mesh.points) * 7 + sum(len(c.data) for c in mesh.cells) * 3 + len(mesh.point_data)) % 10
    if k < 6:
        return "function"
    if k < 8:
        return "method"
    plain = {"points", "cells", "point_data", "cell_data", "field_data", "point_sets", "cell_sets", "gmsh_periodic", "info"}
    if (set(vars(mesh)) - plain or mesh.gmsh_periodic is not None or mesh.info is not None
            or any(getattr(c, "tags", None) for c in mesh.cells)):
        return "method"
    types = [c.type for c in mesh.cells]
    return "dict" if k == 9 and len(set(types)) == len(types) else "points-cells"


CAPS = {}


def add(name, **kw):
    c = Cap(name=name, **kw)
    CAPS[name] = c
    return c


KV = [("s", ALLDT), ("3", ALLDT), ("1", F)]

add("abaqus", group="abaqus", ext=".inp", wfmt="abaqus",
    types=["line", "triangle", "quad", "tetra", "hexahedron", "wedge", "line3", "triangle6",
           "quad8", "quad9", "tetra10", "hexahedron20"], buffers="text")
add("abaqus-notr", group="abaqus", ext=".inp", wfmt="abaqus",
    kw={"float_fmt": ".17g"}, types=CAPS["abaqus"].types)
for b in (True, False):
    add(f"ansys-{'b' if b else 'a'}", group="ansys", ext=".msh", wfmt="ansys", kw={"binary": b},
        types=["triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid"])
add("avsucd", group="avsucd", ext=".avs", wfmt="avsucd", pad3=True,
    types=["vertex"] + LIN, blocks="merge",
    pd_kinds=[("s", ["f8", "i8"]), ("3", ["f8"])],
    cd_kinds=[("s", ["f8", "f4"]), ("3", ["f8"])])
for c in ("gzip", None):
    add(f"cgns-{c}", group="cgns", ext=".cgns", wfmt="cgns",
        kw={"compression": c} if c else {"compression": None, "compression_opts": None},
        types=["tetra"], dims=(3,), multi="single_type", blocks="bytype", heavy=True)
add("dolfin", group="dolfin", ext=".xml", wfmt="dolfin-xml", types=["triangle", "tetra"],
    multi="single_type", blocks="bytype", cd_kinds=[("s", ["f8", "i8", "u8"])], dims=(2, 3), data_dtype="same")
add("exodus", group="exodus", ext=".e", name_max=32, wfmt="exodus",
    types=["vertex", "line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid", "line3",
           "triangle6", "quad8", "quad9", "tetra10", "hexahedron20", "hexahedron27"],
    dims=(2, 3), pd_kinds=[("s", ALLDT)], heavy=True)
for b in (True, False):
    add(f"flac3d-{'b' if b else 'a'}", group="flac3d", ext=".f3grid", wfmt="flac3d",
        kw={"binary": b}, types=["triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid"],
        dims=(3,), blocks="bytype", mirror=True)
GM = ["vertex", "line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid", "line3",
      "triangle6", "quad8", "quad9", "tetra10", "hexahedron20", "hexahedron27", "wedge15",
      "wedge18", "pyramid13", "pyramid14", "line4", "triangle10", "quad16", "tetra20", "line5",
      "triangle15", "quad25", "tetra35", "wedge40", "hexahedron64", "line6", "triangle21",
      "tetra56", "hexahedron125"]
GD = [("s", ALLDT), ("3", ["f8", "i4"]), ("9", ["f8"]), ("1", ["f8"])]
for ver in ("22", "40", "41"):
    for b in (True, False):
        add(f"gmsh{ver}-{'b' if b else 'a'}", group="gmsh" + ver, ext=".msh",
            wfmt={"22": "gmsh22", "40": "gmsh40", "41": "gmsh"}[ver], rfmt="gmsh",
            kw={"binary": b}, types=GM, pad3=True, pd_kinds=GD, cd_kinds=GD, squeeze1=True,
            name_style="odd", cdt=("i8", "i4", "u4"), blocks="merge" if ver == "22" else "exact",
            multi="single" if ver == "41" else "any")
for c in ("gzip", None):
    add(f"h5m-{c}", group="h5m", ext=".h5m", wfmt="h5m",
        kw={} if c else {"compression": None, "compression_opts": None},
        types=["line", "triangle", "tetra"], multi="unique", blocks="bytype", dims=(3,),
        pd_kinds=[("s", ALLDT), ("3", ALLDT)], cd_kinds=[("s", ALLDT), ("3", ALLDT)], heavy=True)
HM = ["vertex", "line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid", "line3",
      "triangle6", "quad8", "quad9", "tetra10", "hexahedron20", "hexahedron27", "wedge15",
      "wedge18", "pyramid13", "hexahedron64"]
for c in ("gzip", None):
    add(f"hmf-{c}", group="hmf", ext=".hmf", wfmt="hmf",
        kw={} if c else {"compression": None, "compression_opts": None}, types=HM,
        pd_kinds=KV + [("33", ["f8"])], cd_kinds=KV + [("33", ["f8"])], data_dtype="same", heavy=True)
add("mdpa", group="mdpa", ext=".mdpa", wfmt="mdpa",
    types=["vertex", "line", "triangle", "quad", "tetra", "hexahedron", "wedge", "line3",
           "triangle6", "quad8", "quad9", "tetra10", "hexahedron20", "hexahedron27"], pad3=True,
    blocks="merge")
add("med", group="med", ext=".med", wfmt="med", multi="unique", blocks="bytype",
    types=["vertex", "line", "line3", "triangle", "triangle6", "quad", "quad8", "tetra", "tetra10",
           "hexahedron", "hexahedron20", "pyramid", "pyramid13", "wedge", "wedge15"],
    pd_kinds=[("s", ["f8"]), ("3", ["f8"])], cd_kinds=[("s", ["f8"]), ("3", ["f8"])], heavy=True)
for b in (False, True):
    add(f"medit-{'b' if b else 'a'}", group="medit", ext=".meshb" if b else ".mesh", wfmt="medit",
        types=LIN, cdt=("i8", "i4"), pdt=("f8", "f4"))
NT = ["vertex", "line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid", "triangle6",
      "quad8", "quad9", "tetra10", "hexahedron20", "wedge15", "pyramid13"]
for pf in ("free", "fixed-small", "fixed-large"):
    for cf in ("free", "fixed-small", "fixed-large"):
        add(f"nastran-{pf}-{cf}", group="nastran", ext=".bdf", wfmt="nastran",
            kw={"point_format": pf, "cell_format": cf}, types=NT, pad3=True, blocks="merge",
            ptol=1e-8 if pf != "fixed-small" else 1e-4, patol=0 if pf != "fixed-small" else 1e-5,
            coord_style=None if pf != "fixed-small" else (lambda rng: "unit"))
for e in (".vol", ".vol.gz"):
    add(f"netgen{e}", group="netgen", ext=e, wfmt="netgen", blocks="bytype",
        types=["vertex", "line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid",
               "triangle6", "quad8", "tetra10", "hexahedron20", "wedge15", "pyramid13"])
add("neuroglancer", group="neuroglancer", ext="", wfmt="neuroglancer", types=["triangle"],
    multi="single_type", blocks="bytype", pad3=True, ptol=6e-8, pdt=("f8", "f4"))
add("obj", group="obj", ext=".obj", wfmt="obj", types=["triangle", "quad", "polygon"], dims=(3,),
    blocks="merge")
add("off", group="off", ext=".off", wfmt="off", types=["triangle"], pad3=True, multi="single_type",
    blocks="bytype")
for e in (".post", ".post.gz", ".dato", ".dato.gz"):
    add(f"permas{e}", group="permas", ext=e, wfmt="permas", pad3=True,
        types=["vertex", "line", "line3", "triangle", "triangle6", "quad", "quad8", "quad9", "tetra",
               "tetra10", "hexahedron", "hexahedron20", "hexahedron27", "pyramid", "wedge",
               "wedge15"])
for b in (True, False):
    add(f"ply-{'b' if b else 'a'}", group="ply", ext=".ply", wfmt="ply", kw={"binary": b},
        types=["vertex", "line", "triangle", "quad", "polygon"], blocks="merge", dims=(3,),
        pd_kinds=[("s", ["f8", "f4", "i8", "i4", "i1", "u1", "u4", "u8", "i2", "u2"])],
        pdt=("f8", "f4"), cdt=("i8", "i4", "u4"), name_style="odd")
for b in (True, False):
    add(f"stl-{'b' if b else 'a'}", group="stl", ext=".stl", wfmt="stl", kw={"binary": b},
        types=["triangle"], multi="single_type", blocks="bytype", soup=True,
        ptol=6e-8 if b else 0, patol=1e-38 if b else 0, pad3=True)
add("su2", group="su2", ext=".su2", wfmt="su2",
    types=["triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid"],
    types2=["line", "triangle", "quad"], blocks="bytype")
add("tecplot", group="tecplot", ext=".dat", wfmt="tecplot", multi="single_type", blocks="bytype",
    types=["line", "triangle", "quad", "tetra", "hexahedron"],
    pd_kinds=[("s", ["f8", "i8"])], cd_kinds=[("s", ["f8", "i8"])], shared_names=False)
for e in (".node", ".ele"):
    add(f"tetgen{e}", group="tetgen", ext=e, wfmt="tetgen", types=["tetra"], dims=(3,),
        multi="single_type", blocks="bytype")
for s in ("", ".b8l", ".b8", ".b4", ".lb8l", ".lb8", ".lb4", ".r8", ".r4", ".lr8", ".lr4"):
    add(f"ugrid{s}", group="ugrid", ext=f"{s}.ugrid", wfmt="ugrid", multi="unique",
        types=["triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron"], blocks="bytype",
        pad3=True, ptol=6e-8 if "4" in s else 0, patol=1e-38)
VT = ["vertex", "line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid", "line3",
      "triangle6", "quad8", "quad9", "tetra10", "hexahedron20", "hexahedron27", "wedge15",
      "wedge18", "pyramid13", "line4", "polygon", "hexahedron24"]
VD = [("s", ALLDT), ("3", ALLDT), ("4", F), ("6", F), ("9", F)]
for ver in ("42", "51"):
    for b in (True, False):
        add(f"vtk{ver}-{'b' if b else 'a'}", group="vtk", ext=".vtk", rfmt="vtk",
            wfmt={"42": "vtk42", "51": "vtk"}[ver], kw={"binary": b}, types=VT, pad3=True,
            pd_kinds=VD, cd_kinds=VD, blocks="merge", pdt=("f8", "f4"), pdt_out="same",
            data_dtype="same", name_style="odd")
VU = VD + [("1", F), ("2", F)]
for nm, kw in {
    "vtu-a": {"binary": False}, "vtu-zlib": {}, "vtu-raw": {"compression": None},
    "vtu-lzma": {"compression": "lzma"}, "vtu-zlib-h64": {"header_type": "UInt64"},
    "vtu-raw-h64": {"compression": None, "header_type": "UInt64"},
}.items():
    a = nm == "vtu-a"
    add(nm, group="vtu", ext=".vtu", wfmt="vtu", kw=kw, types=VT, pad3=True, pd_kinds=VU,
        cd_kinds=VU, blocks="merge", pdt=("f8", "f4"), pdt_out="same", data_dtype="same",
        ptol=1e-11 if a else 0, dtol=1e-11 if a else 0, name_style="spaces",
        cdt=("i8", "i4", "u4", "u8"))
add("wkt", group="wkt", ext=".wkt", wfmt="wkt", types=["triangle"], multi="single_type",
    blocks="bytype", soup=True)
XD = HM
for nm, kw in {"xdmf-xml": {"data_format": "XML"}, "xdmf-bin": {"data_format": "Binary"},
               "xdmf-hdf": {}, "xdmf-hdf0": {"compression": None}}.items():
    dts = ["f8", "f4", "i8", "i4", "u4", "u8"] if nm == "xdmf-xml" else ALLDT
    k = [("s", dts), ("3", dts), ("1", F), ("2", F), ("6", F), ("9", F)]
    if nm != "xdmf-xml":
        k.append(("33", F))
    add(nm, group="xdmf", ext=".xdmf", wfmt="xdmf", kw=kw, types=XD, pd_kinds=k, cd_kinds=k,
        blocks="merge", pdt=("f8", "f4"), pdt_out="same", data_dtype="same", name_style="spaces",
        heavy="hdf" in nm)

# rarely used types, exercised one by one
_HEX = ["hexahedron24", "hexahedron125", "hexahedron216", "hexahedron343", "hexahedron512", "hexahedron729",
        "hexahedron1000"]
for _c in CAPS.values():
    if _c.group == "abaqus":
        _c.xtypes = ["wedge15"]
    elif _c.group == "xdmf":
        _c.xtypes = _HEX + ["hexahedron1331"]
    elif _c.group.startswith("gmsh"):
        _c.xtypes = _HEX[2:] + (
            "line7 line8 line9 line10 line11 quad36 quad49 quad64 quad81 quad100 quad121 tetra84 tetra120 tetra165 "
            "tetra220 tetra286 triangle28 triangle36 triangle45 triangle55 triangle66 wedge75 wedge126 wedge196 "
            "wedge288 wedge405 wedge550").split()
    elif _c.name.startswith(("vtk51", "vtu")):
        _c.xtypes = ["VTK_LAGRANGE_" + x for x in
                     "CURVE TRIANGLE QUADRILATERAL TETRAHEDRON HEXAHEDRON WEDGE PYRAMID".split()]


def extremes(cap, seed, tier="quick", huge=False):
    """cases every round trip should see: rare types alone and next to others, sizes which fill blocks of powers of
    two exactly"""
    out = []
    for k, t in enumerate(cap.xtypes):
        out.append({"v": cap.name, "s": seed * 21000 + k, "size": "tiny", "blocks": [[t, 2]]})
        if cap.multi == "any":
            o = cap.xtypes[(k + 1) % len(cap.xtypes)] if len(cap.xtypes) > 1 else "triangle"
            out.append({"v": cap.name, "s": seed * 21000 + 500 + k, "size": "tiny",
                        "blocks": [[t, 1], ["triangle", 2], [o, 1], [t, 2]]})
    sizes = [4096, [256, 255, 257, 512, 1024, 2048, 4095, 4097][seed % 8]]
    if huge or (zlib.crc32(cap.name.encode()) + seed) % 4 == 0:
        sizes.append(65537)
    if tier != "quick":
        sizes = [2 ** k + j for k in range(1, 14) for j in (-1, 0, 1)] + [32768, 65536, 65537]
    if cap.heavy:
        sizes = [n for n in sizes if n <= 8192]
    for k, n in enumerate(sizes):
        out.append({"v": cap.name, "s": seed * 22000 + k, "size": f"exact:{n}"})
    return out
