"""Node numbering conventions of the formats, stated geometrically and independently of
meshio's permutation tables: every node of a reference cell is the vertex set it is the
centre of, and a convention is the order in which these nodes are listed."""

F = frozenset


def _nodes(nv, *groups):
    out = [F([i]) for i in range(nv)]
    for g in groups:
        for s in g.split():
            out.append(F(int(c) for c in s))
    return out


# meshio's own numbering (documented: that of VTK, except that the linear wedge is oriented
# like everybody else's)
MESHIO = {
    "vertex": _nodes(1), "line": _nodes(2), "triangle": _nodes(3), "quad": _nodes(4), "tetra": _nodes(4),
    "hexahedron": _nodes(8), "wedge": _nodes(6), "pyramid": _nodes(5),
    "line3": _nodes(2, "01"),
    "triangle6": _nodes(3, "01 12 20"),
    "quad8": _nodes(4, "01 12 23 30"),
    "quad9": _nodes(4, "01 12 23 30", "0123"),
    "tetra10": _nodes(4, "01 12 20 03 13 23"),
    "hexahedron20": _nodes(8, "01 12 23 30", "45 56 67 74", "04 15 26 37"),
    "hexahedron27": _nodes(8, "01 12 23 30", "45 56 67 74", "04 15 26 37",
                           "0473 1265 0154 2376 0123 4567", "01234567"),
    "wedge15": _nodes(6, "01 12 20", "34 45 53", "03 14 25"),
    "wedge18": _nodes(6, "01 12 20", "34 45 53", "03 14 25", "0143 1254 2035"),
    "pyramid13": _nodes(5, "01 12 23 30", "04 14 24 34"),
}
# Gmsh reference manual, "Node ordering"
GMSH = {
    "tetra10": _nodes(4, "01 12 02 03 23 13"),
    "hexahedron20": _nodes(8, "01 03 04 12 15 23 26 37 45 47 56 67"),
    "hexahedron27": _nodes(8, "01 03 04 12 15 23 26 37 45 47 56 67", "0321 0154 0473 1265 2376 4567", "01234567"),
    "wedge15": _nodes(6, "01 02 03 12 14 25 34 35 45"),
    "wedge18": _nodes(6, "01 02 03 12 14 25 34 35 45", "0143 0352 1254"),
    "pyramid13": _nodes(5, "01 03 04 12 14 23 24 34"),
}
# Nastran quick reference guide: edges of the first face, the edges between the faces, edges
# of the opposite face
NASTRAN = {
    "hexahedron20": _nodes(8, "01 12 23 30", "04 15 26 37", "45 56 67 74"),
    "wedge15": _nodes(6, "01 12 20", "03 14 25", "34 45 53"),
}
# Exodus II manual, figure "node ordering"
EXODUS = {
    "hexahedron20": NASTRAN["hexahedron20"],
    "hexahedron27": NASTRAN["hexahedron20"] + _nodes(0, "01234567", "0123 4567 0473 1265 0154 2376"),
}
# Netgen: element edges of libsrc/meshing/topology.hpp; its cells are oriented the other way
# round (see below)
NETGEN = {
    "triangle6": _nodes(3, "12 02 01"),
    "quad8": _nodes(4, "01 23 30 12"),
    "tetra10": _nodes(4, "01 02 03 12 13 23"),
    "pyramid13": _nodes(5, "01 23 30 12", "04 14 24 34"),
    "wedge15": _nodes(6, "01 02 12", "03 14 25", "34 35 45"),
    "hexahedron20": _nodes(8, "01 23 30 12", "45 67 74 56", "04 15 26 37"),
}
# vertex i of the meshio cell is vertex NETGEN_VERT[i] of Netgen's
NETGEN_VERT = {"tetra": [0, 2, 1, 3], "pyramid": [0, 3, 2, 1, 4], "wedge": [0, 2, 1, 3, 5, 4],
               "hexahedron": [0, 3, 2, 1, 4, 7, 6, 5]}


def base(t):
    return t.rstrip("0123456789")


def perm(t, table, vert=None):
    """Positions in a cell of the foreign convention of meshio's nodes:
    meshio_cell[i] = foreign_cell[perm[i]]."""
    src = MESHIO.get(t)
    dst = table.get(t, src)
    if src is None:
        return None
    vm = (vert or {}).get(base(t))
    out = []
    for s in src:
        if vm:
            s = F(vm[i] for i in s)
        out.append(dst.index(s))
    assert sorted(out) == list(range(len(src))), t
    return out


def inverse(p):
    q = [0] * len(p)
    for i, x in enumerate(p):
        q[x] = i
    return q
