"""Reference mesh: a plain value used by generators, codecs and oracles.

Node counts and dimensions are stated here independently of meshio's tables."""
import copy
import re

import numpy as np

from .env import meshio

NN = {
    "vertex": 1, "line": 2, "triangle": 3, "quad": 4, "tetra": 4, "hexahedron": 8,
    "wedge": 6, "pyramid": 5,
    "line3": 3, "triangle6": 6, "quad8": 8, "quad9": 9, "tetra10": 10,
    "hexahedron20": 20, "hexahedron24": 24, "hexahedron27": 27, "wedge15": 15,
    "wedge18": 18, "pyramid13": 13, "pyramid14": 14,
}
for _n in range(4, 12):
    NN[f"line{_n}"] = _n
for _k in range(3, 11):
    NN[f"triangle{(_k + 1) * (_k + 2) // 2}"] = (_k + 1) * (_k + 2) // 2
    NN[f"quad{(_k + 1) ** 2}"] = (_k + 1) ** 2
    NN[f"tetra{(_k + 1) * (_k + 2) * (_k + 3) // 6}"] = (_k + 1) * (_k + 2) * (_k + 3) // 6
    NN[f"hexahedron{(_k + 1) ** 3}"] = (_k + 1) ** 3
for _k in range(3, 10):
    NN[f"wedge{(_k + 1) ** 2 * (_k + 2) // 2}"] = (_k + 1) ** 2 * (_k + 2) // 2

_DIM = {"vertex": 0, "line": 1, "triangle": 2, "quad": 2, "polygon": 2, "tetra": 3,
        "hexahedron": 3, "wedge": 3, "pyramid": 3, "polyhedron": 3}


def tdim(t):
    return _DIM[re.match("[a-z]+", t).group()]


class Ref:
    __slots__ = ("points", "cells", "point_data", "cell_data", "point_sets",
                 "cell_sets", "field_data", "extra")

    def __init__(self, points, cells, point_data=None, cell_data=None, point_sets=None,
                 cell_sets=None, field_data=None, extra=None):
        self.points = points
        self.cells = list(cells)  # [(type, ndarray | list)]
        self.point_data = point_data or {}
        self.cell_data = cell_data or {}
        self.point_sets = point_sets or {}
        self.cell_sets = cell_sets or {}
        self.field_data = field_data or {}
        self.extra = extra or {}

    def copy(self):
        return copy.deepcopy(self)

    def mesh(self, layout=None):
        """A fresh meshio.Mesh sharing no memory with this value.  ``layout`` is applied to
        every array: same values, another memory layout or byte order."""
        c = copy.deepcopy(self)
        if layout:
            c.points = layout(c.points)
            c.cells = [(t, layout(d) if isinstance(d, np.ndarray) else d) for t, d in c.cells]
            c.point_data = {k: layout(v) for k, v in c.point_data.items()}
            c.cell_data = {k: [layout(x) for x in v] for k, v in c.cell_data.items()}
        m = meshio.Mesh(
            c.points,
            [(t, d) for t, d in c.cells],
            point_data=c.point_data,
            cell_data=c.cell_data,
            field_data=c.field_data,
            point_sets=c.point_sets,
            cell_sets=c.cell_sets,
            **{k: v for k, v in c.extra.items() if k in ("gmsh_periodic", "info")},
        )
        for k, v in c.extra.items():
            if k not in ("gmsh_periodic", "info"):
                setattr(m, k, v)
        return m

    def describe(self):
        return {
            "points": list(np.shape(self.points)),
            "pdtype": str(np.asarray(self.points).dtype),
            "cells": [[t, len(d)] for t, d in self.cells],
            "point_data": {k: [str(v.dtype), list(v.shape)] for k, v in self.point_data.items()},
            "cell_data": {k: [str(v[0].dtype) if len(v) else "", [list(x.shape) for x in v][:6]]
                          for k, v in self.cell_data.items()},
            "point_sets": list(self.point_sets), "cell_sets": list(self.cell_sets),
        }


def from_mesh(m):
    return Ref(
        np.asarray(m.points),
        [(c.type, c.data) for c in m.cells],
        dict(m.point_data), {k: list(v) for k, v in m.cell_data.items()},
        dict(m.point_sets), dict(m.cell_sets), dict(m.field_data),
        {"gmsh_periodic": m.gmsh_periodic, "info": m.info},
    )
