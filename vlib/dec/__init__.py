"""Decoders of mesh files written from the formats' public specifications; no meshio code."""
import numpy as np


class Block:
    def __init__(self, type, data):
        self.type = type
        self.data = np.asarray(data)

    def __len__(self):
        return len(self.data)


class D:
    """A decoded mesh, with the attributes the oracles look at."""

    def __init__(self, points, cells, point_data=None, cell_data=None, point_sets=None, cell_sets=None, **extra):
        self.points = np.asarray(points)
        self.cells = [c if isinstance(c, Block) else Block(*c) for c in cells]
        self.point_data = point_data or {}
        self.cell_data = cell_data or {}
        self.point_sets = point_sets or {}
        self.cell_sets = cell_sets or {}
        self.field_data = extra.pop("field_data", {})
        self.extra = extra


class Bad(Exception):
    """The file is not a valid file of its format."""


def need(cond, msg):
    if not cond:
        raise Bad(msg)


def group_runs(types, rows, data=None):
    """Cells listed one by one -> blocks of adjacent equal (type, width)."""
    blocks, members = [], []
    for i, (t, r) in enumerate(zip(types, rows)):
        if blocks and blocks[-1][0] == t and len(blocks[-1][1][0]) == len(r):
            blocks[-1][1].append(r)
            members[-1].append(i)
        else:
            blocks.append((t, [r]))
            members.append([i])
    return [Block(t, np.array(r, dtype="i8")) for t, r in blocks], members


def split(values, members):
    values = np.asarray(values)
    return [values[m] for m in members]


def reorder(t, rows, perm):
    rows = np.asarray(rows)
    return rows[:, perm] if perm is not None and len(rows) else rows


def cards(path, comment=None):
    with open(path) as f:
        for line in f:
            if comment:
                line = line.split(comment)[0]
            line = line.strip()
            if line:
                yield line
