"""Encoders of mesh files written from the formats' public specifications; no meshio code.  Every
encoder takes the liberties its format grants to producers at random."""
import numpy as np


class R:
    """Random spellings."""

    def __init__(self, rng):
        self.rng = rng
        self.used = []
        # per-file styles
        self.fstyle = int(rng.integers(0, 5))
        self.wide = rng.random() < 0.3
        self.tabs = rng.random() < 0.15

    def p(self, q, feature=None):
        hit = bool(self.rng.random() < q)
        if hit and feature:
            self.used.append(feature)
        return hit

    def pick(self, seq, feature=None):
        x = seq[int(self.rng.integers(0, len(seq)))]
        if feature:
            self.used.append(f"{feature}={x}")
        return x

    def int(self, lo, hi):
        return int(self.rng.integers(lo, hi))

    def fl(self, x, style=None):
        """A decimal spelling of the float x that means exactly x."""
        x = float(x)
        s = self.fstyle if style is None else style
        if s == 4:
            s = self.int(0, 4)
        r = repr(x)
        if s == 1:
            r = f"{x:.16e}"
        elif s == 2:
            r = f"{x:.17E}"
        elif s == 3 and "e" not in r:
            if r.endswith(".0"):
                r = r[:-1] if self.rng.random() < 0.5 else r[:-2]
            elif r.startswith("0."):
                r = r[1:]
            elif r.startswith("-0."):
                r = "-" + r[2:]
            elif x > 0 and self.rng.random() < 0.3:
                r = "+" + r
        return r

    def sp(self):
        if self.tabs:
            return "\t"
        return " " * self.int(1, 5) if self.wide else " "

    def case(self, s):
        return [s, s.upper(), s.lower(), s.capitalize()][self.int(0, 4)]

    def ids(self, n, lo=1):
        """n distinct ids: consecutive, shifted, with gaps, or in arbitrary order."""
        k = self.pick(["seq", "shift", "gaps", "shuffled", "wild"], "ids")
        if k == "seq":
            return np.arange(lo, n + lo)
        if k == "shift":
            return np.arange(n) + self.int(lo, 5000)
        if k == "gaps":
            return np.cumsum(self.rng.integers(1, 9, n)) + lo - 1
        if k == "shuffled":
            return self.rng.permutation(n) + lo
        return self.rng.choice(np.arange(lo, 20 * n + 100), n, replace=False)

    def lines(self, comment):
        """Lines without meaning: comments and blank lines (comment None: neither)."""
        if comment is None or self.rng.random() < 0.7:
            return ""
        return "".join(self.pick(comment) + "\n" for _ in range(self.int(1, 3)))


def runs(cells):
    """[(type, row)] in file order."""
    return [(t, row) for t, d in cells for row in d]


def wrap(r, toks, sep, width, cont=""):
    """Join tokens into lines of at most `width` tokens."""
    out = []
    for i in range(0, len(toks), width):
        out.append(sep.join(toks[i:i + width]))
    return (cont + "\n").join(out)


from . import binary, gmsh, text, vtk  # noqa: E402

FORMATS = {
    "abaqus": {"enc": text.abaqus, "cap": "abaqus"},
    "nastran": {"enc": text.nastran, "cap": "nastran-free-free", "over": {
        "ptol": 0, "types": [t for t in __import__("vlib.caps").caps.NT if t != "vertex"]}},
    "avsucd": {"enc": text.avsucd, "cap": "avsucd"},
    "obj": {"enc": text.obj, "cap": "obj"},
    "off": {"enc": text.off, "cap": "off"},
    "wkt": {"enc": text.wkt, "cap": "wkt"},
    "stl": {"enc": text.stl, "cap": "stl-a"},
    "medit": {"enc": text.medit, "cap": "medit-a", "over": {"multi": "unique", "pdt": ("f8",)}},
    "meditb": {"enc": text.medit, "cap": "medit-b", "over": {"multi": "unique", "pdt": ("f8",)}},
    "netgen": {"enc": text.netgen, "cap": "netgen.vol", "over": {"blocks": "merge"}},
    "netgen.gz": {"enc": text.netgen, "cap": "netgen.vol.gz", "over": {"blocks": "merge"}, "weight": 0.3},
    "su2": {"enc": text.su2, "cap": "su2"},
    "tecplot": {"enc": text.tecplot, "cap": "tecplot"},
    "tetgen": {"enc": text.tetgen, "cap": "tetgen.node"},
    "permas": {"enc": text.permas, "cap": "permas.post"},
    "mdpa": {"enc": text.mdpa, "cap": "mdpa", "over": {
        "types": [t for t in text.MDPA]}},
    "dolfin": {"enc": text.dolfin, "cap": "dolfin"},
    **{f"gmsh{v}-{b}": {"enc": getattr(gmsh, "msh" + v), "cap": f"gmsh{v}-{b}", "over": {"multi": "any"},
                        "extra_check": gmsh.check} for v in ("22", "40", "41") for b in "ab"},
    **{f"vtk{v}-{b}": {"enc": vtk.legacy, "cap": f"vtk{v}-{b}", "over": {"dtol": 0}} for v in ("42", "51")
       for b in "ab"},
    "vtu": {"enc": vtk.vtu, "cap": "vtu-raw", "weight": 3},
    "ply-a": {"enc": binary.ply, "cap": "ply-a"},
    "ply-b": {"enc": binary.ply, "cap": "ply-b"},
    "xdmf": {"enc": binary.xdmf, "cap": "xdmf-hdf", "over": {"multi": "any"}, "weight": 3},
    "exodus": {"enc": binary.exodus, "cap": "exodus"},
    "med": {"enc": binary.med, "cap": "med", "extra_check": binary.med_check},
    "h5m": {"enc": binary.h5m, "cap": "h5m-None", "over": {
        "types": ["line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid"]}},
    "cgns": {"enc": binary.cgns, "cap": "cgns-None", "weight": 0.3},
    "flac3d-a": {"enc": binary.flac3d, "cap": "flac3d-a", "over": {"mirror": False}},
    "flac3d-b": {"enc": binary.flac3d, "cap": "flac3d-b", "over": {"mirror": False}},
    "ugrid": {"enc": binary.ugrid, "cap": "ugrid", "over": {"ptol": 0, "patol": 0, "dims": (3,)}, "weight": 2},
    "ansys": {"enc": binary.ansys, "cap": "ansys-a", "over": {
        "types": ["line", "triangle", "quad"], "types2": ["line"]}, "weight": 2},
    "neuroglancer": {"enc": binary.neuroglancer, "cap": "neuroglancer", "over": {"dims": (3,)}, "weight": 0.3},
}
