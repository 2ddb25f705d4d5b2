"""Gmsh MSH 2.2, 4.0, 4.1 (Gmsh reference manual, "MSH file format")."""
import struct

import numpy as np

from .. import spec
from ..ref import NN
from . import D, Block, Bad, need, reorder

TYPES = {1: "line", 2: "triangle", 3: "quad", 4: "tetra", 5: "hexahedron", 6: "wedge", 7: "pyramid", 8: "line3",
         9: "triangle6", 10: "quad9", 11: "tetra10", 12: "hexahedron27", 13: "wedge18", 14: "pyramid14",
         15: "vertex", 16: "quad8", 17: "hexahedron20", 18: "wedge15", 19: "pyramid13", 21: "triangle10",
         23: "triangle15", 25: "triangle21", 26: "line4", 27: "line5", 28: "line6", 29: "tetra20", 30: "tetra35",
         31: "tetra56", 36: "quad16", 37: "quad25", 38: "quad36", 90: "wedge40", 91: "wedge75",
         92: "hexahedron64", 93: "hexahedron125", 42: "triangle28", 43: "triangle36", 44: "triangle45",
         45: "triangle55", 46: "triangle66", 47: "quad49", 48: "quad64", 49: "quad81", 50: "quad100", 51: "quad121",
         62: "line7", 63: "line8", 64: "line9", 65: "line10", 66: "line11", 71: "tetra84", 72: "tetra120",
         73: "tetra165", 74: "tetra220", 75: "tetra286", 94: "hexahedron216", 95: "hexahedron343",
         96: "hexahedron512", 97: "hexahedron729", 98: "hexahedron1000", 106: "wedge126", 107: "wedge196",
         108: "wedge288", 109: "wedge405", 110: "wedge550"}


class S:
    """Cursor over a section, ASCII or binary."""

    def __init__(self, buf, pos, binary, order):
        self.b, self.p, self.binary, self.o = buf, pos, binary, order

    def line(self):
        e = self.b.find(b"\n", self.p)
        need(e >= 0, "unexpected end of file")
        s = self.b[self.p:e].decode("utf-8")
        self.p = e + 1
        return s

    def word(self):
        b = self.b
        while self.p < len(b) and b[self.p:self.p + 1].isspace():
            self.p += 1
        e = self.p
        while e < len(b) and not b[e:e + 1].isspace():
            e += 1
        need(e > self.p, "unexpected end of file")
        s = b[self.p:e].decode()
        self.p = e
        return s

    def get(self, fmt, n=1):
        """n numbers of kind fmt: i int, q size_t/unsigned long, d double"""
        if not self.binary:
            c = float if fmt == "d" else int
            return [c(self.word()) for _ in range(n)]
        fmt = {"q": "Q"}.get(fmt, fmt)
        k = struct.calcsize(fmt)
        need(self.p + n * k <= len(self.b), "section too short")
        v = np.frombuffer(self.b, self.o + {"i": "i4", "Q": "u8", "d": "f8"}[fmt], n, self.p)
        self.p += n * k
        return v.tolist()


def decode(path):
    b = open(path, "rb").read()
    pos = 0
    version = None
    d = dict(nodes=None, elems=[], physnames=[], nodedata={}, eldata={}, periodic=[], entities=None)
    order = "<"
    binary = False
    seen = []
    while True:
        while pos < len(b) and b[pos:pos + 1].isspace():
            pos += 1
        if pos >= len(b):
            break
        s = S(b, pos, binary, order)
        head = s.line().strip()
        need(head.startswith("$"), f"section header expected, found {head[:40]!r}")
        name = head[1:]
        seen.append(name)
        if name == "MeshFormat":
            v = s.line().split()
            version, binary, size = v[0], v[1] == "1", int(v[2])
            version = "4" if version == "4.0" else version
            need(size == 8, "data size")
            if binary:
                need(b[s.p:s.p + 4] == b"\x01\0\0\0", "byte order mark")
                s.p += 4
            s.binary = binary
        elif name == "PhysicalNames":
            n = int(s.line())
            for _ in range(n):
                dim, num, nm = s.line().split(None, 2)
                need(nm.strip()[0] == nm.strip()[-1] == '"', "quotes")
                d["physnames"].append((int(dim), int(num), nm.strip()[1:-1]))
        elif name == "Nodes":
            d["nodes"] = nodes(s, version)
        elif name == "Elements":
            d["elems"] = elements(s, version)
        elif name == "Entities":
            d["entities"] = entities(s, version)
        elif name == "Periodic":
            d["periodic"] = periodic(s, version)
        elif name in ("NodeData", "ElementData"):
            nm, ids, vals = postproc(s)
            d["nodedata" if name == "NodeData" else "eldata"][nm] = (ids, vals)
        else:
            e = b.find(b"$End" + name.encode(), s.p)
            need(e > 0, "unterminated section " + name)
            s.p = e
        end = b.find(b"$End", s.p)
        need(end >= 0 and b[s.p:end].strip() == b"", f"trailing bytes in section {name}")
        pos = b.find(b"\n", end)
        need(b[end:pos].strip() == b"$End" + name.encode(), f"end of section {name}")
    need(d["nodes"] is not None, "no $Nodes")
    return finish(version, d)


def nodes(s, version):
    tags, xyz, ent = [], [], []
    if version == "2.2":
        n = int(s.line())
        for _ in range(n):
            tags += s.get("i")
            xyz.append(s.get("d", 3))
            ent.append(None)
    elif version == "4":
        nb, n = s.get("q", 2)
        for _ in range(nb):
            tag, dim, par = s.get("i", 3)
            need(0 <= dim <= 3 and par == 0, "node block header")
            (m,) = s.get("q")
            for _ in range(m):
                tags += s.get("i")
                xyz.append(s.get("d", 3))
                ent.append((dim, tag))
        need(len(tags) == n, "number of nodes")
    else:
        nb, n, lo, hi = s.get("q", 4)
        for _ in range(nb):
            dim, tag, par = s.get("i", 3)
            need(0 <= dim <= 3 and par == 0, "node block header")
            (m,) = s.get("q")
            tags += s.get("q", m)
            xyz += np.array(s.get("d", 3 * m)).reshape(m, 3).tolist()
            ent += [(dim, tag)] * m
        need(len(tags) == n, "number of nodes")
        need(n == 0 or (lo == min(tags) and hi == max(tags)), f"min/max node tag {lo} {hi}")
    need(len(set(tags)) == len(tags) and (not tags or min(tags) > 0), "node tags not unique and positive")
    return tags, np.array(xyz, dtype="f8").reshape(-1, 3), ent


def elements(s, version):
    """[(etype, [(tag, tags, nodes)], entity)]"""
    out = []
    if version == "2.2":
        n = int(s.line())
        got = 0
        while got < n:
            if s.binary:
                et, m, nt = s.get("i", 3)
                need(et in TYPES and m > 0, f"element header {et} {m}")
                w = NN[TYPES[et]]
                rows = np.array(s.get("i", m * (1 + nt + w))).reshape(m, -1)
                el = [(int(r[0]), r[1:1 + nt].tolist(), r[1 + nt:].tolist()) for r in rows]
            else:
                v = [int(x) for x in s.line().split()]
                et, nt, m = v[1], v[2], 1
                need(et in TYPES and len(v) == 3 + nt + NN[TYPES[et]], f"element line {v}")
                el = [(v[0], v[3:3 + nt], v[3 + nt:])]
            got += m
            out.append((et, el, None))
        need(got == n, "number of elements")
    else:
        h = s.get("q", 2 if version == "4" else 4)
        for _ in range(h[0]):
            if version == "4":
                tag, dim, et = s.get("i", 3)
            else:
                dim, tag, et = s.get("i", 3)
            (m,) = s.get("q")
            need(et in TYPES, f"element type {et}")
            w = NN[TYPES[et]]
            rows = np.array(s.get("i" if version == "4" else "q", m * (1 + w))).reshape(m, 1 + w)
            out.append((et, [(int(r[0]), [], r[1:].tolist()) for r in rows], (dim, tag)))
        t = [e[0] for _, el, _ in out for e in el]
        need(len(t) == h[1], "number of elements")
        if version != "4":
            need(not t or (h[2] == min(t) and h[3] == max(t)), f"min/max element tag {h[2:]}")
    t = [e[0] for _, el, _ in out for e in el]
    need(len(set(t)) == len(t) and (not t or min(t) > 0), "element tags not unique and positive")
    return out


def entities(s, version):
    out = {}
    cnt = s.get("q", 4)
    for dim, n in enumerate(cnt):
        for _ in range(n):
            (tag,) = s.get("i")
            s.get("d", 3 if (dim == 0 and version == "4.1") else 6)
            (k,) = s.get("q")
            phys = s.get("i", k)
            bnd = []
            if dim:
                (k,) = s.get("q")
                bnd = s.get("i", k)
            need((dim, tag) not in out, f"entity {(dim, tag)} listed twice")
            out[(dim, tag)] = (phys, bnd)
    return out


def periodic(s, version):
    out = []
    if version == "2.2":  # always text
        s.binary = False
    (n,) = s.get("q" if version == "4.1" else "i")
    for _ in range(n):
        dim, tag, mtag = s.get("i", 3)
        aff = None
        if version == "4.1":
            (k,) = s.get("q")
            aff = s.get("d", k)
        else:
            if not s.binary:
                save = s.p
                if s.word() == "Affine":
                    aff = [float(x) for x in s.line().split()]
                else:
                    s.p = save
                (k,) = s.get("i" if version == "2.2" else "q")
            else:
                (k,) = struct.unpack_from("<q", s.b, s.p)
                s.p += 8
                if k < 0:
                    need(k == -1, "an affine transformation is announced by -1")
                    aff = s.get("d", 16)
                    (k,) = s.get("q")
            pairs = np.array(s.get("i", 2 * k)).reshape(k, 2)
            out.append((dim, tag, mtag, aff, pairs))
            continue
        (k,) = s.get("q")
        pairs = np.array(s.get("q", 2 * k)).reshape(k, 2)
        out.append((dim, tag, mtag, aff, pairs))
    return out


def postproc(s):
    ns = int(s.line())
    names = [s.line().strip() for _ in range(ns)]
    need(all(n[0] == n[-1] == '"' for n in names), "string tags are quoted")
    nr = int(s.line())
    for _ in range(nr):
        float(s.line())
    ni = int(s.line())
    it = [int(s.line()) for _ in range(ni)]
    need(ni >= 3, "integer tags")
    _, nc, n = it[:3]
    need(nc in (1, 3, 9), "number of components")
    ids, vals = [], []
    for _ in range(n):
        ids += s.get("i")
        vals.append(s.get("d", nc))
    return names[0][1:-1], ids, np.array(vals, dtype="f8").reshape(n, nc)


def finish(version, d):
    tags, xyz, ent = d["nodes"]
    idx = {t: i for i, t in enumerate(tags)}
    blocks, meta, eltags = [], [], []
    for et, el, entity in d["elems"]:
        t = TYPES[et]
        try:
            rows = [[idx[x] for x in nod] for _, _, nod in el]
        except KeyError as e:
            raise Bad(f"element refers to node {e} which is not defined")
        rows = reorder(t, np.array(rows, dtype="i8").reshape(len(el), NN[t]), spec.perm(t, spec.GMSH))
        if version == "2.2" and blocks and blocks[-1][0] == t:
            blocks[-1] = (t, np.concatenate([blocks[-1][1], rows]))
            meta[-1] += [x[1] for x in el]
            eltags[-1] += [x[0] for x in el]
        else:
            blocks.append((t, rows))
            meta.append([x[1] for x in el])
            eltags.append([x[0] for x in el])
    pd = {}
    for name, (ids, vals) in d["nodedata"].items():
        pd[name] = full(ids, vals, tags)
    cd = {}
    for name, (ids, vals) in d["eldata"].items():
        cd[name] = [full(ids, vals, t) for t in eltags]
    return D(xyz, blocks, pd, cd, version=version, meta=meta, physnames=d["physnames"], entities=d["entities"],
             node_entities=ent, elem_entities=[e for _, _, e in d["elems"]], periodic=d["periodic"], node_tags=tags)


def full(ids, vals, tags):
    at = {t: i for i, t in enumerate(ids)}
    need(len(at) == len(ids), "data given twice for an entity")
    try:
        out = vals[[at[t] for t in tags]] if tags else vals[:0]
    except KeyError as e:
        raise Bad(f"no data for entity {e}")
    return out[:, 0] if out.shape[1] == 1 else out
