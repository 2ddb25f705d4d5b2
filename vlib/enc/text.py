"""Text formats: one function (r, path, ref, cap) each; `ref` is changed to what the file says."""
import gzip
import os

import numpy as np

from .. import spec
from ..dec import text as dt
from ..ref import NN, tdim
from . import runs, wrap


def save(r, path, s, crlf=True):
    if crlf and r.p(0.12, "crlf"):
        s = s.replace("\n", "\r\n")
    b = s.encode()
    if path.endswith(".gz"):
        b = gzip.compress(b)
    with open(path, "wb") as f:
        f.write(b)


def foreign(t, row, table, vert=None):
    """The row in the order of the other convention."""
    p = spec.perm(t, table, vert)
    if p is None:
        return list(row)
    out = [0] * len(row)
    for i, j in enumerate(p):
        out[j] = row[i]
    return out


# ---------------------------------------------------------------- Abaqus
ABQ = {"line": ["T2D2", "T3D2", "B21", "B31", "B33", "T3D2H", "B31H"], "line3": ["T2D3", "T3D3", "B22", "B32", "B32H"],
       "triangle": ["CPS3", "STRI3", "S3", "S3R", "R3D3"], "quad": ["CPS4", "CPS4R", "S4", "S4R", "S4R5", "CAX4P"],
       "triangle6": ["STRI65", "CPE6"], "quad8": ["S8R", "S8R5"], "quad9": ["S9R5"], "tetra": ["C3D4", "C3D4H"],
       "tetra10": ["C3D10", "C3D10H", "C3D10M", "C3D10I", "C3D10MH"], "wedge": ["C3D6"],
       "hexahedron": ["C3D8", "C3D8R", "C3D8I", "C3D8H", "C3D8RH", "C3D8IH"],
       "hexahedron20": ["C3D20", "C3D20R", "C3D20H", "C3D20RH"], "wedge15": ["C3D15"]}


def abaqus(r, path, ref, cap):
    com = ["** a comment", "**", "** 1, 2, 3", "**Node"]
    pid = r.ids(len(ref.points))
    eid = r.ids(sum(len(c) for _, c in ref.cells))
    parts = []

    def c(inside=False):
        return r.lines(com)

    def kw(name, *opts):
        s = "*" + r.case(name)
        for o in opts:
            s += "," + " " * r.int(0, 3)
            k, _, v = o.partition("=")
            s += r.case(k)
            if v:
                s += r.pick(["=", " = ", "= "]) + v
        return s + r.pick(["", "", " "]) + "\n"

    def idl(ids):
        w = r.pick([1, 8, 16])
        return wrap(r, [str(i) for i in ids], r.pick([",", ", "]), w, r.pick(["", ","])) + r.pick(["", ","]) + "\n"
    s = ""
    if r.p(0.7):
        s += kw("Heading") + "Some title, with commas\n" + ("Node\n" if r.p(0.2, "keyword-like heading") else "")
    s += c()
    junk = ["*Preprint, echo=NO, model=NO\n", "*MATERIAL, NAME=steel\n*ELASTIC\n 210000., 0.3\n",
            "*Node Output\nU, RF\n", "*Solid Section, elset=all, material=steel\n,\n"]
    # nodes, in one or several blocks
    cut = sorted({0, len(pid)} | ({r.int(0, len(pid) + 1)} if r.p(0.3, "several *NODE") else set()))
    for a, b in zip(cut, cut[1:]):
        name = None
        if r.p(0.2, "*NODE, NSET="):
            name = f"NB{a}"
            ref.point_sets[name] = np.arange(a, b)
        s += kw("Node", *([f"nset={name}"] if name else []))
        for i in range(a, b):
            s += " " * r.int(0, 3) + f"{pid[i]}," + ", ".join(r.fl(x) for x in ref.points[i]) + "\n"
            if i + 1 < b and r.p(0.03, "comment in *NODE"):
                s += r.pick(com) + "\n"
        if r.p(0.2):
            s += r.pick(junk)
    at, csets = 0, {}
    for k, (t, rows) in enumerate(ref.cells):
        s += c()
        name = None
        if r.p(0.4, "*ELEMENT, ELSET="):
            name = r.pick(["E1", "solids", "Set-1", "p_2"])
            csets.setdefault(name, []).append((k, np.arange(len(rows))))
        opts = [f"type={r.pick(ABQ[t])}"] + ([f"elset={name}"] if name else [])
        s += kw("Element", *(opts if r.p(0.7) else opts[::-1]))
        for row in rows:
            tok = [str(eid[at])] + [str(x) for x in pid[list(row)]]
            at += 1
            w = 16 if len(tok) > 16 else r.pick([16, 16, 5])
            s += wrap(r, tok, r.pick([",", ", "]), w, ",") + "\n"
            if r.p(0.02, "comment in *ELEMENT"):
                s += r.pick(com) + "\n"
    starts = np.cumsum([0] + [len(x) for _, x in ref.cells])

    def member(which):
        for k in range(len(ref.cells)):
            w = which[(which >= starts[k]) & (which < starts[k + 1])] - starts[k]
            yield k, w
    for j in range(r.int(0, 3)):
        n = np.sort(r.rng.permutation(len(pid))[:r.int(1, len(pid) + 1)])
        ref.point_sets[f"N{j}"] = n
        cut = [n] if r.p(0.7) or len(n) < 2 else [n[:1], n[1:]]
        for x in cut:
            s += c() + kw("Nset", f"nset=N{j}", *(["instance=Part-1"] if r.p(0.1) else [])) + idl(pid[x])
    if r.p(0.2, "set of sets") and ref.point_sets:
        k = list(ref.point_sets)
        s += kw("Nset", "nset=UNION") + ", ".join(k) + "\n"
        ref.point_sets["UNION"] = np.unique(np.concatenate([ref.point_sets[x] for x in k]))
    if r.p(0.2, "generate"):
        lo = int(pid.min())
        step = int(r.pick([1, 2, 3]))
        hi = lo + step * r.int(0, 40)
        want = [i for i, x in enumerate(pid) if x in range(lo, hi + 1, step)]
        if len(want) == len(range(lo, hi + 1, step)):
            s += kw("Nset", "nset=GEN", "generate") + f"{lo}, {hi}" + ("" if step == 1 and r.p(0.5) else f", {step}") + "\n"
            if r.p(0.4, "two generate lines"):
                s += f"  {pid[-1]}, {pid[-1]}, 1\n"
                want.append(len(pid) - 1)
            ref.point_sets["GEN"] = np.array(want)
    for j in range(r.int(0, 3)):
        n = np.sort(r.rng.permutation(len(eid))[:r.int(1, len(eid) + 1)])
        s += c() + kw("Elset", f"elset=C{j}") + idl(eid[n])
        csets[f"C{j}"] = list(member(n))
    if r.p(0.15, "generate") and len(eid):
        lo, hi = int(eid.min()), int(eid.max())
        n = np.array([i for i, x in enumerate(eid)])
        if set(range(lo, hi + 1)) == set(int(x) for x in eid):
            s += kw("Elset", "elset=EG", "generate") + f" {lo}, {hi}, 1\n"
            csets["EG"] = list(member(n))
    if r.p(0.3):
        s += r.pick(junk)
    if r.p(0.4):
        s += kw("Step") + kw("End Step")
    if r.p(0.25, "include"):
        # whole keyword blocks may live in another file
        ls = s.splitlines(True)
        at = [i for i, l in enumerate(ls) if l.startswith("*") and not l.startswith("**")]
        if len(at) > 2:
            a, b = sorted(r.rng.choice(len(at), 2, replace=False))
            sub = r.pick(["inc.inp", "sub/part.inp"])
            f = os.path.join(os.path.dirname(path), sub)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            open(f, "w").write("".join(ls[at[a]:at[b]]))
            s = "".join(ls[:at[a]]) + kw("Include", f"input={sub}") + "".join(ls[at[b]:])
    if r.p(0.1, "indented keywords"):
        s = s.replace("\n*", "\n  *")
    for n, l in csets.items():
        per = [np.zeros(0, int) for _ in ref.cells]
        for k, w in l:
            per[k] = np.union1d(per[k], w).astype(int)
        ref.cell_sets[n] = per
    save(r, path, s)


# ---------------------------------------------------------------- Nastran
NAS = {"line": ["CROD", "CBAR", "CBEAM"], "triangle": ["CTRIA3", "CTRIAR"], "quad": ["CQUAD4", "CQUADR", "CSHEAR"],
       "triangle6": ["CTRIA6"], "quad8": ["CQUAD8"], "quad9": ["CQUAD"], "tetra": ["CTETRA"], "tetra10": ["CTETRA"],
       "pyramid": ["CPYRAM", "CPYRA"], "pyramid13": ["CPYRAM", "CPYRA"], "wedge": ["CPENTA"], "wedge15": ["CPENTA"],
       "hexahedron": ["CHEXA"], "hexahedron20": ["CHEXA"]}


def nas_real(r, x, width):
    """A Nastran real of at most `width` characters and its value."""
    x = float(x)
    for prec in range(16, -1, -1):
        s = f"{x:.{prec}E}"
        m, e = s.split("E")
        if "." not in m:
            m += "."
        e = int(e)
        k = r.int(0, 5)
        if k == 0:
            s = f"{m}E{e:+d}"
        elif k == 1:
            s = f"{m}{e:+d}"
        elif k == 2:
            s = f"{m}D{e:+03d}"
        elif k == 3:
            s = f"{m}e{e}"
        else:
            s = np.format_float_positional(float(s), trim="k")
            if s.startswith("0.") and len(s) > 2:
                s = s[1:]
            elif s.startswith("-0.") and len(s) > 3:
                s = "-" + s[2:]
        if len(s) <= width:
            v = dt.nastran_real(s)
            return s, v
    return "0.", 0.0


def nastran(r, path, ref, cap):
    pid = r.ids(len(ref.points))
    cells = runs(ref.cells)
    eid = r.ids(len(cells))
    free_only = r.p(0.2)
    low = r.p(0.1, "lower case")

    def card(name, fields):
        """fields: strings, at most 16 wide"""
        how = "free" if free_only else r.pick(["free", "small", "large"])
        if how == "small" and max(map(len, fields)) > 8:
            how = "large"
        r.used.append("card:" + how)
        per = 4 if how == "large" else 8
        lines = [fields[i:i + per] for i in range(0, len(fields), per)]
        lab = r.pick(["+", "+A", "+BC1", ""])
        out = []
        for k, f in enumerate(lines):
            last = k == len(lines) - 1
            if how == "free":
                head = name if k == 0 else r.pick(["+", "+", ""] if lab == "" else [lab])
                l = r.pick([",", ", "]).join([head] + f)
                if not last and lab and r.p(0.5):
                    l += "," + lab
            else:
                w = 16 if how == "large" else 8
                mark = "*" if how == "large" else "+"
                if how == "large" and lab == "":
                    tag = "*"
                else:
                    tag = mark + lab[1:] if lab else ""
                head = (name + ("*" if how == "large" else "")) if k == 0 else tag
                j = r.pick([str.ljust, str.rjust])
                l = head.ljust(8) + "".join(j(x, w) for x in f)
                if not last and tag and r.p(0.5):
                    l = l.ljust(72) + tag
                elif r.p(0.5):
                    l = l.rstrip()
            out.append(l + "\n")
            if r.p(0.03, "comment inside card"):
                out.append("$ comment\n")
        return "".join(out)
    s = ""
    if r.p(0.6):
        s += "SOL 101\nCEND\nTITLE = A, B\nSUBCASE 1\n  LOAD = 2\n"
    s += ("begin bulk" if low else r.pick(["BEGIN BULK", "BEGIN BULK ", "  BEGIN BULK"])) + "\n"
    com = ["$ comment", "$", "$--GRID---", ""]
    grids, pts = [], np.zeros((len(pid), 3))
    p3 = ref.points if ref.points.shape[1] == 3 else np.column_stack([ref.points, np.zeros(len(pid))])
    prefs = []
    w = r.pick([8, 16])
    for i, x in enumerate(p3):
        f = []
        for j in range(3):
            a, v = nas_real(r, x[j], w)
            if v == 0 and r.p(0.3, "blank coordinate"):
                a = ""
            f.append(a)
            pts[i, j] = v
        f = [str(pid[i]), ""] + f
        if r.p(0.2, "grid extra fields"):
            f += ["", "123456"] if r.p(0.5) else ["0"]
        while f[-1] == "" and len(f) > 4 and r.p(0.5):
            f.pop()
        grids.append(card("GRID", f))
    ref.points = pts
    junk = [card("PARAM", ["POST", "-1"]), card("MAT1", ["1", "2.1E+5", "", ".3"]), card("PSOLID", ["1", "1", "0"])]
    els, refs = [], []
    for k, (t, row) in enumerate(cells):
        nm = r.pick(NAS[t])
        q = foreign(t, row, spec.NASTRAN)
        f = [str(eid[k]), str(r.int(1, 9))] + [str(pid[i]) for i in q]
        refs.append(int(f[1]))
        if nm in ("CBAR", "CBEAM") and r.p(0.7):
            f += ["0.0", "0.0", "1.0"]
        elif nm in ("CTRIA3", "CTRIAR", "CQUAD4", "CQUADR", "CQUAD8", "CTRIA6") and r.p(0.25, "material angle"):
            f += ["45.0"] if nm[-1] in "34R" else (["", "", "", "", "45.0"] if nm == "CQUAD8" else ["45.0"])
        els.append(card(nm, f))
    if low:
        grids, els, junk = ([x.lower() for x in l] for l in (grids, els, junk))
    mixed = r.p(0.2, "elements before grids")
    body = els + junk + grids if mixed else grids + junk + els if r.p(0.5) else junk + grids + els
    for x in body:
        s += x + r.lines(com)
    s += ("enddata" if low else "ENDDATA") + "\n"
    at = np.cumsum([0] + [len(x) for _, x in ref.cells])
    ref.cell_data["nastran:ref"] = [np.array(refs[a:b]) for a, b in zip(at, at[1:])]
    save(r, path, s)


# ---------------------------------------------------------------- AVS-UCD
def avsucd(r, path, ref, cap):
    inv = {}
    for k, (t, p) in dt.AVS.items():
        inv[t] = (k, p)
    s = "".join(f"# {x}\n" for x in ["comment", "AVS 1 2 3", ""][:r.int(0, 4)])
    p3 = ref.points if ref.points.shape[1] == 3 else np.column_stack([ref.points, np.zeros(len(ref.points))])
    cells = runs(ref.cells)
    pid, eid = r.ids(len(p3)), r.ids(len(cells))
    wid = lambda v: 1 if np.ndim(v) == 1 else v.shape[1]
    cdall = {k: np.concatenate(v) for k, v in ref.cell_data.items()}
    nd, nc = sum(map(wid, ref.point_data.values())), sum(map(wid, cdall.values()))
    sep = r.sp
    s += sep().join(map(str, [len(p3), len(cells), nd, nc, 0])) + "\n"
    for i, x in enumerate(p3):
        s += r.pick(["", " "]) + sep().join([str(pid[i])] + [r.fl(c) for c in x]) + "\n"
    mats = []
    for k, (t, row) in enumerate(cells):
        nm, p = inv[t]
        q = [0] * len(row)
        for i, j in enumerate(p):
            q[j] = row[i]
        mats.append(r.int(0, 6))
        s += sep().join([str(eid[k]), str(mats[-1]), nm] + [str(pid[i]) for i in q]) + "\n"

    def block(data, ids):
        out = sep().join(map(str, [len(data)] + [wid(v) for v in data.values()])) + "\n"
        for k in data:
            out += f"{k}{r.pick([', ', ','])}{r.pick(['m/s', 'unknown', 'K'])}\n"
        order = r.rng.permutation(len(ids)) if r.p(0.4, "data order") else range(len(ids))
        for i in order:
            vals = [x for v in data.values() for x in np.atleast_1d(v[i])]
            out += sep().join([str(ids[i])] + [r.fl(x) for x in vals]) + "\n"
        return out
    if nd:
        s += block(ref.point_data, pid)
    if nc:
        s += block(cdall, eid)
    at = np.cumsum([0] + [len(x) for _, x in ref.cells])
    ref.cell_data["avsucd:material"] = [np.array(mats[a:b]) for a, b in zip(at, at[1:])]
    save(r, path, s)


# ---------------------------------------------------------------- OBJ, OFF, WKT, STL
def obj(r, path, ref, cap):
    s = r.lines(["# hello", "", "mtllib a.mtl", "o thing"])
    n = len(ref.points)
    neg = r.p(0.25, "relative indices")
    style = r.pick(["v", "v/t", "v//n", "v/t/n"], "face")
    inter = r.p(0.2, "vertices between faces")

    def v(i):
        return "v" + r.sp() + r.sp().join(r.fl(x) for x in ref.points[i]) + "\n"
    cells = runs(ref.cells)
    done = n
    if not inter:
        s += "".join(v(i) + r.lines(["# c", ""]) for i in range(n))
    else:
        done = 0
    if "t" in style:
        s += "".join(f"vt {r.fl(0.25 * i)} 0.5\n" for i in range(n))
        if not inter:
            ref.point_data["obj:vt"] = np.array([[0.25 * i, 0.5] for i in range(n)])
        else:
            ref.point_data["obj:vt"] = np.array([[0.25 * i, 0.5] for i in range(n)])
    if "n" in style:
        s += "".join("vn 0.0 0.0 1\n" for i in range(n))
        ref.point_data["obj:vn"] = np.array([[0.0, 0.0, 1.0]] * n)
    for t, row in cells:
        m = max(row) + 1
        while done < m:
            s += v(done)
            done += 1
        if r.p(0.1):
            s += r.pick(["g part\n", "g\n", "s 1\n", "s off\n", "usemtl red\n", "# x\n"])
        toks = []
        for i in row:
            k = str(i - done) if neg else str(i + 1)
            k2 = str(i - n) if neg else str(i + 1)
            toks.append({"v": k, "v/t": f"{k}/{k2}", "v//n": f"{k}//{k2}", "v/t/n": f"{k}/{k2}/{k2}"}[style])
        s += "f" + r.sp() + r.sp().join(toks) + r.pick(["", " "]) + "\n"
    while done < n:
        s += v(done)
        done += 1
    save(r, path, s)


def off(r, path, ref, cap):
    p = ref.points if ref.points.shape[1] == 3 else np.column_stack([ref.points, np.zeros(len(ref.points))])
    cells = runs(ref.cells)
    s = "OFF\n" + r.lines(["# comment", "", "  # x"])
    s += r.sp().join(map(str, [len(p), len(cells), r.pick([0, 3, len(cells) * 3 // 2])])) + "\n"
    s += r.pick(["", "\n"])
    s += "".join(r.pick(["", " "]) + r.sp().join(r.fl(x) for x in row) + "\n" for row in p)
    s += r.pick(["", "\n"])
    s += "".join("3" + r.sp() + r.sp().join(str(x) for x in row) + "\n" for _, row in cells)
    save(r, path, s)


def wkt(r, path, ref, cap):
    s0 = lambda: r.pick(["", "", " ", "\n"])
    tri = []
    for _, row in runs(ref.cells):
        pts = [r.sp().join(r.fl(x) for x in ref.points[i]) for i in list(row)]
        pts.append(pts[0])
        tri.append("(" + s0() + "(" + s0() + (s0() + "," + s0()).join(pts) + s0() + ")" + s0() + ")")
    tag = r.pick(["TIN", "TIN Z", "TIN  Z", "tin z", "Tin"] if ref.points.shape[1] == 3 else ["TIN", "Tin"], "tag")
    save(r, path, tag + r.pick(["", " ", "\n"]) + "(" + s0() + (s0() + "," + s0()).join(tri) + s0() + ")" + s0())


def stl(r, path, ref, cap):
    p = ref.points if ref.points.shape[1] == 3 else np.column_stack([ref.points, np.zeros(len(ref.points))])
    cells = [row for _, row in runs(ref.cells)]
    if r.p(0.4, "binary"):
        head = r.pick([b"solid model", b"binary", b"", b"solid\nfacet", b"solid made by CAD\n", b"solid x\r\n facet normal 0 0 1\n",
                       b"solid " + b"a" * 74, b"\xff\xfe\x00" * 26, b"\n", b"solid\x00", b"SOLID a\nendsolid a\n"])
        with open(path, "wb") as f:
            f.write(head.ljust(80, r.pick([b" ", b"\0"])))
            f.write(np.uint32(len(cells)).tobytes())
            for row in cells:
                f.write(r.rng.normal(size=3).astype("<f4").tobytes())
                f.write(p[row].astype("<f4").tobytes())
                f.write(np.uint16(r.pick([0, 0, 7, 65535])).tobytes())
        ref.points = p.astype("f4").astype("f8")
        return
    ind = r.pick(["", "  ", "\t"])
    nm = r.pick(["", " part", " my part 1 2 3", " x"])
    s = f"solid{nm}\n"
    for k, row in enumerate(cells):
        s += f"{ind}facet normal{r.sp()}{r.sp().join(r.fl(x) for x in np.round(r.rng.normal(size=3), 3))}\n"
        s += f"{ind}{ind}outer loop\n"
        for i in row:
            s += f"{ind}{ind}{ind}vertex{r.sp()}{r.sp().join(r.fl(x) for x in p[i])}\n"
        s += f"{ind}{ind}endloop\n{ind}endfacet\n"
        if r.p(0.05, "several solids"):
            s += f"endsolid\nsolid second{k}\n"
        if r.p(0.05):
            s += "\n"
    s += f"endsolid{nm}" + r.pick(["\n", ""])
    save(r, path, s)


# ---------------------------------------------------------------- Medit
def medit(r, path, ref, cap):
    if path.endswith("b"):
        return meditb(r, path, ref, cap)
    dim = ref.points.shape[1]
    same = lambda: r.pick(["\n", "\n", " "], "count")
    ver = r.pick([1, 2, 2, 3, 4], "version")
    if ver == 1:
        ref.points = ref.points.astype("f4")
    s = r.lines(["# c"]) + f"MeshVersionFormatted{same()}{ver}\n" + r.lines(["# c", ""])
    s += f"Dimension{same()}{dim}\n"
    pr = r.rng.integers(0, 9, len(ref.points))
    sec = []
    v = f"Vertices{same()}{len(pr)}\n"
    for x, q in zip(ref.points, pr):
        v += r.sp().join([r.fl(c) for c in x] + [str(q)]) + "\n"
    sec.append((None, v))
    name = {t: k for k, (t, _) in dt.MEDIT.items()}
    refs = {}
    for k, (t, rows) in enumerate(ref.cells):
        refs[k] = r.rng.integers(0, 9, len(rows))
        nm = name[t]
        if t == "hexahedron" and r.p(0.2):
            nm = "Hexaedra"
        v = f"{nm}{same()}{len(rows)}\n" + "".join(
            r.sp().join([str(i + 1) for i in row] + [str(q)]) + "\n" for row, q in zip(rows, refs[k]))
        sec.append((k, v))
    if r.p(0.3, "other sections"):
        it = lambda: str(r.int(1, len(pr)))
        fl = lambda: r.fl(float(np.round(r.rng.normal(), 3)))
        kinds = {"Corners": "i", "Ridges": "i", "RequiredVertices": "i", "Normals": "f" * dim, "NormalAtVertices": "ii",
                 "SubDomainFromMesh": "iiii", "VertexOnGeometricVertex": "ii", "VertexOnGeometricEdge": "iif",
                 "EdgeOnGeometricEdge": "ii", "Tangents": "f" * dim, "TangentAtVertices": "ii"}
        for _ in range(r.int(1, 3)):
            kw = r.pick(sorted(kinds), "keyword")
            rows = ["".join(r.pick([" ", "  "]) + (it() if c == "i" else fl()) for c in kinds[kw])[1:]
                    for _ in range(r.int(1, 5))]
            sec.append((None, f"{kw}{same()}{len(rows)}\n" + "\n".join(rows) + "\n"))
        if r.p(0.2):
            sec.append((None, r.pick(["Identifier\n\"name of it\"\n", "Geometry\n\"file.mesh\"\n"], "text")))
    if r.p(0.3, "section order"):
        sec = [sec[i] for i in r.rng.permutation(len(sec))]
    for _, v in sec:
        s += r.lines(["# c", "", "#"]) + v
    s += "End\n" if r.p(0.8) else ""
    order = [k for k, _ in sec if k is not None]
    ref.cells = [ref.cells[k] for k in order]
    ref.cell_data = {"medit:ref": [refs[k] for k in order]}
    ref.point_data = {"medit:ref": pr}
    save(r, path, s)


# sections of the Gamma mesh format that hold no cells (keyword code: one line of it)
GMF = {13: "i", 14: "i", 15: "i", 16: "i", 17: "i", 18: "i", 19: "iii", 20: "ii", 21: "iii", 22: "iiii", 40: "ii",
       41: "iirr", 42: "iirrr", 44: "ii", 59: "d", 60: "d", 61: "ii"}


def meditb(r, path, ref, cap):
    ver = r.pick([1, 2, 3, 4], "version")
    end = r.pick(["<", ">"], "endian")
    it, ft, pt = ("i4", "f4" if ver == 1 else "f8", "i4" if ver < 3 else "i8")
    if ver == 4:
        it = "i8"
    dim = ref.points.shape[1]
    if ver == 1:
        ref.points = ref.points.astype("f4")
    n = len(ref.points)
    pr = r.rng.integers(0, 9, n)
    code = {t: k for t, k in dt.MEDIT.values()}
    sec = []
    a = np.zeros(n, dtype=[("x", end + ft, dim), ("r", end + it)])
    a["x"], a["r"] = ref.points, pr
    sec.append((None, 4, np.array(n, end + it).tobytes() + a.tobytes()))
    refs = {}
    for k, (t, rows) in enumerate(ref.cells):
        refs[k] = r.rng.integers(0, 9, len(rows))
        b = np.column_stack([rows + 1, refs[k]]).astype(end + it)
        sec.append((k, code[t], np.array(len(rows), end + it).tobytes() + b.tobytes()))
    if r.p(0.3, "other sections"):
        for _ in range(r.int(1, 3)):
            q = r.pick(sorted(GMF), "keyword")
            dtp = np.dtype([(str(j), end + {"i": it, "r": ft}[c]) for j, c in enumerate(GMF[q].replace("d", "r" * dim))])
            a = np.zeros(r.int(1, 5), dtp)
            for nm in dtp.names:
                a[nm] = r.int(1, n)
            sec.append((None, q, np.array(len(a), end + it).tobytes() + a.tobytes()))
        if r.p(0.2):
            sec.append((None, 23, np.array(0.5, end + ft).tobytes()))
    if r.p(0.3, "section order"):
        sec = [sec[i] for i in r.rng.permutation(len(sec))]
    out = np.array([1, ver], end + "i4").tobytes()
    sec = [(None, 3, np.array(dim, end + "i4").tobytes())] + sec
    for _, k, body in sec:
        head = 4 + np.dtype(pt).itemsize
        out += np.array(k, end + "i4").tobytes() + np.array(len(out) + head + len(body), end + pt).tobytes() + body
    out += np.array(54, end + "i4").tobytes() + np.array(0, end + pt).tobytes()
    order = [k for k, *_ in sec if k is not None]
    ref.cells = [ref.cells[k] for k in order]
    ref.cell_data = {"medit:ref": [refs[k] for k in order]}
    ref.point_data = {"medit:ref": pr}
    open(path, "wb").write(out)


# ---------------------------------------------------------------- Netgen
def netgen(r, path, ref, cap):
    dim = ref.points.shape[1]
    com = ["# comment", "", "#"]
    sp = lambda: " " * r.int(1, 5)
    head = "mesh3d\n" + r.lines(com) + f"dimension\n{dim}\ngeomtype\n{r.pick([0, 1, 11, 12])}\n"
    by = {0: [], 1: [], 2: [], 3: []}
    for k, (t, rows) in enumerate(ref.cells):
        for row in rows:
            by[tdim(t)].append((t, row, r.int(1, 6)))
    two = r.p(0.3, "segments in two lines")
    sec = []

    def nodes(t, row):
        return [str(i + 1) for i in foreign(t, row, spec.NETGEN, spec.NETGEN_VERT)]
    kind = r.pick(["surfaceelements", "surfaceelementsgi", "surfaceelementsuv"], "surface")
    if by[2] or r.p(0.5):
        v = "# surfnr bcnr domin domout np p1 p2 p3\n" + kind + "\n" + f"{len(by[2])}\n"
        for t, row, ix in by[2]:
            tail = {"surfaceelements": [], "surfaceelementsgi": ["0"] * len(row),
                    "surfaceelementsuv": ["0.5", "0.25"] * len(row)}[kind]
            v += sp() + sp().join([str(r.int(1, 4)), str(ix), "1", "0", str(len(row))] + nodes(t, row) + tail) + "\n"
        sec.append((2, v))
    if by[3] or r.p(0.5):
        v = "#  matnr      np      p1      p2      p3      p4\nvolumeelements\n" + f"{len(by[3])}\n"
        for t, row, ix in by[3]:
            v += sp().join([str(ix), str(len(row))] + nodes(t, row)) + r.pick(["", " "]) + "\n"
        sec.append((3, v))
    if by[1] or r.p(0.5):
        v = ""
        if two:
            v += "surf1 surf2 p1 p2\n" if r.p(0.5) else "   surf1    surf2      p1      p2\n"
        v += "edgesegmentsgi2\n" + f"{len(by[1])}\n"
        for t, row, ix in by[1]:
            a = sp().join([str(ix), "0"] + [str(i + 1) for i in row] + (["0", "0"] if two else ["-1", "-1", "0", "0"]))
            v += a + ("\n" if two else sp()) + sp().join(["1", "0.0", "1", "1.0"]) + "\n"
        sec.append((1, v))
    if by[0]:
        v = "pointelements\n" + f"{len(by[0])}\n" + "".join(
            sp().join([str(row[0] + 1), str(ix)]) + "\n" for t, row, ix in by[0])
        sec.append((0, v))
    p3 = ref.points if dim == 3 else np.column_stack([ref.points, np.zeros(len(ref.points))])
    v = "#          X             Y             Z\npoints\n" + f"{len(p3)}\n" + "".join(
        sp() + sp().join(r.fl(x) for x in row) + "\n" for row in p3)
    sec.append((None, v))
    ref.field_data = {}
    if r.p(0.4, "names"):
        nm = r.pick([["top", "bottom"], ["my region", "b"], ["default", "x_1"]])
        k = r.pick(["materials", "bcnames"])
        sec.append((None, f"{k}\n2\n" + "".join(f"{i + 1}{sp()}{n}\n" for i, n in enumerate(nm))))
        co = {"materials": 0, "bcnames": 1}[k]
        ref.field_data = {n: [i + 1, dim - co] for i, n in enumerate(nm)}
    if r.p(0.2, "other sections"):
        sec.append((None, r.pick(["face_colours\n1\n1 0.0 1.0 0.0\n", "singular_points\n1\n1 1.0\n",
                                  "singular_edge_left\n0\n"])))
    if r.p(0.3, "section order"):
        sec = [sec[i] for i in r.rng.permutation(len(sec))]
    s = head
    for _, v in sec:
        s += r.lines(com) + v
    s += "endmesh\n"
    cells, idx = [], []
    for d, _ in sec:
        if d is None:
            continue
        for t, row, ix in by[d]:
            if cells and cells[-1][0] == t:
                cells[-1][1].append(row)
                idx[-1].append(ix)
            else:
                cells.append((t, [row]))
                idx.append([ix])
    ref.cells = [(t, np.array(a)) for t, a in cells]
    ref.cell_data = {"netgen:index": [np.array(a) for a in idx]}
    save(r, path, s)


# ---------------------------------------------------------------- SU2
def su2(r, path, ref, cap):
    dim = ref.points.shape[1]
    num = {t: k for k, t in dt.SU2.items()}
    com = ["% comment", "", "%"]
    eq = lambda: r.pick(["= ", "=", "=  "])
    inner = [(t, row) for t, row in runs(ref.cells) if tdim(t) == dim]
    bound = [(t, row) for t, row in runs(ref.cells) if tdim(t) == dim - 1]
    ei, pi = r.p(0.5, "element index"), r.int(0, 3)

    def el(t, row, k, ix):
        return r.sp().join([str(num[t])] + [str(i) for i in row] + ([str(k)] if ix else [])) + "\n"
    sec = []
    v = f"NELEM{eq()}{len(inner)}\n" + "".join(el(t, row, k, ei) for k, (t, row) in enumerate(inner))
    sec.append(v)
    v = f"NPOIN{eq()}{len(ref.points)}" + (f" {len(ref.points)}" if pi and r.p(0.4) else "") + "\n"
    for k, x in enumerate(ref.points):
        v += r.pick(["", " "]) + r.sp().join([r.fl(c) for c in x] + [str(k)] * pi) + "\n"
    sec.append(v)
    nm = r.int(1, 4) if bound else 0
    cut = np.sort(r.rng.integers(0, len(bound) + 1, nm - 1)) if nm else []
    cut = [0, *map(int, cut), len(bound)] if nm else [0]
    tags, mv, btag = [], f"NMARK{eq()}{nm}\n", []
    bi = r.p(0.3, "marker element index")
    for j, (a, b) in enumerate(zip(cut, cut[1:])):
        tg = j + 1 + r.int(0, 2) * 10
        mv += r.lines(com) + f"MARKER_TAG{eq()}{tg}\nMARKER_ELEMS{eq()}{b - a}\n"
        mv += "".join(el(t, row, k, bi) for k, (t, row) in enumerate(bound[a:b]))
        btag += [tg] * (b - a)
    sec.append(mv)
    if r.p(0.3, "section order"):
        sec = [sec[i] for i in r.rng.permutation(3)]
    s = r.lines(com) + f"NDIME{eq()}{dim}\n"
    for v in sec:
        s += r.lines(com) + v
    by = {}
    for (t, row), g in list(zip(inner, [0] * len(inner))) + list(zip(bound, btag)):
        by.setdefault(t, []).append((row, g))
    ref.cells = [(t, np.array([x for x, _ in l])) for t, l in by.items()]
    ref.cell_data = {"su2:tag": [np.array([g for _, g in l]) for l in by.values()]}
    save(r, path, s)


# ---------------------------------------------------------------- Tecplot
def tecplot(r, path, ref, cap):
    t = ref.cells[0][0]
    rows = np.concatenate([c for _, c in ref.cells])
    ref.cell_data = {k: [np.concatenate(v)] for k, v in ref.cell_data.items()}
    ref.cells = [(t, rows)]
    n, m = len(ref.points), len(rows)
    point = (not ref.cell_data) and r.p(0.5)
    old = r.p(0.4, "old style")
    xyz = ["X", "Y", "Z"] if r.p(0.5) else ["x", "y", "z"]
    var = [(xyz[j], ref.points[:, j], False) for j in range(ref.points.shape[1])]
    var += [(k, v, False) for k, v in ref.point_data.items()]
    if r.p(0.3, "variable order"):
        var = [var[i] for i in r.rng.permutation(len(var))]
    cv = [(k, v[0], True) for k, v in ref.cell_data.items()]
    inter = cv and not old and r.p(0.3, "cell variables first")
    var = cv + var if inter else var + cv
    com = ["# comment", ""]
    s = r.lines(com)
    if r.p(0.6):
        s += r.pick(["TITLE", "Title", "title"]) + r.pick([" = ", "="]) + '"A title, X"\n'
    nl = r.p(0.3, "variables on lines")
    s += r.pick(["VARIABLES", "Variables", "variables"]) + r.pick([" = ", "="])
    if nl:
        s += "\n".join(f'"{k}"' for k, *_ in var) + "\n"
    else:
        s += r.pick([", ", ",", " "]).join(f'"{k}"' for k, *_ in var) + "\n"
    et = {"line": "LINESEG", "triangle": "TRIANGLE", "quad": "QUADRILATERAL", "tetra": "TETRAHEDRON",
          "hexahedron": "BRICK"}[t]
    e = lambda: r.pick(["=", " = ", "= "])
    low = (lambda x: x.lower()) if r.p(0.2, "lower-case zone") else (lambda x: x)
    opt = []
    if r.p(0.5):
        opt.append('T' + e() + '"zone one"')
    if old:
        opt += [f"N{e()}{n}", f"E{e()}{m}", f"F{e()}" + ("FEPOINT" if point else "FEBLOCK"), f"ET{e()}{et}"]
        if cv:
            opt.append(f"NV{e()}{len(var) - len(cv)}")
    else:
        opt += [f"{r.pick(['N', 'NODES'])}{e()}{n}", f"{r.pick(['E', 'ELEMENTS'])}{e()}{m}",
                f"DATAPACKING{e()}" + ("POINT" if point else "BLOCK"), f"ZONETYPE{e()}FE{et}"]
        if cv:
            at = [i + 1 for i, v in enumerate(var) if v[2]]
            nd = [i + 1 for i, v in enumerate(var) if not v[2]]
            rng_ = lambda l: f"{l[0]}-{l[-1]}" if len(l) > 1 and l == list(range(l[0], l[-1] + 1)) and r.p(0.6) \
                else ",".join(map(str, l))
            loc = f"[{rng_(at)}]=CELLCENTERED"
            if r.p(0.4, "nodal varlocation"):
                loc = f"[{rng_(nd)}]=NODAL, " + loc if r.p(0.5) else loc + f",[{rng_(nd)}]=NODAL"
            opt.append(f"VARLOCATION{e()}({loc})")
    opt = [opt[i] for i in r.rng.permutation(len(opt))] if r.p(0.5) else opt
    sep = r.pick([", ", ",", " "])
    if r.p(0.3, "zone on lines") and len(opt) > 2:
        z = opt[0] + sep.rstrip(" ") + "\n" + ("\n" if sep == " " else ",\n").join(opt[1:]).replace(",\n", "\n, ")
    else:
        z = sep.join(opt)
    if low("A") == "a" and '"' not in z:
        z = z.lower()
    s += r.pick(["ZONE ", "Zone "]) + z + "\n"
    if point:
        for i in range(n):
            s += r.sp().join(r.fl(v[i]) for _, v, _ in var) + "\n"
    else:
        for _, v, _ in var:
            s += wrap(r, [r.fl(x) for x in v], r.sp(), r.pick([1, 4, 1000])) + "\n"
            s += r.lines(com)
    for row in rows:
        s += r.sp().join(str(i + 1) for i in row) + "\n"
    save(r, path, s)


# ---------------------------------------------------------------- TetGen
def tetgen(r, path, ref, cap):
    stem = os.path.splitext(path)[0]
    base = r.pick([0, 1], "base")
    na, nb = r.int(0, 3), r.pick([0, 1])
    n = len(ref.points)
    com = ["# c", "", "#"]
    att = np.round(r.rng.normal(size=(n, na)), 3)
    mark = r.rng.integers(-3, 9, n)
    s = r.lines(com) + r.sp().join(map(str, [n, 3, na, nb])) + r.pick(["", " "]) + "\n"
    for i, x in enumerate(ref.points):
        s += r.pick(["", "   "]) + r.sp().join([str(i + base)] + [r.fl(c) for c in x] + [r.fl(a) for a in att[i]]
                                             + ([str(mark[i])] if nb else [])) + "\n"
    s += r.pick(["", "# Generated by tetgen -p a.poly\n"])
    save(r, stem + ".node", s)
    rows = np.concatenate([c for _, c in ref.cells])
    ne = r.pick([0, 1, 2])
    ea = r.rng.integers(0, 5, (len(rows), ne))
    s = r.lines(com) + r.sp().join(map(str, [len(rows), 4, ne])) + "\n"
    for i, row in enumerate(rows):
        s += r.sp().join([str(i + base)] + [str(j + base) for j in row] + [str(a) for a in ea[i]]) + "\n"
    s += r.pick(["", "# Generated by tetgen -p a.poly\n"])
    save(r, stem + ".ele", s)
    ref.cells = [("tetra", rows)]
    ref.point_data = {f"tetgen:attr{k + 1}": att[:, k] for k in range(na)}
    if nb:
        ref.point_data["tetgen:ref"] = mark.astype(float)
    ref.cell_data = {"tetgen:ref" + ("" if k == 0 else str(k + 1)): [ea[:, k]] for k in range(ne)}


# ---------------------------------------------------------------- PERMAS
PER = {}
for _k, _t in dt.PERMAS.items():
    PER.setdefault(_t, []).append(_k)


def permas(r, path, ref, cap):
    com = ["! comment", "!", "!---- 1 2 3"]
    pid = r.ids(len(ref.points))
    eid = r.ids(sum(len(c) for _, c in ref.cells))
    p3 = ref.points if ref.points.shape[1] == 3 else np.column_stack([ref.points, np.zeros(len(ref.points))])
    s = r.lines(com) + "$ENTER COMPONENT  NAME=DFLT_COMP  DOFTYPE=DISP MATH\n" + r.lines(com)
    s += "$STRUCTURE\n" + r.lines(com)
    s += r.pick(["$COOR\n", "$COOR  NSET = ALL_NODES\n", "$coor\n"])
    for i, x in enumerate(p3):
        s += r.sp().join([str(pid[i])] + [r.fl(c) for c in x]) + "\n"
        if r.p(0.03, "comment in $COOR"):
            s += r.pick(com) + "\n"
    at = 0
    for t, rows in ref.cells:
        s += r.lines(com)
        s += f"{r.case('$ELEMENT')} TYPE={r.pick(PER[t])}" + r.pick(["", " ESET=E1"]) + "\n"
        for row in rows:
            p = dt.PERMAS_ORDER.get(t)
            q = list(row)
            if p is not None:
                for i, j in enumerate(p):
                    q[j] = row[i]
            s += r.sp().join([str(eid[at])] + [str(pid[i]) for i in q]) + "\n"
            at += 1
            if r.p(0.03, "comment in $ELEMENT"):
                s += r.pick(com) + "\n"
    for kind, ids in (("NSET", pid), ("ESET", eid)):
        if len(ids) and r.p(0.2, kind):
            s += f"${kind},{kind}=s{r.int(0, 9)}\n"
            for _ in range(r.int(1, 4)):
                s += " ".join(str(r.pick(ids)) for _ in range(r.int(1, 9))) + "\n"
    s += (r.lines(com) + "$END STRUCTURE\n$EXIT COMPONENT\n$FIN\n") if not r.p(0.1, "no end") else ""
    save(r, path, s)


# ---------------------------------------------------------------- MDPA
MDPA = {"vertex": ["Point2D", "Point3D"], "line": ["Line2D2", "Line3D2"], "line3": ["Line2D3", "Line3D3"],
        "triangle": ["Triangle2D3", "Triangle3D3"], "triangle6": ["Triangle2D6", "Triangle3D6"],
        "quad": ["Quadrilateral2D4", "Quadrilateral3D4"], "quad8": ["Quadrilateral2D8", "Quadrilateral3D8"],
        "quad9": ["Quadrilateral2D9", "Quadrilateral3D9"], "tetra": ["Tetrahedra3D4"], "tetra10": ["Tetrahedra3D10"],
        "hexahedron": ["Hexahedra3D8"], "wedge": ["Prism3D6"]}


def mdpa(r, path, ref, cap):
    com = ["// comment", "//", ""]
    pid = r.ids(len(ref.points))
    eid = r.ids(sum(len(c) for _, c in ref.cells))
    p3 = ref.points if ref.points.shape[1] == 3 else np.column_stack([ref.points, np.zeros(len(ref.points))])
    ind = r.pick(["", "  ", "\t", "    "])
    s = r.lines(com) + "Begin ModelPartData\n//  VARIABLE_NAME value\nEnd ModelPartData\n\n"
    s += "Begin Properties 0\n  DENSITY 1.0\nEnd Properties\n" + r.lines(com)
    s += "Begin Nodes\n"
    for i, x in enumerate(p3):
        s += ind + r.sp().join([str(pid[i])] + [r.fl(c) for c in x]) + r.pick(["", " "]) + "\n"
        if r.p(0.03, "comment in nodes"):
            s += r.pick(com) + "\n"
    s += "End Nodes\n"
    at = 0
    for t, rows in ref.cells:
        k = r.pick(["Elements", "Elements", "Conditions"])
        s += r.lines(com) + f"Begin {k} {r.pick(['', '', 'Surface' if 0 else ''])}{r.pick(MDPA[t])}" + \
            r.pick(["", "N" if t != "vertex" else ""]) + r.pick(["", "  // type"]) + "\n"
        for row in rows:
            s += ind + r.sp().join([str(eid[at]), str(r.int(0, 4))] + [str(pid[i]) for i in row]) + "\n"
            at += 1
        s += f"End {k}\n"
    if r.p(0.4, "submodelpart"):
        s += "Begin SubModelPart Main\n  Begin SubModelPartNodes\n  " + str(pid[0]) + \
            "\n  End SubModelPartNodes\n  Begin SubModelPartElements\n  End SubModelPartElements\nEnd SubModelPart\n"
    if r.p(0.3, "nodal data"):
        s += "Begin NodalData DISPLACEMENT_X\n" + f"{pid[0]} 0 0.25\n" + "End NodalData\n"
    save(r, path, s)


# ---------------------------------------------------------------- DOLFIN XML
def dolfin(r, path, ref, cap):
    t = ref.cells[0][0]
    rows = np.concatenate([c for _, c in ref.cells])
    ref.cells = [(t, rows)]
    ref.cell_data = {k: [np.concatenate(v)] for k, v in ref.cell_data.items()}
    dim = ref.points.shape[1]
    ct = {"triangle": "triangle", "tetra": "tetrahedron"}[t]
    q = r.pick(['"', "'"])
    nl = "\n" if r.p(0.9) else ""

    def el(name, attrs, close=True):
        a = [f"{k}={q}{v}{q}" for k, v in attrs]
        if r.p(0.3, "attribute order"):
            a = [a[i] for i in r.rng.permutation(len(a))]
        return f"<{name} " + r.pick([" ", "  "]).join(a) + (r.pick(["/>", " />"]) if close else ">") + nl
    com = ["<!-- comment -->", "<!-- <vertex/> -->", ""]
    s = r.pick(["", '<?xml version="1.0" encoding="UTF-8"?>\n', "<?xml version='1.0'?>\n"])
    s += f"<dolfin xmlns:dolfin={q}https://fenicsproject.org/{q}>{nl}"
    s += el("mesh", [("celltype", ct), ("dim", dim)], False) + r.lines(com)
    s += f"<vertices size={q}{len(ref.points)}{q}>{nl}"
    order = r.rng.permutation(len(ref.points)) if r.p(0.3, "order") else range(len(ref.points))
    for i in order:
        s += el("vertex", [("index", i)] + [(c, r.fl(x)) for c, x in zip("xyz", ref.points[i])])
    s += f"</vertices>{nl}" + r.lines(com) + f"<cells size={q}{len(rows)}{q}>{nl}"
    order = r.rng.permutation(len(rows)) if r.p(0.3, "order") else range(len(rows))
    for i in order:
        s += el(ct, [("index", i)] + [(f"v{j}", x) for j, x in enumerate(rows[i])])
    s += f"</cells>{nl}</mesh>{nl}</dolfin>\n"
    save(r, path, s)
    td = tdim(t)
    for k, (v,) in ref.cell_data.items():
        ty = {"f": "float", "i": "int", "u": "uint"}[v.dtype.kind]
        if ty == "float" and r.p(0.3, "double"):
            ty = "double"
        s = f"<dolfin xmlns:dolfin={q}x{q}>{nl}" + el(
            "mesh_function", [("type", ty), ("dim", td), ("size", len(v))], False)
        order = r.rng.permutation(len(v)) if r.p(0.3) else range(len(v))
        for i in order:
            s += el("entity", [("index", i), ("value", r.fl(v[i], 0) if ty in ("float", "double") else v[i])])
        s += "</mesh_function></dolfin>\n"
        save(r, os.path.splitext(path)[0] + f"_{k}.xml", s)
