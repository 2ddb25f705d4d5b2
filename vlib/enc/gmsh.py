"""Gmsh MSH 2.2, 4.0 and 4.1."""
import numpy as np

from .. import spec
from ..dec import gmsh as dg
from ..ref import tdim

CODE = {t: k for k, t in dg.TYPES.items()}


class W:
    """ASCII or binary output of numbers."""

    def __init__(self, r, binary, size=8):
        self.r, self.binary, self.size = r, binary, size
        self.out = b""

    def text(self, s):
        self.out += s.encode()

    def put(self, kind, *v, nl=True):
        if self.binary:
            dt = {"i": "<i4", "q": f"<u{self.size}", "u": "<u8", "l": "<i8", "d": "<f8"}[kind]
            self.out += np.asarray(v).ravel().astype(dt).tobytes()
        else:
            f = self.r.fl if kind == "d" else (lambda x: str(int(x)))
            self.out += (self.r.sp().join(f(x) for x in np.asarray(v).ravel())).encode()
            self.out += b"\n" if nl else b" "

    def end(self):
        if self.binary:
            self.out += b"\n"

    def nl(self):
        if not self.binary:
            self.out += b"\n"


def _order(t, row):
    p = spec.perm(t, spec.GMSH)
    return np.asarray(row)[spec.inverse(p)] if p else np.asarray(row)


def _postproc(w, r, kind, name, tags, vals):
    vals = np.asarray(vals, dtype="f8").reshape(len(tags), -1)
    nc = vals.shape[1]
    w.text(f"${kind}\n")
    ns = 2 if r.p(0.15, "interpolation scheme tag") else 1
    w.text(f'{ns}\n"{name}"\n' + ('"scheme"\n' if ns == 2 else ""))
    w.text(r.pick(["1\n0.0\n", "1\n3.5e-2\n", "0\n"]))
    ni = r.pick([3, 3, 4])
    w.text(f"{ni}\n0\n{nc}\n{len(tags)}\n" + ("0\n" if ni == 4 else ""))
    o = r.rng.permutation(len(tags)) if r.p(0.4, "data order") else range(len(tags))
    for i in o:
        w.put("i", tags[i], nl=False)
        w.put("d", vals[i])
    w.end()
    w.text(f"$End{kind}\n")


def _common(r, ref, cap):
    n = len(ref.points)
    ref.points = ref.points if ref.points.shape[1] == 3 else np.column_stack([ref.points, np.zeros(n)])
    dims = sorted({tdim(t) for t, _ in ref.cells})
    names = {}
    if r.p(0.6, "physical names"):
        for k, nm in enumerate(["Inlet", "my wall", "outer-3", "x"][:r.int(1, 5)]):
            names[nm] = (r.int(1, 4) + 10 * k, int(r.pick(dims)))
    for nm, (num, d) in names.items():
        ref.field_data[nm] = np.array([num, d])
    return names


def _head(w, r, version, names):
    if r.p(0.2, "comments first"):
        w.text("$Comments\nnobody reads this\n$EndComments\n")
    w.text(f"$MeshFormat\n{version} {int(w.binary)} {w.size}\n")
    if w.binary:
        w.out += np.array([1], "<i4").tobytes() + b"\n"
    w.text("$EndMeshFormat\n")
    if names:
        w.text(f"$PhysicalNames\n{len(names)}\n")
        for nm, (num, d) in names.items():
            w.text(f'{d} {num} "{nm}"\n')
        w.text("$EndPhysicalNames\n")
    _other(w, r)


def _other(w, r):
    if r.p(0.12, "unknown section"):
        w.text(r.pick(["$Comments\nsome text\n1 2 3\n$EndComments\n",
                       "$InterpolationScheme\n\"x\"\n0\n$EndInterpolationScheme\n"]))


def _periodic(r, ref, ptags):
    """[(dim, slave, master, affine, pairs of indices)]"""
    n = len(ref.points)
    if n < 3 or not r.p(0.4, "periodic"):
        return []
    out = []
    for _ in range(r.int(1, 4)):
        m = r.int(1, min(n, 6) + 1)
        sm = np.column_stack([r.rng.permutation(n)[:m], r.rng.permutation(n)[:m]])
        aff = None if r.p(0.4) else np.round(r.rng.normal(size=16), 4)
        out.append((r.int(0, 3), r.int(1, 99), r.int(1, 99), aff, sm))
    ref.extra["periodic"] = out
    return out


def check(ref, m):
    v = []
    want = ref.extra.get("periodic") or []
    got = m.gmsh_periodic or []
    if len(want) != len(got):
        return [("periodic", f"{len(want)} periodic links read as {len(got)}")]
    for a, b in zip(want, got):
        if a[0] != b[0] or (a[1], a[2]) != tuple(int(x) for x in b[1]):
            v.append(("periodic", f"link {a[:3]} read as {b[:2]}"))
        elif (0 if a[3] is None else len(a[3])) != (0 if b[2] is None else len(b[2])):
            v.append(("periodic", f"affine of link {a[:3]}: {a[3]} read as {b[2]}"))
        elif a[3] is not None and len(a[3]) and not np.allclose(a[3], b[2], rtol=1e-15, atol=0):
            v.append(("periodic", f"affine of link {a[:3]}: {a[3]} read as {b[2]}"))
        elif not np.array_equal(a[4], b[3]):
            v.append(("periodic", f"nodes of link {a[:3]}: {a[4].tolist()} read as {np.asarray(b[3]).tolist()}"))
    be = ref.extra.get("bounding")
    if be is not None:
        g = m.cell_sets.get("gmsh:bounding_entities")
        if g is None or len(g) != len(be):
            v.append(("bounding", f"bounding entities {be} read as {g}"))
        else:
            for x, y in zip(be, g):
                if list(x or []) != [int(q) for q in (y if y is not None else [])]:
                    v.append(("bounding", f"bounding entities {x} read as {y}"))
    return v


def _nodedata(w, r, ref, ptags, etags):
    for nm, d in ref.point_data.items():
        if nm != "gmsh:dim_tags":
            _postproc(w, r, "NodeData", nm, ptags, d)
            _other(w, r)
    for nm, l in ref.cell_data.items():
        if not nm.startswith("gmsh:"):
            _postproc(w, r, "ElementData", nm, np.concatenate(etags), np.concatenate(
                [np.asarray(x, dtype="f8").reshape(len(x), -1) for x in l]))


def _ids(r, counts):
    a = r.ids(sum(counts))
    return np.split(a, np.cumsum(counts)[:-1])


def msh22(r, path, ref, cap):
    names = _common(r, ref, cap)
    w = W(r, cap.kw["binary"])
    _head(w, r, r.pick(["2.2", "2.2", "2", "2.1"]), names)
    n = len(ref.points)
    pt = r.ids(n)
    w.text(f"$Nodes\n{n}\n")
    for t, x in zip(pt, ref.points):
        w.put("i", t, nl=False)
        w.put("d", x)
    w.end()
    w.text("$EndNodes\n")
    _other(w, r)
    et = _ids(r, [len(c) for _, c in ref.cells])
    w.text(f"$Elements\n{sum(map(len, et))}\n")
    phys = [r.rng.integers(0, 5, len(c)) for _, c in ref.cells]
    geo = [r.rng.integers(1, 50, len(c)) for _, c in ref.cells]
    nt = r.pick([2, 2, 2, 0, 3, 4], "tags")
    for k, (t, rows) in enumerate(ref.cells):
        head = not w.binary
        left = 0
        for i, row in enumerate(rows):
            extra = [phys[k][i], geo[k][i], 1, 1][:nt] if nt < 4 else [phys[k][i], geo[k][i], 1, r.int(1, 4)]
            if not w.binary:
                w.put("i", et[k][i], CODE[t], nt, *extra, *pt[_order(t, row)])
            else:
                if not left:
                    left = len(rows) - i if r.p(0.6) else r.int(1, len(rows) - i + 1)
                    w.put("i", CODE[t], left, nt)
                w.put("i", et[k][i], *extra, *pt[_order(t, row)])
                left -= 1
    w.end()
    w.text("$EndElements\n")
    if nt:
        ref.cell_data["gmsh:physical"] = phys
        ref.cell_data["gmsh:geometrical"] = geo
    per = _periodic(r, ref, pt)
    if per:
        w.text(f"$Periodic\n{len(per)}\n")
        for d, s, m, aff, sm in per:
            w.text(f"{d} {s} {m}\n")
            if aff is not None:
                w.text("Affine " + " ".join(r.fl(x) for x in aff) + "\n")
            w.text(f"{len(sm)}\n" + "".join(f"{pt[a]} {pt[b]}\n" for a, b in sm))
        w.text("$EndPeriodic\n")
    _nodedata(w, r, ref, pt, et)
    open(path, "wb").write(w.out)


def _entities(r, ref, names):
    """Split the blocks into entity blocks; give every entity physical tags and boundaries."""
    cells, data, ents, used = [], {k: [] for k in ref.cell_data}, [], {}
    for b, (t, rows) in enumerate(ref.cells):
        cuts = [0, len(rows)]
        if len(rows) > 1 and r.p(0.3, "several entities"):
            cuts = sorted({0, len(rows), r.int(1, len(rows))})
        for a, e in zip(cuts, cuts[1:]):
            cells.append((t, rows[a:e]))
            for k in data:
                data[k].append(ref.cell_data[k][b][a:e])
            d = tdim(t)
            tag = r.int(1, 60)
            if not (used.get(d) and r.p(0.2, "entity with several element types")):
                while tag in used.setdefault(d, {}):
                    tag += 1
                ph = [num for num, dd in names.values() if dd == d and r.p(0.6)]
                if r.p(0.3):
                    ph += [r.int(100, 110)]
                bnd = [r.int(1, 40) * r.pick([1, -1]) for _ in range(r.int(0, 5))] if d else None
                used[d][tag] = (ph, bnd)
            else:
                tag = r.pick(sorted(used[d]))
            ents.append((d, tag))
    ref.cells = cells
    ref.cell_data = data
    return ents, used


def _nodes_by_entity(r, ref, used, blocks):
    """Consecutive runs of nodes with an entity each."""
    n = len(ref.points)
    pool = [(d, t) for d in used for t in used[d]]
    k = min(n, r.int(1, 5))
    cuts = [0] + sorted(r.rng.choice(np.arange(1, n), k - 1, replace=False).tolist()) + [n] if k > 1 else [0, n]
    out = [(pool[r.int(0, len(pool))], a, e) for a, e in zip(cuts, cuts[1:])]
    if r.p(0.2, "entity without nodes"):
        out.insert(r.int(0, len(out) + 1), (pool[0], 0, 0))
    return out


def _write_entities(w, r, used, version, tagn):
    w.text("$Entities\n")
    extra0 = sorted({r.int(1, 30) for _ in range(r.int(0, 3))})
    ent = {d: dict(used.get(d, {})) for d in range(4)}
    for t in extra0:
        ent[0].setdefault(t, ([], None))
    w.put(tagn, *[len(ent[d]) for d in range(4)])
    for d in range(4):
        for t, (ph, bnd) in ent[d].items():
            w.put("i", t, nl=False)
            w.put("d", *np.round(r.rng.normal(size=3 if d == 0 and version == "4.1" else 6), 3), nl=False)
            w.put(tagn, len(ph), nl=False)
            if ph:
                w.put("i", *ph, nl=False)
            if d:
                w.put(tagn, len(bnd), nl=False)
                if bnd:
                    w.put("i", *bnd, nl=False)
            w.nl()
    w.end()
    w.text("$EndEntities\n")


def _tags_of(ref, ents, used, names, given):
    ref.cell_data["gmsh:geometrical"] = [np.full(len(c), t) for (_, t), (_, c) in zip(ents, ref.cells)]
    ph = [used[d][t][0] for d, t in ents]
    if given and any(ph):
        ref.cell_data["gmsh:physical"] = [np.full(len(c), p[0] if p else 0) for p, (_, c) in zip(ph, ref.cells)]


def msh40(r, path, ref, cap):
    names = _common(r, ref, cap)
    w = W(r, cap.kw["binary"])
    given = r.p(0.8, "entities")
    if not given:
        names = {}
        ref.field_data = {}
    _head(w, r, r.pick(["4", "4.0"]), names)
    ents, used = _entities(r, ref, names)
    if given:
        _write_entities(w, r, used, "4.0", "u")
    n = len(ref.points)
    pt = r.ids(n)
    nb = _nodes_by_entity(r, ref, used, ents)
    w.text("$Nodes\n")
    w.put("u", len(nb), n)
    for (d, t), a, e in nb:
        w.put("i", t, d, 0, nl=False)
        w.put("u", e - a)
        for i in range(a, e):
            w.put("i", pt[i], nl=False)
            w.put("d", ref.points[i])
    w.end()
    w.text("$EndNodes\n")
    _other(w, r)
    et = _ids(r, [len(c) for _, c in ref.cells])
    w.text("$Elements\n")
    w.put("u", len(ref.cells), sum(map(len, et)))
    for (d, tag), (t, rows), ids in zip(ents, ref.cells, et):
        w.put("i", tag, d, CODE[t], nl=False)
        w.put("u", len(rows))
        for i, row in zip(ids, rows):
            w.put("i", i, *pt[_order(t, row)])
    w.end()
    w.text("$EndElements\n")
    _tags_of(ref, ents, used, names, given)
    per = _periodic(r, ref, pt)
    if per:
        w.text("$Periodic\n")
        w.put("i", len(per))
        for d, s, m, aff, sm in per:
            w.put("i", d, s, m)
            if w.binary:
                if aff is not None:
                    w.put("l", -16)
                    w.put("d", aff)
            elif aff is not None:
                w.text("Affine " + " ".join(r.fl(x) for x in aff) + "\n")
            w.put("u", len(sm))
            for a, b in sm:
                w.put("i", pt[a], pt[b])
        w.end()
        w.text("$EndPeriodic\n")
    _nodedata(w, r, ref, pt, et)
    open(path, "wb").write(w.out)


def msh41(r, path, ref, cap):
    names = _common(r, ref, cap)
    w = W(r, cap.kw["binary"])
    if r.p(0.2, "4-byte size_t"):
        w.size = 4
    given = r.p(0.8, "entities")
    if not given:
        names = {}
        ref.field_data = {}
    _head(w, r, "4.1", names)
    ents, used = _entities(r, ref, names)
    if given:
        _write_entities(w, r, used, "4.1", "q")
        ref.extra["bounding"] = [used[d][t][1] for d, t in ents]
    n = len(ref.points)
    pt = r.ids(n)
    nb = _nodes_by_entity(r, ref, used, ents)
    dt = np.empty((n, 2), dtype=int)
    w.text("$Nodes\n")
    w.put("q", len(nb), n, min(pt), max(pt))
    for (d, t), a, e in nb:
        w.put("i", d, t, 0, nl=False)
        w.put("q", e - a)
        for i in range(a, e):
            w.put("q", pt[i])
        for i in range(a, e):
            w.put("d", ref.points[i])
        dt[a:e] = d, t
    ref.point_data["gmsh:dim_tags"] = dt
    w.end()
    w.text("$EndNodes\n")
    _other(w, r)
    et = _ids(r, [len(c) for _, c in ref.cells])
    al = np.concatenate(et)
    w.text("$Elements\n")
    w.put("q", len(ref.cells), len(al), min(al), max(al))
    for (d, tag), (t, rows), ids in zip(ents, ref.cells, et):
        w.put("i", d, tag, CODE[t], nl=False)
        w.put("q", len(rows))
        for i, row in zip(ids, rows):
            w.put("q", i, *pt[_order(t, row)])
    w.end()
    w.text("$EndElements\n")
    _tags_of(ref, ents, used, names, given)
    for nm, (num, dd) in names.items():
        ref.cell_sets[nm] = [np.arange(len(c)) if d == dd and num in used[d][t][0] else np.zeros(0, int)
                             for (d, t), (_, c) in zip(ents, ref.cells)]
    per = _periodic(r, ref, pt)
    if per:
        w.text("$Periodic\n")
        w.put("q", len(per))
        for d, s, m, aff, sm in per:
            w.put("i", d, s, m)
            aff = [] if aff is None else aff
            w.put("q", len(aff), nl=False)
            if len(aff):
                w.put("d", aff)
            else:
                w.nl()
            w.put("q", len(sm))
            for a, b in sm:
                w.put("q", pt[a], pt[b])
        w.end()
        w.text("$EndPeriodic\n")
    _nodedata(w, r, ref, pt, et)
    open(path, "wb").write(w.out)
