"""Sets, reference tags, named groups and periodicity each format carries: adders that put
them on a reference mesh inside the format's scope, and comparators for the mesh read back."""
import numpy as np

from . import gen, oracle
from .ref import tdim


LONG = True  # whether names up to the longest a format stores are tried


def _names(rng, k, pool=None, long=0, odd=()):
    """k names: from the pool, names of up to `long` characters (at that length exactly, too, and
    differing only at the end), and the odd ones a format allows."""
    pool = pool or ["Inlet", "wall_1", "OUT", "Set-A", "fixed", "z9", "sym", "BC7", "core", "n2"]
    if long and LONG and rng.random() < 0.4:
        stem = "Long_" + "".join(rng.choice(list("abcXYZ019_"), long))
        n = int(rng.choice([long, long, long - 1, int(rng.integers(6, long))]))
        pool = [stem[:n - 1] + c for c in "AB"] + list(pool)
        k = max(k, 2)
        if rng.random() < 0.5:
            return pool[:2] + [str(s) for s in rng.permutation(pool[2:])[:k - 2]]
    if odd and rng.random() < 0.3:
        pool = list(odd)
    return [str(s) for s in rng.permutation(pool)[:k]]


def _subset(rng, n, mode=None):
    mode = mode if mode is not None else int(rng.integers(0, 6))
    if n == 0:
        return np.zeros(0, dtype=int)
    if mode == 0:
        return np.arange(n)
    if mode == 1:
        return np.array([int(rng.integers(0, n))])
    if mode == 2:  # a size around the line-wrapping widths
        k = int(rng.choice([7, 8, 9, 15, 16, 17, 10, 5, 6]))
        return np.sort(rng.permutation(n)[: min(k, n)])
    if mode == 3:
        return np.array([n - 1])
    k = int(rng.integers(1, n + 1))
    return np.sort(rng.permutation(n)[:k])


def _ints(rng, n, lo=0, hi=9):
    return rng.integers(lo, hi, n)


# --------------------------------------------------------------------------- adders
def add_abaqus(rng, cap, ref):
    for nm in _names(rng, int(rng.integers(1, 4)), long=80, odd=["a.b", "P(1)", "x/y", "Nset", "7up"]):
        ref.point_sets[nm] = _subset(rng, len(ref.points))
    for nm in _names(rng, int(rng.integers(1, 4)), ["E1", "shell", "Part-2", "bulk", "q_x"], long=80,
                     odd=["a.b", "E(1)", "x/y", "Elset", "7up"]):
        l = [_subset(rng, len(c)) if rng.random() < 0.7 else np.zeros(0, dtype=int)
             for _, c in ref.cells]
        if not any(len(x) for x in l):
            l[0] = np.arange(len(ref.cells[0][1]))
        ref.cell_sets[nm] = l


def add_exodus(rng, cap, ref):
    for nm in _names(rng, int(rng.integers(1, 5)), long=32, odd=["a b", "x:y", "p,q", "7", "(z)", "\u00e9t\u00e9", "\u6e29"]):
        ref.point_sets[nm] = _subset(rng, len(ref.points))


def add_flac3d(rng, cap, ref):
    zones = [i for i, (t, _) in enumerate(ref.cells) if tdim(t) == 3]
    faces = [i for i, (t, _) in enumerate(ref.cells) if tdim(t) == 2]
    for which, idx, pool in (("zone", zones, ["rock", "soil", "A b", "x-1", "it's", "p-1 q"]),
                             ("face", faces, ["top", "south", "F 2", "o'k", "f-1"])):
        if not idx:
            continue
        for nm in _names(rng, int(rng.integers(1, 3)), pool, long=70):
            l = [_subset(rng, len(c)) if i in idx and rng.random() < 0.8
                 else np.zeros(0, dtype=int) for i, (_, c) in enumerate(ref.cells)]
            if not any(len(x) for x in l):
                l[idx[0]] = np.arange(len(ref.cells[idx[0]][1]))
            # plain names, or names as they come from reading (kind:name:slot)
            full = f"{which}:{nm}:{rng.choice(['1', 'Default', 'mat', 'my-slot', 's.1'])}"
            ref.cell_sets[nm if rng.random() < 0.5 else full] = l


def _affine(rng):
    a = np.eye(4)
    a[:3, 3] = rng.normal(size=3)
    a[:3, :3] = np.round(rng.normal(size=(3, 3)), 3)
    return a.ravel()


def _periodic(rng, ref, none_ok=True, dim=None):
    out = []
    n = len(ref.points)
    for k in range(int(rng.integers(1, 4))):
        m = int(rng.integers(1, min(n, 7) + 1))
        sm = np.column_stack([rng.permutation(n)[:m], rng.permutation(n)[:m]])
        aff = None if rng.random() < 0.4 and none_ok else _affine(rng)
        out.append([int(rng.integers(0, 3)) if dim is None else dim,
                    (int(rng.integers(1, 99)), int(rng.integers(1, 99))), aff, sm])
    return out


def _field(rng, ref, k=None):
    dims = sorted({tdim(t) for t, _ in ref.cells})
    for j, nm in enumerate(_names(rng, int(rng.integers(1, 4)),
                                  ["Inlet", "my wall", "outer-3", "x", "Vol ume 1"], long=127,
                                  odd=["3", "1 2", "a,b", "it's", "$x", "\u00e9t\u00e9"])):
        ref.field_data[nm] = np.array([j + 1 + int(rng.integers(0, 3)) * 10, int(rng.choice(dims))])


def add_gmsh22(rng, cap, ref):
    ref.cell_data["gmsh:physical"] = [_ints(rng, len(c), 1, 7) for _, c in ref.cells]
    ref.cell_data["gmsh:geometrical"] = [_ints(rng, len(c), 1, 99) for _, c in ref.cells]
    _field(rng, ref)
    if rng.random() < 0.6:
        ref.extra["gmsh_periodic"] = _periodic(rng, ref)


def add_gmsh40(rng, cap, ref):
    _field(rng, ref)
    if rng.random() < 0.8:
        ref.extra["gmsh_periodic"] = _periodic(rng, ref)


def add_gmsh41(rng, cap, ref):
    """Blocks become entities: one geometrical tag (and physical tag) per block; nodes are
    stored per entity."""
    n = len(ref.points)
    used = {}
    geo, phy, bnd = [], [], []
    physical = rng.random() < 0.8
    for t, c in ref.cells:
        d = tdim(t)
        g = int(rng.integers(1, 50))
        while g in used.setdefault(d, set()):
            g += 1
        used[d].add(g)
        geo.append(np.full(len(c), g))
        phy.append(np.full(len(c), int(rng.integers(1, 6)) if rng.random() < 0.8 else 0))
        k = int(rng.integers(0, 4)) if d else 0
        bnd.append(np.array(rng.integers(1, 30, k) * rng.choice([-1, 1], k), dtype=int))
    ref.cell_data["gmsh:geometrical"] = geo
    if physical and any((p != 0).any() for p in phy):
        ref.cell_data["gmsh:physical"] = phy
        ref.cell_sets["gmsh:bounding_entities"] = bnd
    # every cell entity must appear among the node entities
    ents = sorted((d, g) for d, s in used.items() for g in s)
    extra = [(int(rng.integers(0, 4)), int(rng.integers(60, 70)))]
    pool = sorted(set(ents + (extra if rng.random() < 0.3 else [])))
    if len(pool) > n:
        ref.extra["skip"] = True
        return
    # nodes come back grouped by entity: give them in that order, or (when `shuffle`)
    # in any order within one entity
    lab = np.sort(np.concatenate([np.arange(len(pool)),
                                  rng.integers(0, len(pool), n - len(pool))]))
    ref.point_data["gmsh:dim_tags"] = np.array([pool[i] for i in lab])
    _field(rng, ref)
    if rng.random() < 0.6:
        ref.extra["gmsh_periodic"] = _periodic(rng, ref)


def add_ref(name, lo, hi, point=False, cell=True):
    def add(rng, cap, ref):
        if point and (rng.random() < 0.8 or not cell):
            ref.point_data[name] = _ints(rng, len(ref.points), lo, hi)
        if cell:
            ref.cell_data[name] = [_ints(rng, len(c), lo, hi) for _, c in ref.cells]
    return add


def add_netgen(rng, cap, ref):
    ref.cell_data["netgen:index"] = [_ints(rng, len(c), 1, 9) for _, c in ref.cells]
    dim = ref.points.shape[1]
    used = set()
    for nm in _names(rng, int(rng.integers(0, 4)), ["Inlet", "my wall", "o-3", "x", "Dom 1"],
                     long=60):
        key = (int(rng.integers(1, 8)), int(rng.integers(max(0, dim - 3), dim + 1)))
        if key not in used:
            used.add(key)
            ref.field_data[nm] = list(key)
    if rng.random() < 0.5:
        m = int(rng.integers(1, 6))
        k = int(rng.integers(1, 4))
        n = len(ref.points)
        ref.extra["info"] = {
            "netgen:identifications": np.column_stack(
                [rng.integers(1, n + 1, (m, 2)), rng.integers(1, k + 1, (m, 1))]),
            "netgen:identificationtypes": rng.integers(1, 3, (1, k))}


def add_su2(rng, cap, ref):
    """Boundary cells carry tags; they are stored per tag, so blocks are given sorted."""
    b = 1 if ref.points.shape[1] == 2 else 2
    n = sum(len(c) for t, c in ref.cells if tdim(t) == b)
    tags = np.sort(_ints(rng, n, 1, 6))
    cd, k = [], 0
    for t, c in ref.cells:
        if tdim(t) == b:
            cd.append(tags[k:k + len(c)].copy())
            k += len(c)
        else:
            cd.append(np.zeros(len(c), int))
    ref.cell_data["su2:tag"] = cd


def add_ugrid(rng, cap, ref):
    ref.cell_data["ugrid:ref"] = [
        _ints(rng, len(c), 1, 90) if tdim(t) == 2 else np.zeros(len(c), int)
        for t, c in ref.cells]


def add_med(rng, cap, ref):
    fam = {}
    for i in range(int(rng.integers(1, 4))):
        fam[i + 1] = _names(rng, int(rng.integers(1, 3)), ["Gr 1", "inlet", "faces_3", "A"],
                            long=80, odd=["a/b", "x:y", "it's", "1", "a.b"])
    ref.point_data["point_tags"] = rng.integers(0, len(fam) + 1, len(ref.points))
    cf = {}
    for i in range(int(rng.integers(1, 4))):
        cf[-(i + 6)] = _names(rng, int(rng.integers(1, 3)), ["Vol", "bottom side", "B2", "w"],
                               long=80, odd=["a/b", "x:y", "it's", "1", "a.b"])
    keys = np.array([0] + list(cf))
    ref.cell_data["cell_tags"] = [keys[rng.integers(0, len(keys), len(c))] for _, c in ref.cells]
    ref.extra["point_tags"] = fam
    ref.extra["cell_tags"] = cf


ADD = {
    "abaqus": add_abaqus, "exodus": add_exodus, "flac3d": add_flac3d, "gmsh22": add_gmsh22,
    "gmsh40": add_gmsh40, "gmsh41": add_gmsh41,
    "medit": add_ref("medit:ref", 0, 2000, point=True),
    "nastran": add_ref("nastran:ref", 1, 900, point=True),
    "netgen": add_netgen, "su2": add_su2, "ugrid": add_ugrid,
    "tetgen": add_ref("tetgen:ref", -3, 50, point=True),
    "avsucd": add_ref("avsucd:material", 1, 40), "med": add_med,
}


DTYPES = {g: ["i8", "i8", "i4", "i2", "i1", "u1", "u2", "u4", "u8"] for g in ADD}


def _vary(add, group):
    """The reference numbers in any integer type they fit."""
    def run(rng, cap, ref):
        before = set(ref.cell_data), set(ref.point_data)
        add(rng, cap, ref)
        for k, l in list(ref.cell_data.items()):
            if k not in before[0]:
                ref.cell_data[k] = _cast(rng, l, DTYPES[group])
        for k, a in list(ref.point_data.items()):
            if k not in before[1]:
                ref.point_data[k] = _cast(rng, [a], DTYPES[group])[0]
    return run


def _cast(rng, l, dts):
    dt = np.dtype(str(rng.choice(dts)))
    ii = np.iinfo(dt)
    if any(len(a) and (np.min(a) < ii.min or np.max(a) > ii.max) for a in l):
        return l
    return [np.asarray(a).astype(dt) for a in l]


ADD = {g: _vary(f, g) for g, f in ADD.items()}


# ---------------------------------------------------------------------- comparison
def _masks(ref, csets, pairs_side, cells):
    out = []
    for idx in pairs_side:
        m = []
        for i in idx:
            a = np.zeros(len(cells[i][1]), dtype=bool)
            x = csets[i]
            if x is not None and len(x):
                a[np.asarray(x, dtype=int)] = True
            m.append(a)
        out.append(np.concatenate(m))
    return out


def cmp_sets(ref, m, cap, rename=lambda n: n, extra_ok=()):
    """Point sets and cell sets: the same names, exactly the same members."""
    v = []
    for nm, s in ref.point_sets.items():
        if nm not in m.point_sets:
            v.append(("pset-missing", f"point set {nm!r} missing; have {list(m.point_sets)}"))
            continue
        g = np.asarray(m.point_sets[nm])
        if not np.array_equal(np.sort(g.astype(int)), np.sort(np.asarray(s, dtype=int))):
            v.append(("pset-members", f"point set {nm!r}: {np.asarray(s).tolist()[:40]} came back as "
                                      f"{g.tolist()[:40]}"))
    for nm in m.point_sets:
        if nm not in ref.point_sets and nm not in extra_ok:
            v.append(("pset-invented", f"point set {nm!r} appeared"))
    names = {rename(n): n for n in ref.cell_sets}
    pairs = oracle.block_perm(ref, m, cap)
    if ref.cell_sets and pairs is None:
        return v + [("cells-structure", "cell structure changed, cell sets cannot be matched")]
    gc = [(c.type, c.data) for c in m.cells]
    for nm, orig in names.items():
        if nm not in m.cell_sets:
            v.append(("cset-missing", f"cell set {nm!r} missing; have {list(m.cell_sets)}"))
            continue
        if len(m.cell_sets[nm]) != len(m.cells):
            v.append(("cset-blocks", f"cell set {nm!r}: {len(m.cell_sets[nm])} entries for "
                                     f"{len(m.cells)} blocks"))
            continue
        a = _masks(ref, ref.cell_sets[orig], [p[0] for p in pairs], ref.cells)
        b = _masks(ref, m.cell_sets[nm], [p[1] for p in pairs], gc)
        na = sum(len(x) for x in ref.cell_sets[orig] if x is not None)
        nb = sum(len(x) for x in m.cell_sets[nm] if x is not None)
        if any(not np.array_equal(x, y) for x, y in zip(a, b)) or na != nb:
            v.append(("cset-members", f"cell set {nm!r}: {[np.flatnonzero(x).tolist()[:20] for x in a]}"
                                      f" came back as {[np.flatnonzero(x).tolist()[:20] for x in b]}"))
    for nm in m.cell_sets:
        if nm not in names and nm not in extra_ok:
            v.append(("cset-invented", f"cell set {nm!r} appeared"))
    return v


def cmp_periodic(ref, m, group):
    p, q = ref.extra.get("gmsh_periodic"), m.gmsh_periodic
    if p is None:
        return [] if not q else [("periodic-invented", f"{len(q)} periodic links appeared")]
    if q is None or len(q) != len(p):
        return [("periodic-count", f"{len(p)} periodic links came back as "
                                   f"{None if q is None else len(q)}")]
    v = []
    for i, (a, b) in enumerate(zip(p, q)):
        if int(a[0]) != int(b[0]) or tuple(map(int, a[1])) != tuple(map(int, b[1])):
            v.append(("periodic-entity", f"link {i}: {a[:2]} came back as {b[:2]}"))
        aa = np.zeros(0) if a[2] is None else np.ravel(a[2])
        bb = np.zeros(0) if b[2] is None else np.ravel(b[2])
        if not np.array_equal(aa, bb):
            v.append(("periodic-affine", f"link {i}: affine {aa} came back as {bb}"))
        if not np.array_equal(np.asarray(a[3], dtype=int), np.asarray(b[3]).astype(int)):
            v.append(("periodic-nodes", f"link {i}: {np.asarray(a[3]).tolist()} came back as "
                                        f"{np.asarray(b[3]).tolist()}"))
    return v


def cmp_field(ref, m):
    v = []
    for nm, x in ref.field_data.items():
        if nm not in m.field_data:
            v.append(("field-missing", f"group {nm!r} missing; have {list(m.field_data)}"))
        elif list(map(int, m.field_data[nm])) != list(map(int, x)):
            v.append(("field-value", f"group {nm!r}: {list(x)} came back as {list(m.field_data[nm])}"))
    for nm in m.field_data:
        if nm not in ref.field_data:
            v.append(("field-invented", f"group {nm!r} appeared"))
    return v


def compare(ref, m, cap):
    g = cap.group
    v = []
    if g == "flac3d":
        v += cmp_sets(ref, m, cap, rename=lambda n: _flac_name(ref, n, cap))
    elif g == "gmsh41":
        v += cmp_gmsh41(ref, m, cap)
    elif g in ("abaqus", "exodus"):
        v += cmp_sets(ref, m, cap)
    if g.startswith("gmsh") or g == "netgen":
        if g == "netgen":
            # unnamed regions get generic names in a dimension without any name
            v += [x for x in cmp_field(ref, m) if x[0] != "field-invented"]
            dims = {int(x[1]) for x in ref.field_data.values()}
            v += [("field-invented", f"group {n!r} appeared") for n, x in m.field_data.items()
                  if n not in ref.field_data and (int(x[1]) in dims or not n.startswith("cd"))]
        else:
            v += cmp_field(ref, m)
    if g.startswith("gmsh"):
        v += cmp_periodic(ref, m, g)
    if g == "netgen":
        want = ref.extra.get("info")
        got = m.info
        for k in ("netgen:identifications", "netgen:identificationtypes"):
            a = None if want is None else np.asarray(want[k])
            b = None if not got else got.get(k)
            if (a is None) != (b is None) or (a is not None and not np.array_equal(a, b)):
                v.append(("identifications", f"{k}: {a} came back as {b}"))
    if g == "med":
        for k in ("point_tags", "cell_tags"):
            a = {int(i): sorted(x) for i, x in ref.extra.get(k, {}).items()}
            b = {int(i): sorted(x) for i, x in getattr(m, k, {}).items()}
            if a != b:
                v.append(("families", f"{k}: {a} came back as {b}"))
    sub = ref.copy()
    keep = lambda k: ((":" in k and k != "q:1") or k.endswith("_tags"))  # noqa: E731
    sub.point_data = {k: x for k, x in sub.point_data.items() if keep(k)}
    sub.cell_data = {k: x for k, x in sub.cell_data.items() if keep(k)}
    v += [("tag-" + a, b) for a, b in oracle.cmp_data(sub, m, cap)]
    # integer references stay integers
    for nm in sub.cell_data:
        for a in m.cell_data.get(nm, []):
            a = np.asarray(a)
            if a.size and a.dtype.kind not in "iu" and cap.group not in ("tetgen",):
                v.append(("tag-dtype", f"{nm!r} came back as {a.dtype}"))
                break
    return v


def _flac_name(ref, n, cap):
    """Plain names come back qualified by the kind of cell and the default slot."""
    if n.split(":")[0] in ("zone", "face"):
        return n
    dim = {tdim(t) for (t, _), x in zip(ref.cells, ref.cell_sets[n]) if len(x)}
    return f"{'zone' if dim == {3} else 'face'}:{n}:{'Default' if cap.kw['binary'] else '1'}"


def cmp_gmsh41(ref, m, cap):
    v = []
    want = ref.cell_sets.get("gmsh:bounding_entities")
    got = m.cell_sets.get("gmsh:bounding_entities")
    if want is not None:
        if got is None or len(got) != len(want):
            v.append(("bounding-missing", "gmsh:bounding_entities missing or of other length"))
        else:
            for i, (a, b) in enumerate(zip(want, got)):
                b = [] if b is None else list(map(int, b))
                if list(map(int, a)) != b and tdim(ref.cells[i][0]) > 0:
                    v.append(("bounding-value", f"block {i}: {list(a)} came back as {b}"))
    # named groups select the cells of the entities carrying their physical tag
    phys = ref.cell_data.get("gmsh:physical")
    for nm, (tag, dim) in ref.field_data.items():
        l = m.cell_sets.get(nm)
        if l is None or len(l) != len(m.cells):
            v.append(("group-set-missing", f"cell set of group {nm!r} missing"))
            continue
        for i, (t, c) in enumerate(ref.cells):
            exp = len(c) if phys is not None and tdim(t) == dim and len(c) and phys[i][0] == tag else 0
            g = np.asarray(l[i])
            if len(g) != exp or not np.array_equal(g.astype(int), np.arange(exp)):
                v.append(("group-set-members", f"group {nm!r} block {i}: expected {exp} members, "
                                               f"got {len(g)}"))
    return v
