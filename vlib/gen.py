"""Random reference meshes within a capability description."""
import numpy as np

from .ref import NN, Ref

SIZES = {
    "tiny": (1, 8, 1, 3),
    "small": (4, 40, 1, 9),
    "medium": (40, 400, 5, 60),
    "large": (1500, 6000, 300, 1500),
}


def coords(rng, n, dim, style=None):
    style = style or rng.choice(["unit", "normal", "big", "small", "int", "grid", "mixed"])
    if style == "unit":
        p = rng.random((n, dim))
    elif style == "normal":
        p = rng.normal(size=(n, dim))
    elif style == "big":
        p = rng.normal(size=(n, dim)) * 1.0e5
    elif style == "small":
        p = rng.normal(size=(n, dim)) * 1.0e-4
    elif style == "int":
        p = rng.integers(-50, 50, (n, dim)).astype(float)
    elif style == "grid":
        p = np.round(rng.normal(size=(n, dim)), 2)
    else:
        p = rng.normal(size=(n, dim)) * 10.0 ** rng.integers(-6, 7, (n, dim))
    # make all points distinct and not collinear with an axis pattern
    p[:, 0] += np.arange(n) * (1.0 if style in ("int", "grid", "big") else 1.0e-3)
    r = rng.random()
    if r < 0.12 and n > 1:  # coinciding points are points of their own
        k = int(rng.integers(1, n))
        p[rng.permutation(n)[:k]] = p[rng.integers(0, n, k)]
    elif r < 0.2:  # all in a coordinate plane
        p[:, int(rng.integers(0, dim))] = rng.choice([0.0, 0.0, -1.5])
    elif r < 0.22:
        p[:] = 0.0
    return p


def conn(rng, n, m, npt, distinct=True):
    """m cells of n nodes over npt points."""
    if npt >= n and distinct:
        if npt > 4 * n and m > 50:
            base = rng.integers(0, npt, (m, 1))
            step = rng.integers(1, max(2, npt // n), (m, 1))
            a = (base + step * np.arange(n)[None, :]) % npt
            # fix rows with repeats
            for i in range(m):
                if len(np.unique(a[i])) < n:
                    a[i] = rng.permutation(npt)[:n]
            return a
        return np.array([rng.permutation(npt)[:n] for _ in range(m)]).reshape(m, n)
    return rng.integers(0, npt, (m, n))


# VTK cells of arbitrary order: numbers of nodes
LAGRANGE = {"VTK_LAGRANGE_CURVE": [2, 3, 5, 7], "VTK_LAGRANGE_TRIANGLE": [3, 6, 10, 15],
            "VTK_LAGRANGE_QUADRILATERAL": [4, 9, 12, 16], "VTK_LAGRANGE_TETRAHEDRON": [4, 10, 20, 35],
            "VTK_LAGRANGE_HEXAHEDRON": [8, 18, 27, 64], "VTK_LAGRANGE_WEDGE": [6, 18, 40],
            "VTK_LAGRANGE_PYRAMID": [5, 13, 14]}


def choose_blocks(rng, types, multi, lo, hi, empty=False, kmax=6):
    types = list(types)
    if multi == "single":
        ts = [str(rng.choice(types))]
    elif multi == "unique":
        k = int(rng.integers(1, min(len(types), kmax) + 1))
        ts = [str(t) for t in rng.permutation(types)[:k]]
    elif multi == "single_type":
        ts = [str(rng.choice(types))] * int(rng.integers(1, 4))
    else:
        k = int(rng.integers(1, kmax + 1))
        pool = [str(t) for t in rng.permutation(types)[: int(rng.integers(1, 4))]]
        ts = [str(rng.choice(pool)) for _ in range(k)]
    out = []
    for t in ts:
        m = int(rng.integers(lo, hi + 1))
        if empty and rng.random() < 0.12:
            m = 0
        out.append((t, m))
    return out


def apply_dtype(a, dt):
    return a.astype(np.dtype(dt))


def data_values(rng, shape, dt, style="plain"):
    dt = np.dtype(dt)
    if dt.kind == "f":
        v = rng.normal(size=shape)
        r = rng.random()
        if r < 0.3:
            v = v * 10.0 ** rng.integers(-8, 9, shape)
        elif r < 0.4:  # whole numbers
            v = np.rint(v * 20)
        elif r < 0.47:  # nearly whole numbers
            v = np.rint(v * 20) + rng.choice([0.0, 1e-6, -1e-6, 1e-9, 1e-4], shape)
        elif r < 0.52:  # mostly zero
            v = np.where(rng.random(shape) < 0.8, 0.0, v)
        elif r < 0.56:
            v = np.full(shape, v.flat[0] if v.size else 0.0)
        elif r < 0.59:
            v = np.zeros(shape)
        return v.astype(dt)
    ii = np.iinfo(dt)
    if style == "tags":
        return rng.integers(1, 6, shape).astype(dt)
    r = rng.random()
    if r < 0.05:
        return np.zeros(shape, dtype=dt)
    if r < 0.1:
        return np.full(shape, int(rng.integers(0, 100)), dtype=dt)
    if r < 0.15:
        return rng.integers(0, 2, shape).astype(dt)
    if r < 0.4:
        lo, hi = (0 if ii.min == 0 else max(ii.min, -100)), min(ii.max, 100)
    else:
        lo, hi = max(ii.min, -(2**30)), min(ii.max, 2**30)
    return rng.integers(lo, hi, shape, endpoint=True).astype(dt)


def shape_of(kind, n):
    return {"s": (n,), "1": (n, 1)}.get(kind) or (
        (n, int(kind[0]), int(kind[1])) if kind in ("33", "22", "23") else (n, int(kind)))


def names(rng, k, style="simple", longest=0, uni=False):
    """Names of arrays; up to `longest` characters, and beyond ASCII if `uni`."""
    pool = {
        "simple": ["a", "u", "temp", "p_1", "Vel", "data0", "zz9", "Stress", "b2", "kappa"],
        "spaces": ["a b", "heat flux", "x y z", "T (K)", "u", "velo city", "a<b>", "R&D", 'q"2"', "it's",
                   "c[1]", "[b]"],
        "odd": ["a-b", "x.y", "q:1", "name_with_long_suffix_0123", "U", "u"],
    }
    base = pool["simple"] if style == "simple" else pool["simple"] + pool["odd"] + (
        pool["spaces"] if style == "spaces" else [])
    if k and (longest or uni) and rng.random() < 0.15:
        if longest:
            n = int(rng.choice([longest, longest, longest - 1, int(rng.integers(9, longest))]))
            stem = "".join(rng.choice(list("abcdefXYZ_0189"), n - 2))
            # alike up to the last character
            base = ["L" + stem + "a", "L" + stem + "b"] + base[: max(0, k - 2)]
        if uni and (not longest or rng.random() < 0.5):
            base = ["d\u00e9bit", "\u03c3_xx", "\u6e29\u5ea6", "\u00df"] + base[:3]
    base = base + [f"n{i}" for i in range(len(base), k)]
    return [str(s) for s in rng.permutation(base)[:k]]


def layout(rng, a, how):
    """Same values, different memory layout."""
    if how == "F":
        return np.asfortranarray(a)
    if how == "strided":
        big = np.empty((a.shape[0] * 2,) + a.shape[1:], dtype=a.dtype)
        big[::2] = a
        big[1::2] = 0
        return big[::2]
    if how == "neg":
        return a[::-1].copy()[::-1]
    return a


def gen(rng, cap, size="small", data=True, sets=False, types=None, dim=None, pdt=None,
        cdt=None, blocks=None):
    exact = int(size[6:]) if size.startswith("exact:") else 0  # that many points and cells
    plo, phi, clo, chi = SIZES["small" if exact else size]
    dim = int(dim or rng.choice(cap.dims))
    if types is None:
        types = cap.types2 if (dim == 2 and cap.types2) else cap.types
    types = list(types)
    if exact and blocks is None:
        ts = [t for t in types if NN.get(t, 5) <= 10]
        blocks = [(str(rng.choice(ts)), exact)]
        if cap.multi == "any" and exact > 3 and rng.random() < 0.5:
            k = int(rng.integers(1, exact))
            blocks = [(blocks[0][0], k), (str(rng.choice(ts)), exact - k)]
    if blocks is None:
        ntypes = [t for t in types if not (size in ("large", "medium") and NN.get(t, 5) > 30)]
        blocks = choose_blocks(rng, ntypes or types, cap.multi, clo, chi, cap.empty_blocks)
    widths = []
    need = 1
    for t, m in blocks:
        if t == "polygon":
            n = int(rng.integers(*cap.polygon))
            if size == "small" and rng.random() < 0.06:  # counts around the sizes of small integers
                n = int(rng.choice([100, 127, 128, 129, 200, 255, 256, 257, 300]))
        else:
            n = NN[t] if t in NN else int(rng.choice(LAGRANGE[t]))
        widths.append(n)
        need = max(need, n)
    npt = max(int(rng.integers(plo, phi + 1)), need, cap.min_points)
    if rng.random() < 0.15:
        npt = max(need, cap.min_points)  # tight
    if exact:
        npt = exact
    pts = coords(rng, npt, dim, cap.coord_style(rng) if cap.coord_style else None)
    pdt = pdt or str(rng.choice(cap.pdt))
    pts = apply_dtype(pts, pdt)
    cdt = cdt or str(rng.choice(cap.cdt))
    cells = []
    for (t, m), n in zip(blocks, widths):
        c = conn(rng, n, m, npt).reshape(m, n)
        if m > 1 and rng.random() < 0.12:  # equal cells
            k = int(rng.integers(1, m))
            c[rng.permutation(m)[:k]] = c[rng.integers(0, m, k)]
        if m and n > 1 and cap.degenerate and rng.random() < 0.06:  # a repeated node
            c[int(rng.integers(0, m)), int(rng.integers(0, n))] = c[0, int(rng.integers(0, n))]
        if cells and cells[-1][0] == t and cells[-1][1].shape == c.shape and rng.random() < 0.1:
            c = np.array(cells[-1][1])  # a block like the one before
        cells.append((t, apply_dtype(c.reshape(m, n), cdt)))
    ref = Ref(pts, cells)
    if data:
        add_data(rng, cap, ref)
    if sets and cap.add_sets:
        cap.add_sets(rng, cap, ref)
    return ref


def _count(rng, cap, maxn):
    """How many arrays: few, sometimes more than ten (two-digit numbers in the file)."""
    if min(cap.max_data, maxn) >= 3 and rng.random() < 0.04:
        return int(rng.integers(9, 15))
    return int(rng.integers(0, min(cap.max_data, maxn) + 1))


def add_data(rng, cap, ref, maxn=3):
    npt = len(ref.points)
    if cap.pd_kinds:
        k = _count(rng, cap, maxn)
        for nm in names(rng, k, cap.name_style, cap.name_max, cap.name_uni):
            kind, dt = _kind(rng, cap.pd_kinds)
            ref.point_data[nm] = data_values(rng, shape_of(kind, npt), dt)
    if cap.cd_kinds and ref.cells:
        k = _count(rng, cap, maxn)
        for nm in names(rng, k, cap.name_style, cap.name_max, cap.name_uni):
            if nm in ref.point_data and not cap.shared_names:
                continue
            kind, dt = _kind(rng, cap.cd_kinds)
            ref.cell_data[nm] = [
                data_values(rng, shape_of(kind, len(c)), dt) for _, c in ref.cells]


def _kind(rng, kinds):
    kind, dts = kinds[int(rng.integers(0, len(kinds)))]
    return kind, str(rng.choice(dts))


class _Wild:
    """Content no single format supports: for properties that hold whatever the outcome."""
    types = ["vertex", "line", "triangle", "quad", "tetra", "hexahedron", "wedge", "pyramid",
             "line3", "triangle6", "quad8", "quad9", "tetra10", "hexahedron20", "hexahedron27",
             "wedge15", "pyramid13", "polygon", "hexahedron24", "wedge18", "pyramid14", "line4"]
    types2 = None
    dims = (2, 3, 3)
    multi = "any"
    empty_blocks = False
    min_points = 1
    pdt = ("f8", "f8", "f4")
    cdt = ("i8", "i8", "i4", "u4", "u8")
    coord_style = None
    polygon = (5, 9)
    max_data = 3
    shared_names = True
    name_style = "odd"
    name_max = 64
    name_uni = True
    pd_kinds = [("s", ["f8", "f4", "i8", "i4", "u1", "i2"]), ("3", ["f8", "f4", "i4"]),
                ("9", ["f8"]), ("1", ["f8"])]
    cd_kinds = pd_kinds
    add_sets = None
    degenerate = True


WILD = _Wild()


def add_sets(rng, ref, overlap=True, empty=True):
    npt = len(ref.points)
    for nm in names(rng, int(rng.integers(0, 3))):
        k = int(rng.integers(0 if empty else 1, npt + 1))
        ref.point_sets["ps_" + nm] = np.sort(rng.permutation(npt)[:k])
    for nm in names(rng, int(rng.integers(0, 3))):
        l = []
        for _, c in ref.cells:
            k = int(rng.integers(0, len(c) + 1))
            l.append(np.sort(rng.permutation(len(c))[:k]))
        ref.cell_sets["cs_" + nm] = l


REFNAMES = ["medit:ref", "su2:tag", "ugrid:ref", "netgen:index", "tetgen:ref", "avsucd:material",
            "nastran:ref", "gmsh:physical", "gmsh:geometrical", "cell_tags", "flac3d:group",
            "medit:refs", "mat"]


def wild(rng, types=None, size="small", k2=False):
    ref = gen(rng, WILD, size=size, types=types)
    for l in ref.cell_data.values():
        for a in l:
            if a.dtype.kind in "iu":
                # formats that take an integer array as region numbers write one record per
                # number: keep them small
                np.mod(a, 40, out=a)
    if k2:
        ref.point_data["two"] = rng.random((len(ref.points), 2))
    if rng.random() < 0.6:
        nm = str(rng.choice(REFNAMES))
        ref.cell_data[nm] = [rng.integers(1, 5, len(c)).astype(str(rng.choice(["i8", "i4"])))
                             for _, c in ref.cells]
        if nm.startswith("gmsh"):
            ref.cell_data["gmsh:physical"] = ref.cell_data.get("gmsh:physical", ref.cell_data[nm])
            ref.cell_data["gmsh:geometrical"] = [
                rng.integers(1, 5, len(c)) for _, c in ref.cells]
    if rng.random() < 0.3:
        nm = str(rng.choice(["medit:ref", "tetgen:ref", "point_tags", "gmsh:dim_tags"]))
        ref.point_data[nm] = (rng.integers(1, 5, len(ref.points)) if nm != "gmsh:dim_tags" else
                              np.column_stack([np.full(len(ref.points), 2),
                                               np.ones(len(ref.points), dtype=int)]))
    if rng.random() < 0.5:
        add_sets(rng, ref)
    if rng.random() < 0.4:
        ref.field_data["inlet"] = np.array([int(rng.integers(1, 9)), 2])
        ref.field_data["wall x"] = np.array([int(rng.integers(9, 20)), 1])
    return ref
