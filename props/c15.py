"""C15: XDMF time series return every step exactly as written."""
import glob
import os
import xml.etree.ElementTree as ET

import numpy as np

from vlib import gen, oracle
from vlib.caps import CAPS
from vlib.env import exc_str, meshio, observe, scratch
from vlib.ref import Ref
from vlib.rt import LAYOUTS, rng_of
from vlib.snap import diff, snap

ID = "C15"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: recorded write history of random time series checked offline against the reader "
             "(any access order, repeated, interleaved series) and an independent XML/HDF5 decoder")
RULE = ("random series (3 layouts, 0-60 steps, changing sets of arrays and dtypes per step, all cell structures, "
        "cells and cell data given in every documented form, interleaved writers and readers, overwritten targets, "
        "odd path names); every read_data result is compared with the recorded write; non-trivial: a step with data "
        "was compared; distinct by series, step and access")
ASSUMPTIONS = [
    "the working directory does not change while a writer with a relative path is open",
    "array names are unique per step and centre",
    "integer types of 8 and 16 bits are not written in the XML layout (refused)",
]
REQUIRE = {"quick": {"series": 1500, "steps_read": 40000, "arrays_compared": 80000, "interleaved": 150,
                     "decoded_steps": 1500, "layouts": 3, "refused": 60, "rewritten": 400, "rewrites": 8, "inputs_unchanged": 800, "updated_in_place": 2000}}
CPU = 60
FMT = ["XML", "Binary", "HDF"]
CAPN = {"XML": "xdmf-xml", "Binary": "xdmf-bin", "HDF": "xdmf-hdf0"}


def cases(tier, seed):
    out = []
    n = 400 if tier == "quick" else 5000
    for f in FMT:
        for i in range(n):
            out.append({"k": "series", "f": f, "s": seed * 10000 + i})
        for i in range(n // 5):
            out.append({"k": "inter", "f": f, "s": seed * 10000 + i})
        for i in range(n // 6):
            out.append({"k": "errors", "f": f, "s": seed * 10000 + i})
        for i in range(n // 6):
            out.append({"k": "long", "f": f, "s": seed * 10000 + i})
    return out


def run(case, ctx):
    globals()["run_" + case["k"]](case, ctx)


# ------------------------------------------------------------------ random series
TIMES = [0.0, -1.0, 1e-300, 1e300, 0.1, 1 / 3, 3.3333333333333335e-05, 123456789.123456789, 5, 0, -7, 1e16,
         12345678901234567, np.float64(0.7), np.float32(0.25), 2.0 ** -1074, np.int64(3)]


def series(rng, f, nsteps=None, size=None):
    cap = CAPS[CAPN[f]]
    ref = gen.gen(rng, cap, size=size or str(rng.choice(["tiny", "small"])), data=False)
    if nsteps is None:
        nsteps = int(rng.choice([0, 1, 2, 3, 5, 8, 13]))
    steps = []
    t = 0.0
    alike = rng.random() < 0.4  # the same arrays in every step, with new values
    for k in range(nsteps):
        r = Ref(ref.points, ref.cells)
        if alike and steps:
            new = lambda a: gen.data_values(rng, a.shape, a.dtype)
            r.point_data = {n: new(a) for n, a in steps[0][1].items()}
            r.cell_data = {n: [new(a) for a in l] for n, l in steps[0][2].items()}
        elif alike or rng.random() < 0.9:
            gen.add_data(rng, cap, r)
        mode = rng.random()
        if mode < 0.5:
            t = t + float(rng.random()) + 1e-3
            tv = t
        elif mode < 0.7:
            tv = TIMES[int(rng.integers(0, len(TIMES)))]
        elif mode < 0.85 and steps:
            tv = steps[-1][0]  # equal times are different steps
        else:
            tv = float(rng.normal() * 10.0 ** rng.integers(-12, 13))
        steps.append((tv, r.point_data, r.cell_data))
    return cap, ref, steps


def give_cells(rng, ref, lay):
    cells = [(t, lay(np.array(d)) if lay else np.array(d)) for t, d in ref.cells]
    how = int(rng.integers(0, 3))
    ts = [t for t, _ in cells]
    if how == 0 and len(set(ts)) == len(ts):
        return dict(cells)
    if how == 1:
        return [meshio.CellBlock(t, d) for t, d in cells]
    return cells


def give_cd(rng, ref, cd):
    ts = [t for t, _ in ref.cells]
    if cd and len(set(ts)) == len(ts) and rng.random() < 0.3:
        return {n: dict(zip(ts, [np.array(a) for a in l])) for n, l in cd.items()}
    return {n: [np.array(a) for a in l] for n, l in cd.items()}


class Writer:
    """Feeds a series to the real writer one action at a time."""

    def __init__(self, ctx, rng, f, path, ref, steps):
        self.ctx, self.rng, self.ref, self.steps, self.k = ctx, rng, ref, steps, 0
        self.lay = LAYOUTS[str(rng.choice(sorted(LAYOUTS)))] if rng.random() < 0.4 else None
        kw = {} if f == "HDF" and rng.random() < 0.5 else {"data_format": f}
        self.reuse, self.scribble = rng.random() < 0.5, rng.random() < 0.4
        self.held = {}
        self.w = meshio.xdmf.TimeSeriesWriter(path, **kw)
        self.w.__enter__()
        pts = np.array(ref.points)
        pts = self.lay(pts) if self.lay else pts
        cells = give_cells(rng, ref, self.lay)
        s = snap([pts, cells if isinstance(cells, dict) else list(cells)])
        self.w.write_points_cells(pts, cells)
        self.same(s, snap([pts, cells if isinstance(cells, dict) else list(cells)]), "write_points_cells")

    def same(self, a, b, what):
        self.ctx.event("inputs_unchanged")
        if a != b:
            self.ctx.viol("input-modified", f"{what}: {diff(a, b)[0]}", where=what)

    def held_arrays(self, x, key=()):
        """The caller keeps its arrays and containers and only updates them from step to step."""
        if isinstance(x, dict):
            h = self.held.setdefault(("d",) + key, {})
            new = {n: self.held_arrays(a, key + (n,)) for n, a in x.items()}
            h.clear()
            h.update(new)
            return h
        if isinstance(x, list):
            h = self.held.setdefault(("l",) + key, [])
            h[:] = [self.held_arrays(a, key + (i,)) for i, a in enumerate(x)]
            return h
        k = key + (x.shape, str(x.dtype), x.strides)
        if k in self.held and self.held[k].flags.writeable:
            self.ctx.event("updated_in_place")
            self.held[k][...] = x
        elif k in self.held:
            return x
        return self.held.setdefault(k, x)

    def step(self):
        t, pd, cd = self.steps[self.k]
        self.k += 1
        kw = {}
        p = {n: (self.lay(np.array(a)) if self.lay else np.array(a)) for n, a in pd.items()}
        c = give_cd(self.rng, self.ref, cd)
        if self.reuse:
            p, c = self.held_arrays(p, ("p",)), self.held_arrays(c, ("c",))
        s = snap([p, c])
        if p or self.rng.random() < 0.3:
            kw["point_data"] = p
        if c or self.rng.random() < 0.3:
            kw["cell_data"] = c
        self.w.write_data(t, **kw)
        self.same(s, snap([p, c]), "write_data")
        if self.scribble:  # what was written is on record, the arrays belong to the caller
            for a in list(p.values()) + [x for l in c.values() for x in (l.values() if isinstance(l, dict) else l)]:
                if a.flags.writeable:
                    a[...] = 0

    def all(self):
        while self.k < len(self.steps):
            self.step()
        self.close()

    def close(self):
        self.w.__exit__(None, None, None)


def files_expected(f, path, ref, steps):
    d, base = os.path.split(path)
    stem = os.path.splitext(base)[0]
    out = {base}
    n = 2 + sum(len(p) + len(c) for _, p, c in steps)
    if f == "HDF":
        out.add(stem + ".h5")
    elif f == "Binary":
        out |= {f"{stem}{k}.bin" for k in range(n)}
    return out


def cmp_step(ctx, cap, ref, steps, k, got, cells, how):
    t, pd, cd = steps[k]
    gt, gp, gc = got
    w = f"step {k} of {len(steps)} ({how})"
    if not isinstance(gt, float) or gt != float(t):
        ctx.viol("time", f"{w}: time {t!r} came back as {gt!r}", where=how)
    if set(gp) != set(pd):
        ctx.viol("names", f"{w}: point data {sorted(pd)} came back as {sorted(gp)}", where=how)
    if set(gc) != set(cd):
        ctx.viol("names", f"{w}: cell data {sorted(cd)} came back as {sorted(gc)}", where=how)
    r = Ref(ref.points, ref.cells, point_data=pd, cell_data=cd)

    class M:
        pass
    m = M()
    m.point_data, m.cell_data, m.cells = gp, gc, cells
    for mech, msg in oracle.cmp_data(r, m, cap):
        ctx.viol(mech, f"{w}: {msg}", where=how)
    ctx.event("steps_read")
    ctx.event("arrays_compared", len(pd) + len(cd))


def cmp_mesh(ctx, cap, ref, points, cells, how):
    class M:
        pass
    m = M()
    m.points, m.cells = points, cells
    for mech, msg in oracle.cmp_geometry(ref, m, cap):
        ctx.viol(mech, f"{how}: {msg}", where=how)


def check_reader(ctx, rng, cap, ref, steps, path, key, how, repeats=1):
    with meshio.xdmf.TimeSeriesReader(path) as r:
        if r.num_steps != len(steps):
            ctx.viol("num-steps", f"{how}: {len(steps)} steps written, num_steps is {r.num_steps}", where=how)
            return
        pts, cells = r.read_points_cells()
        cmp_mesh(ctx, cap, ref, pts, cells, how)
        n = len(steps)
        for rep in range(repeats):
            order = list(range(n)) if rep == 0 else rng.permutation(n).tolist()
            if rep == 2:
                order = order[::-1] + [0] * min(n, 1)
            held = []
            for k in order:
                got = r.read_data(k)
                cmp_step(ctx, cap, ref, steps, k, got, cells, how)
                ctx.obs(key, k, rep)
                held.append((k, got))
                if rng.random() < 0.2:
                    for a in got[1].values():
                        try:
                            a[...] = 0
                        except ValueError:
                            pass
                    held.pop()
            # earlier results are not disturbed by later reads
            for k, got in held:
                cmp_step(ctx, cap, ref, steps, k, got, cells, how + " re-examined")
            if rep == 1:
                pts, cells2 = r.read_points_cells()
                cmp_mesh(ctx, cap, ref, pts, cells2, how + " again")
        if n:
            cmp_step(ctx, cap, ref, steps, n - 1, r.read_data(-1), cells, how + " [-1]")
    ctx.event("series")


# ------------------------------------------------------------------ independent decoder
NPT = {("Float", 4): "f4", ("Float", 8): "f8", ("Int", 1): "i1", ("Int", 2): "i2", ("Int", 4): "i4", ("Int", 8): "i8",
       ("UInt", 1): "u1", ("UInt", 2): "u2", ("UInt", 4): "u4", ("UInt", 8): "u8", ("Char", 1): "i1", ("UChar", 1): "u1",
       ("Short", 2): "i2", ("UShort", 2): "u2"}


def item(e, d):
    dt = np.dtype(NPT[(e.get("DataType") or e.get("NumberType") or "Float", int(e.get("Precision") or 4))])
    dims = [int(x) for x in e.get("Dimensions").split()]
    if e.get("Format") == "XML":
        l = e.text.split()
        a = np.array([float(x) for x in l] if dt.kind == "f" else [int(x) for x in l], dtype=dt)
    elif e.get("Format") == "Binary":
        with open(os.path.join(d, e.text.strip()), "rb") as f:
            a = np.frombuffer(f.read(), dtype=dt)
    else:
        import h5py
        fn, p = e.text.strip().rsplit(":", 1)
        with h5py.File(os.path.join(d, fn), "r") as f:
            a = f[p][()]
        if list(a.shape) != dims:
            raise ValueError(f"HDF5 dataset of shape {a.shape}, Dimensions {dims}")
        return a
    return a.reshape(dims)


def decode(ctx, cap, ref, steps, path):
    d = os.path.dirname(path)
    root = ET.parse(path).getroot()
    dom = root.find("Domain")
    col = [g for g in dom if g.get("GridType") == "Collection"][0]
    if col.get("CollectionType") != "Temporal" or len(col) != len(steps):
        ctx.viol("decode", f"collection of {len(col)} grids for {len(steps)} steps")
        return
    for k, (g, (t, pd, cd)) in enumerate(zip(col, steps)):
        if float(g.find("Time").get("Value")) != float(t):
            ctx.viol("decode", f"step {k}: Time {g.find('Time').get('Value')} for {t!r}")
        inc = [e for e in g if e.tag.endswith("include")]
        if len(inc) != 1 or 'Name="mesh"' not in inc[0].get("xpointer", ""):
            ctx.viol("decode", f"step {k} does not refer to the mesh")
        exp = {("Node", n): a for n, a in pd.items()}
        exp.update({("Cell", n): np.concatenate(l) for n, l in cd.items()})
        got = {(a.get("Center"), a.get("Name")): item(a[0], d) for a in g.findall("Attribute")}
        if set(got) != set(exp):
            ctx.viol("decode", f"step {k}: {sorted(got)} instead of {sorted(exp)}")
            continue
        for n, a in exp.items():
            if got[n].shape != a.shape or not np.array_equal(got[n].astype(a.dtype), a):
                ctx.viol("decode", f"step {k}: {n} holds other values")
        ctx.event("decoded_steps")


def rewrite(rng, path, out):
    """The same series as another program may spell it: order of elements, attribute names, white space, the mesh
    in the first step instead of beside the collection."""
    root = ET.parse(path).getroot()
    dom = root.find("Domain")
    used = set()

    def shuffle(e, keep=()):
        l = [x for x in e if x.tag not in keep]
        k = [x for x in e if x.tag in keep]
        for x in list(e):
            e.remove(x)
        for i in rng.permutation(len(l)):
            e.append(l[int(i)])
        for x in k:
            e.append(x)
    col = [g for g in dom if g.get("GridType") == "Collection"][0]
    uni = [g for g in dom if g.get("GridType") == "Uniform"][0]
    if len(col) and rng.random() < 0.4:
        used.add("mesh in steps")
        dom.remove(uni)
        for j, g in enumerate(col):
            for x in [x for x in g if x.tag.endswith("include")]:
                g.remove(x)
            g.set("GridType", "Uniform")
            for x in uni:
                if x.tag in ("Topology", "Geometry") and j == 0:
                    g.append(x)
    elif rng.random() < 0.6:
        used.add("domain order")
        shuffle(dom)
    if rng.random() < 0.6:
        used.add("step order")
        for g in col:
            shuffle(g)
    for e in root.iter():
        if e.tag == "DataItem":
            if "DataType" in e.attrib and rng.random() < 0.4:
                used.add("NumberType")
                e.set("NumberType", e.attrib.pop("DataType"))
            if rng.random() < 0.4 and e.text:
                used.add("space")
                e.text = "\n   " + e.text.strip() + "\n  "
            if e.get("Format") == "XML" and rng.random() < 0.3:
                used.add("default format")
                e.attrib.pop("Format")
            if e.get("Precision") == "4" and rng.random() < 0.5:
                used.add("default precision")
                e.attrib.pop("Precision")
                if (e.get("DataType") or e.get("NumberType")) == "Float" and rng.random() < 0.5:
                    e.attrib.pop("DataType", None)
                    e.attrib.pop("NumberType", None)
        if e.tag == "Topology" and "TopologyType" in e.attrib and rng.random() < 0.5:
            used.add("Type")
            e.set("Type", e.attrib.pop("TopologyType"))
        if rng.random() < 0.3:
            e.tail = (e.tail or "") + "\n\t"
    if rng.random() < 0.4:
        used.add("comment")
        for g in col:
            g.insert(0, ET.Element("Information", Name="by", Value="hand"))
    hdf = [e for e in root.iter() if e.tag == "DataItem" and e.get("Format") == "HDF"]
    if len(hdf) > 1 and rng.random() < 0.6:
        used.add("several HDF5 files")
        # arrays spread over several files, in which the same name means another array
        import h5py
        here = os.path.dirname(out)
        names = [e.text.strip().split(":")[-1] for e in hdf]
        files = [f"part{j}.h5" for j in range(int(rng.integers(1, 4)))]
        for j, fn in enumerate(files):
            with h5py.File(os.path.join(here, fn), "w") as h:
                perm = rng.permutation(len(hdf))
                for i, e in enumerate(hdf):
                    src, nm = e.text.strip().rsplit(":", 1)
                    if src in files:
                        continue
                    new = names[int(perm[i])]
                    with h5py.File(os.path.join(here, src), "r") as g:
                        if new not in h:
                            h[new] = g[nm][()]
                        else:
                            continue
                    if rng.random() < 0.6:
                        e.text = f"{fn}:{new}"
    ET.ElementTree(root).write(out, encoding=str(rng.choice(["utf-8", "us-ascii"])),
                               xml_declaration=bool(rng.random() < 0.5))
    return used


NAMES = ["m.xdmf", "a.b.xdmf", "series 1.xdmf", "m.v2.xmf", "x:y.xdmf", "ü.xdmf", "noext", "m0.xdmf", "A.XDMF"]


def run_series(case, ctx):
    rng = rng_of("ts", case["f"], case["s"])
    f = case["f"]
    cap, ref, steps = series(rng, f)
    with scratch() as d:
        nm = NAMES[int(rng.integers(0, len(NAMES)))]
        path = os.path.join(d, nm)
        if rng.random() < 0.25:
            # something is there already
            _, r0, s0 = series(rng, f, 4)
            Writer(ctx, rng, f, path, r0, s0).all()
            have = set(os.listdir(d))
        else:
            have = set()
        ctx.mark("layouts", f)
        cwd = os.getcwd()
        try:
            p = path
            if rng.random() < 0.2:
                os.chdir(d)
                p = nm
            o = observe(lambda: Writer(ctx, rng, f, p, ref, steps).all())
            os.chdir("/")
            if o.exc is not None:
                ctx.viol("write-raised", f"{f}: {exc_str(o.exc)} for {ref.describe()}", where=f)
                return
            exp = files_expected(f, path, ref, steps)
            got = set(os.listdir(d))
            if not exp <= got or not got <= exp | have:
                ctx.viol("files", f"{f} {nm}: expected files {sorted(exp)}, found {sorted(got)}"[:500], where=f)
            if case["s"] % 3 == 0:
                os.rename(d, d + "_moved")  # the files belong together
                os.mkdir(d)
                path = os.path.join(d + "_moved", nm)
            try:
                o = observe(check_reader, ctx, rng, cap, ref, steps, path, ("series", f, case["s"]), f, 3)
                if o.exc is not None:
                    ctx.viol("read-raised", f"{f} {nm}: {exc_str(o.exc)}", where=f)
                    return
                decode(ctx, cap, ref, steps, path)
                if case["s"] % 2:
                    p2 = os.path.join(os.path.dirname(path), "rewritten.xdmf")
                    used = rewrite(rng, path, p2)
                    for u in used:
                        ctx.mark("rewrites", u)
                    o = observe(check_reader, ctx, rng, cap, ref, steps, p2, ("rewritten", f, case["s"]),
                                f + " rewritten: " + ", ".join(sorted(used)), 2)
                    if o.exc is not None:
                        ctx.viol("read-raised", f"{f} rewritten {sorted(used)}: {exc_str(o.exc)}", where=f)
                    for x in glob.glob(os.path.join(glob.escape(os.path.dirname(path)), "part?.h5")) + [p2]:
                        os.remove(x)
                    ctx.event("rewritten")
            finally:
                if case["s"] % 3 == 0:
                    os.rmdir(d)
                    os.rename(d + "_moved", d)
        finally:
            os.chdir(cwd)
        ctx.sample(layout=f, mesh=ref.describe(), steps=len(steps), path=nm)


def run_inter(case, ctx):
    """Several writers, then several readers, with interleaved steps."""
    rng = rng_of("ti", case["f"], case["s"])
    with scratch() as d:
        ws, meta = [], []
        for j in range(3):
            f = case["f"] if j < 2 else FMT[int(rng.integers(0, 3))]
            cap, ref, steps = series(rng, f, int(rng.integers(1, 7)))
            path = os.path.join(d, f"s_{'abc'[j]}.xdmf")
            o = observe(Writer, ctx, rng, f, path, ref, steps)
            if o.exc is not None:
                ctx.viol("write-raised", f"{f}: {exc_str(o.exc)}", where=f)
                return
            ws.append(o.value)
            meta.append((f, cap, ref, steps, path))
        todo = [j for j, w in enumerate(ws) for _ in w.steps]
        for j in rng.permutation(todo):
            o = observe(ws[j].step)
            if o.exc is not None:
                ctx.viol("write-raised", f"{meta[j][0]}: {exc_str(o.exc)}", where="interleaved")
                return
        for w in ws:
            w.close()
        rs = [meshio.xdmf.TimeSeriesReader(m[4]).__enter__() for m in meta]
        cells = []
        for r, (f, cap, ref, steps, path) in zip(rs, meta):
            p, c = r.read_points_cells()
            cmp_mesh(ctx, cap, ref, p, c, "interleaved")
            cells.append(c)
        l = [(j, k) for j, m in enumerate(meta) for k in range(len(m[3]))] * 2
        for i in rng.permutation(len(l)):
            j, k = l[i]
            o = observe(rs[j].read_data, k)
            if o.exc is not None:
                ctx.viol("read-raised", f"{meta[j][0]}: {exc_str(o.exc)}", where="interleaved")
                continue
            cmp_step(ctx, meta[j][1], meta[j][2], meta[j][3], k, o.value, cells[j], "interleaved")
            ctx.obs("inter", case["f"], case["s"], j, k)
        for r in rs:
            r.__exit__(None, None, None)
        ctx.event("interleaved")
        ctx.event("series", 3)


def run_long(case, ctx):
    rng = rng_of("tl", case["f"], case["s"])
    f = case["f"]
    cap, ref, steps = series(rng, f, int(rng.integers(20, 61)), "tiny")
    with scratch() as d:
        path = os.path.join(d, "long.xdmf")
        o = observe(lambda: Writer(ctx, rng, f, path, ref, steps).all())
        if o.exc is not None:
            ctx.viol("write-raised", f"{f}: {exc_str(o.exc)}", where="long")
            return
        o = observe(check_reader, ctx, rng, cap, ref, steps, path, ("long", f, case["s"]), "long", 2)
        if o.exc is not None:
            ctx.viol("read-raised", f"{f}: {exc_str(o.exc)}", where="long")


def run_errors(case, ctx):
    """Refusals, and a series interrupted by an exception of the caller."""
    rng = rng_of("te", case["f"], case["s"])
    f = case["f"]
    cap, ref, steps = series(rng, f, 4)
    with scratch() as d:
        path = os.path.join(d, "e.xdmf")
        o = observe(meshio.xdmf.TimeSeriesWriter, path, data_format="Nope")
        ctx.event("refused")
        if not isinstance(o.exc, meshio.WriteError):
            ctx.viol("refusal", f"unknown data format accepted: {o.exc!r}")
        with meshio.xdmf.TimeSeriesWriter(os.path.join(d, "f.xdmf"), data_format=f) as w:
            o = observe(w.write_data, 0.0, point_data={})
            ctx.event("refused")
            if not isinstance(o.exc, meshio.WriteError):
                ctx.viol("refusal", f"data before the mesh accepted: {o.exc!r}")
        # a caller's exception ends the with block: what was written until then is there
        n = int(rng.integers(0, 4))
        try:
            with meshio.xdmf.TimeSeriesWriter(path, data_format=f) as w:
                w.write_points_cells(ref.points, [(t, c) for t, c in ref.cells])
                for t, p, c in steps[:n]:
                    w.write_data(t, point_data=p, cell_data=c)
                raise KeyboardInterrupt
        except KeyboardInterrupt:
            pass
        o = observe(check_reader, ctx, rng, cap, ref, steps[:n], path, ("err", f, case["s"]), "interrupted", 1)
        if o.exc is not None:
            ctx.viol("read-raised", f"{f} interrupted after {n} steps: {exc_str(o.exc)}", where="interrupted")
        with meshio.xdmf.TimeSeriesReader(path) as r:
            r.read_points_cells()
            o = observe(r.read_data, n)
            ctx.event("refused")
            if o.exc is None:
                ctx.viol("refusal", f"step {n} of {n} was returned")
