"""PLY, XDMF, Exodus, MED, H5M, CGNS, FLAC3D, UGRID, ANSYS, Neuroglancer."""
import os
import struct
from xml.sax.saxutils import escape, quoteattr

import numpy as np

from .. import spec
from ..dec import binary as db
from ..dec import xdmf as dx
from ..ref import NN


def sort_cells(ref, key):
    o = sorted(range(len(ref.cells)), key=lambda i: key(ref.cells[i]))
    ref.cells = [ref.cells[i] for i in o]
    ref.cell_data = {k: [v[i] for i in o] for k, v in ref.cell_data.items()}


# ---------------------------------------------------------------- PLY
def ply(r, path, ref, cap):
    fmt = r.pick(["binary_little_endian", "binary_big_endian"], "byte order") if cap.kw["binary"] else "ascii"
    alias = {}
    for k, v in db.PLYT.items():
        alias.setdefault(v, []).append(k)

    def ty(dt):
        return r.pick(alias[dt], "type names")
    head = ["ply", f"format {fmt} 1.0"]

    def noise():
        if r.p(0.15, "comment"):
            head.append("comment made by hand: element vertex 5")
    noise()
    if r.p(0.15, "obj_info"):
        head.append("obj_info num_cols 512")
    n = len(ref.points)
    pdt = ref.points.dtype.str[1:]
    cols = [(c, ref.points[:, i], pdt) for i, c in enumerate("xyz")]
    cols += [(k, np.asarray(v), np.asarray(v).dtype.str[1:]) for k, v in ref.point_data.items()]
    if r.p(0.3, "property order"):
        cols = [cols[i] for i in r.rng.permutation(len(cols))]
        ref.point_data = {c: v for c, v, _ in cols if c not in "xyz"}
    head.append(f"element vertex {n}")
    for c, _, dt in cols:
        head.append(f"property {ty(dt)} {c}")
        noise()
    rows = [c for _, d in ref.cells for c in d]
    widest = max([len(c) for c in rows], default=0)
    ct = r.pick([t for t in ["u1", "u1", "i4", "u4", "i1", "u2"] if widest <= np.iinfo(t).max], "list count type")
    it = r.pick(["i4", "u4", "i8"] + (["i2", "u2"] if n < 30000 else []), "list index type")
    head.append(f"element face {len(rows)}")
    props = [("vertex_indices", None, None)]
    for k in range(r.pick([0, 0, 1, 2])):
        dt = r.pick(["f4", "f8", "u1", "i4"])
        a = (r.rng.normal(size=len(rows)) * 100 % 100).astype(dt)
        props.insert(r.int(0, len(props) + 1), (f"q{k}", a, dt))
        r.used.append("face properties")
        ends = np.cumsum([len(d) for _, d in ref.cells])[:-1]
        ref.cell_data[f"q{k}"] = np.split(a, ends)
    for nm, _, dt in props:
        head.append(f"property list {ty(ct)} {ty(it)} {nm}" if dt is None else f"property {ty(dt)} {nm}")
    noise()
    head.append("end_header")
    out = ("\n".join(head) + "\n").encode()
    if fmt == "ascii":
        def tok(x, dt):
            return (r.fl(x) if dt == "f8" else r.fl(np.float32(x))) if dt[0] == "f" else str(int(x))
        end = r.pick(["\n", " \n"])
        for i in range(n):
            out += (r.sp().join(tok(v[i], dt) for _, v, dt in cols) + end).encode()
        for i, row in enumerate(rows):
            w = []
            for nm, a, dt in props:
                w += [str(len(row)), *map(str, row)] if dt is None else [tok(a[i], dt)]
            out += (r.sp().join(w) + end).encode()
    else:
        o = "<" if "little" in fmt else ">"
        rec = np.zeros(n, [(f"c{i}", o + dt) for i, (_, _, dt) in enumerate(cols)])
        for i, (_, v, _) in enumerate(cols):
            rec[f"c{i}"] = v
        out += rec.tobytes()
        for i, row in enumerate(rows):
            for nm, a, dt in props:
                if dt is None:
                    out += np.array([len(row)], o + ct).tobytes() + np.asarray(row).astype(o + it).tobytes()
                else:
                    out += a[i:i + 1].astype(o + dt).tobytes()
    open(path, "wb").write(out)


# ---------------------------------------------------------------- XDMF
XN = {}
for _k, _v in dx.TYPES.items():
    XN.setdefault(_v, []).append(_k)
XCASE = {"polyvertex": "Polyvertex", "polyline": "Polyline", "triangle": "Triangle", "quadrilateral": "Quadrilateral",
         "tetrahedron": "Tetrahedron", "pyramid": "Pyramid", "wedge": "Wedge", "hexahedron": "Hexahedron",
         "edge_3": "Edge_3", "triangle_6": "Triangle_6", "quadrilateral_8": "Quadrilateral_8",
         "quadrilateral_9": "Quadrilateral_9", "tetrahedron_10": "Tetrahedron_10", "pyramid_13": "Pyramid_13",
         "wedge_15": "Wedge_15", "wedge_18": "Wedge_18", "hexahedron_20": "Hexahedron_20",
         "hexahedron_24": "Hexahedron_24", "hexahedron_27": "Hexahedron_27", "hexahedron_64": "Hexahedron_64",
         "tri_6": "Tri_6", "quad_8": "Quad_8", "quad_9": "Quad_9", "tet_10": "Tet_10", "hex_20": "Hex_20",
         "hex_27": "Hex_27", "hex_64": "Hex_64"}
MIXCODE = {t: (k, w) for k, (t, w) in dx.MIXED.items()}
KIND = {"f": "Float", "i": "Int", "u": "UInt"}


def xdmf(r, path, ref, cap):
    base = os.path.dirname(path)
    ver = r.pick(["3.0", "3.0", "2.0", "2.2", "3"], "version")
    v2 = ver[0] == "2"
    form = r.pick(["XML", "XML", "Binary", "HDF"], "format")
    h5 = None
    count = [0]
    shared = r.p(0.5, "one binary file for all items")
    store = []

    def item(a, fmt=None, dims=None):
        nonlocal h5
        a = np.asarray(a)
        dt = a.dtype.str[1:]
        f = fmt or form
        if fmt is None and form != "XML" and r.p(0.1, "one item in XML"):
            f = "XML"
        if f == "XML" and dt in ("i1", "u1", "i2", "u2"):
            pass
        at = [("Dimensions", " ".join(map(str, dims or a.shape)))]
        if not (dt == "f4" and r.p(0.3, "number type by default")):
            at.append((r.pick(["NumberType", "DataType"], "number type attribute"), KIND[dt[0]]))
        if not (dt[1] == "4" and r.p(0.3, "precision by default")):
            at.append(("Precision", dt[1]))
        if not (f == "XML" and r.p(0.2, "format by default")):
            at.append(("Format", f))
        nm = f"d{count[0]}"
        count[0] += 1
        if f == "XML":
            w = r.pick([1, 3, 7, 1000])
            t = [r.fl(x) if dt == "f8" else r.fl(np.float32(x)) if dt[0] == "f" else str(int(x)) for x in a.ravel()]
            body = "\n" + "\n".join(r.sp().join(t[i:i + w]) for i in range(0, len(t), w)) + "\n"
        elif f == "Binary":
            o = r.pick(["<", "<", ">"], "endian")
            raw = a.astype(o + dt).tobytes()
            if o == ">" or r.p(0.5):
                at.append(("Endian", "Big" if o == ">" else "Little"))
            fn = "all.bin" if shared else nm + ".bin"
            if shared:
                at.append(("Seek", sum(map(len, store))))
                store.append(raw)
            else:
                open(os.path.join(base, fn), "wb").write(raw)
            body = r.pick(["", "\n"]) + fn + r.pick(["", "\n"])
        else:
            import h5py
            if h5 is None:
                h5 = h5py.File(os.path.join(base, "heavy.h5"), "w")
            g = r.pick(["", "/group/sub"])
            h5[f"{g}/{nm}"] = a.astype(r.pick(["<", "<", ">"], "endian of the dataset") + dt)
            body = r.pick(["", "\n "]) + f"heavy.h5:{g}/{nm}" + r.pick(["", "\n"])
        if r.p(0.3, "attribute order"):
            at = [at[i] for i in r.rng.permutation(len(at))]
        return "<DataItem " + " ".join(f"{k}={quoteattr(str(v))}" for k, v in at) + f">{body}</DataItem>\n"

    if v2:
        ref.points = ref.points if ref.points.shape[1] == 3 else np.column_stack(
            [ref.points, np.zeros(len(ref.points), ref.points.dtype)])
    it = r.pick(["i8", "i4", "u4"], "index type")
    one = len({t for t, _ in ref.cells}) == 1 and "line" != ref.cells[0][0]
    nc = sum(len(d) for _, d in ref.cells)
    tkey = "TopologyType" if v2 else r.pick(["TopologyType", "Type"], "topology attribute")
    if one and r.p(0.7, "uniform topology"):
        t = ref.cells[0][0]
        d = np.concatenate([c for _, c in ref.cells]).astype(it)
        names = [XCASE.get(x, x.capitalize()) for x in XN[t]]
        dims = None
        if r.p(0.2, "flat dimensions"):
            dims = (d.size,)
        at = f'{tkey}="{r.pick(names, "topology")}"'
        if r.p(0.5):
            at += f' NumberOfElements="{nc}"'
        if t == "vertex" or r.p(0.3):
            at += f' NodesPerElement="{NN[t]}"'
        top = f"<Topology {at}>\n{item(d, dims=dims)}</Topology>\n"
    else:
        v = []
        for t, d in ref.cells:
            k, w = MIXCODE[t]
            for row in d:
                v += [k, *([len(row)] if w is None else []), *map(int, row)]
        v = np.array(v, it)
        top = f'<Topology {tkey}="Mixed" NumberOfElements="{nc}">\n{item(v, "XML" if v2 else None)}</Topology>\n'
    gt = "XYZ"[:ref.points.shape[1]]
    gkey = "GeometryType" if v2 else r.pick(["GeometryType", "Type"], "geometry attribute")
    geo = f'<Geometry {gkey}="{gt}">\n{item(ref.points)}</Geometry>\n'
    atts = []
    akey = r.pick(["AttributeType", "Type"], "attribute attribute")
    for k, v in ref.point_data.items():
        atts.append((k, "Node", np.asarray(v)))
    for k, v in ref.cell_data.items():
        atts.append((k, "Cell", np.concatenate([np.asarray(x) for x in v])))
    if r.p(0.3, "order of attributes"):
        atts = [atts[i] for i in r.rng.permutation(len(atts))]
    parts = [top, geo]
    if r.p(0.5, "geometry first"):
        parts.reverse()
    for k, c, v in atts:
        kind = {(): "Scalar", (3,): "Vector", (6,): "Tensor6", (9,): "Tensor"}.get(v.shape[1:], "Matrix")
        s = f"<Attribute Name={quoteattr(k)} {akey}=\"{kind}\" Center=\"{c}\">\n{item(v)}</Attribute>\n"
        if r.p(0.1, "attribute before the geometry"):
            parts.insert(0, s)
        else:
            parts.append(s)
    out = ""
    if r.p(0.5, "XML declaration"):
        out += '<?xml version="1.0" ?>\n'
    if r.p(0.3, "DOCTYPE"):
        out += '<!DOCTYPE Xdmf SYSTEM "Xdmf.dtd" []>\n'
    out += f'<Xdmf Version="{ver}"' + (' xmlns:xi="http://www.w3.org/2001/XInclude"' if r.p(0.3) else "") + ">\n"
    if r.p(0.3, "XML comment"):
        out += "<!-- comment -->\n"
    out += "<Domain>\n" + f'<Grid Name="{r.pick(["Grid", "mesh"])}"' + (' GridType="Uniform"' if r.p(0.5) else "") + ">\n"
    out += "".join(parts) + "</Grid>\n</Domain>\n</Xdmf>\n"
    if h5 is not None:
        h5.close()
    if store:
        open(os.path.join(base, "all.bin"), "wb").write(b"".join(store))
    open(path, "w").write(out)


# ---------------------------------------------------------------- Exodus II
EXON = {"vertex": ["SPHERE"], "line": ["BEAM", "BEAM2", "BAR2"], "line3": ["BEAM3"], "triangle": ["TRI", "TRI3", "TRIANGLE"],
        "triangle6": ["TRI6"], "quad": ["QUAD", "QUAD4", "SHELL", "SHELL4"], "quad8": ["QUAD8", "SHELL8"],
        "quad9": ["QUAD9", "SHELL9"], "tetra": ["TETRA", "TETRA4", "TET4"], "tetra10": ["TETRA10"],
        "hexahedron": ["HEX", "HEX8"], "hexahedron20": ["HEX20"], "hexahedron27": ["HEX27"], "pyramid": ["PYRAMID"],
        "wedge": ["WEDGE"]}


def exodus(r, path, ref, cap):
    import netCDF4
    fmt = r.pick(["NETCDF3_64BIT_OFFSET", "NETCDF3_CLASSIC", "NETCDF4"], "netCDF format")
    classic = fmt != "NETCDF4"
    n, dim = ref.points.shape
    with netCDF4.Dataset(path, "w", format=fmt) as f:
        f.title = "made by an encoder"
        f.version = np.float32(r.pick([4.98, 5.1, 7.05]))
        f.api_version = f.version
        f.floating_point_word_size = 8
        ln = r.pick([33, 256], "length of names")
        f.createDimension("len_string", 33)
        f.createDimension("len_name", ln)
        f.createDimension("len_line", 81)
        f.createDimension("four", 4)
        f.createDimension("time_step", None)
        f.createDimension("num_dim", dim)
        f.createDimension("num_nodes", n)
        f.createDimension("num_elem", sum(len(c) for _, c in ref.cells))
        f.createDimension("num_el_blk", len(ref.cells))
        steps = r.pick([1, 1, 2], "time steps")
        f.createVariable("time_whole", "f8", ("time_step",))[:] = np.arange(steps) * 0.5

        def strings(name, dimname, items, create=True):
            if create:
                f.createDimension(dimname, len(items))
            v = f.createVariable(name, "S1", (dimname, "len_name"))
            pad = r.pick([b"\0", b"\0"])
            for i, s in enumerate(items):
                b = s.encode()
                v[i, :] = np.array([b[k:k + 1] if k < len(b) else pad for k in range(ln)], "S1")
        if r.p(0.3, "qa records"):
            f.createDimension("num_qa_rec", 1)
            v = f.createVariable("qa_records", "S1", ("num_qa_rec", "four", "len_string"))
            for k, s in enumerate(["CUBIT", "1.0", "01/01/20", "10:00:00"]):
                v[0, k, :] = np.array(list(s.ljust(33, "\0")), "S1")

        def coords():
            if r.p(0.5, "coord in one variable"):
                f.createVariable("coord", "f8", ("num_dim", "num_nodes"))[:] = ref.points.T
            else:
                for k in range(dim):
                    f.createVariable("coord" + "xyz"[k], "f8", ("num_nodes",))[:] = ref.points[:, k]
                if dim == 2:
                    ref.points = np.column_stack([ref.points, np.zeros(n)])

        def blocks():
            ids = r.ids(len(ref.cells))
            if r.p(0.5):
                f.createVariable("eb_status", "i4", ("num_el_blk",))[:] = 1
            v = f.createVariable("eb_prop1", "i4", ("num_el_blk",))
            v.setncattr("name", "ID")
            v[:] = ids
            order = range(len(ref.cells))
            if r.p(0.3, "variables of the blocks in arbitrary order"):
                order = [int(x) for x in r.rng.permutation(len(ref.cells))]
            for k in order:
                t, c = ref.cells[k]
                f.createDimension(f"num_el_in_blk{k + 1}", len(c))
                f.createDimension(f"num_nod_per_el{k + 1}", NN[t])
                v = f.createVariable(f"connect{k + 1}", "i4", (f"num_el_in_blk{k + 1}", f"num_nod_per_el{k + 1}"))
                nm = r.pick(EXON[t])
                if t not in ("vertex", "quad") and r.p(0.2, "element type without the number of nodes"):
                    nm = nm.rstrip("0123456789")
                    nm = {"BAR": "BEAM", "TET": "TETRA"}.get(nm, nm)
                v.elem_type = r.pick([nm, nm.lower()], "case of the element type")
                v[:] = np.asarray(c)[:, spec.inverse(spec.perm(t, spec.EXODUS))] + 1

        def nodal():
            if not ref.point_data:
                return
            strings("name_nod_var", "num_nod_var", list(ref.point_data))
            for k, a in enumerate(ref.point_data.values(), 1):
                a = np.asarray(a)
                dt = a.dtype.str[1:]
                if classic and dt not in ("f8", "f4", "i4", "i2", "i1"):
                    dt = "f8"
                v = f.createVariable(f"vals_nod_var{k}", dt, ("time_step", "num_nodes"))
                for s in range(steps):
                    v[s, :] = a if s == 0 else np.zeros(n)

        def elem():
            if not r.p(0.5, "element variables"):
                return
            names = ["e", "stress_xx"][:r.int(1, 3)]
            strings("name_elem_var", "num_elem_var", names)
            for i, nm in enumerate(names, 1):
                ref.cell_data[nm] = []
                for k, (t, c) in enumerate(ref.cells, 1):
                    a = r.rng.normal(size=len(c))
                    if len(ref.cells) > 1 and r.p(0.15, "variable not defined on a block"):
                        a[:] = np.nan
                    else:
                        v = f.createVariable(f"vals_elem_var{i}eb{k}", "f8", ("time_step", f"num_el_in_blk{k}"))
                        for s in range(steps):
                            v[s, :] = a + s
                    ref.cell_data[nm].append(a)
                if all(np.isnan(x).all() for x in ref.cell_data[nm]):
                    del ref.cell_data[nm]

        def nodesets():
            if not r.p(0.4, "node sets"):
                return
            names = ["left", "right side"][:r.int(1, 3)]
            strings("ns_names", "num_node_sets", names)
            f.createVariable("ns_prop1", "i4", ("num_node_sets",))[:] = np.arange(len(names)) * 10 + 7
            sets = [np.sort(r.rng.choice(n, r.int(1, n + 1), replace=False)) for _ in names]
            order = list(range(len(names)))
            if r.p(0.3):
                order.reverse()
            for k in order:
                f.createDimension(f"num_nod_ns{k + 1}", len(sets[k]))
                f.createVariable(f"node_ns{k + 1}", "i4", (f"num_nod_ns{k + 1}",))[:] = sets[k] + 1
            for nm, s in zip(names, sets):
                ref.point_sets[nm] = s
        parts = [coords, blocks, nodal, nodesets]
        if r.p(0.3, "order of the variables"):
            parts = [parts[i] for i in r.rng.permutation(4)]
        for p in parts:
            p()
            if p is blocks:
                elem()


# ---------------------------------------------------------------- MED
MEDN = {v: k for k, v in db.MED.items()}


def med(r, path, ref, cap):
    import h5py
    n, dim = ref.points.shape
    sort_cells(ref, lambda c: MEDN[c[0]])
    with h5py.File(path, "w") as f:
        gi = f.create_group("INFOS_GENERALES")
        for k, v in zip(("MAJ", "MIN", "REL"), r.pick([(3, 0, 0), (4, 1, 0), (2, 3, 6)], "version")):
            gi.attrs[k] = v
        nm = r.pick(["mesh", "Mesh_1", "a mesh"])
        m = f.create_group("ENS_MAA/" + nm)
        m.attrs["DIM"], m.attrs["ESP"], m.attrs["REP"] = dim, dim, 0
        m.attrs["NOM"] = np.bytes_("".join(f"{x:<16}" for x in "XYZ"[:dim]))
        ts = m.create_group("-0000000000000000001-0000000000000000001") if r.p(0.7, "time step level") else m
        noe = ts.create_group("NOE")
        co = noe.create_dataset("COO", data=ref.points.T.ravel())
        co.attrs["NBR"] = n
        if r.p(0.5, "node families"):
            fam = r.rng.integers(0, 3, n)
            noe.create_dataset("FAM", data=fam).attrs["NBR"] = n
            ref.point_data["point_tags"] = fam
        if r.p(0.3, "node numbers"):
            noe.create_dataset("NUM", data=np.arange(n) + 1).attrs["NBR"] = n
        mai = ts.create_group("MAI")
        ctags = []
        fams = r.p(0.5, "cell families")
        order = list(range(len(ref.cells)))
        for k in order:
            t, c = ref.cells[k]
            g = mai.create_group(MEDN[t])
            g.attrs["CGT"], g.attrs["CGS"], g.attrs["PFL"] = 1, 1, np.bytes_("MED_NO_PROFILE_INTERNAL")
            d = g.create_dataset("NOD", data=(np.asarray(c).T + 1).ravel().astype(r.pick(["i8", "i4"])))
            d.attrs["NBR"] = len(c)
            d.attrs["CGT"] = 1
            if fams and not (len(ref.cells) > 1 and r.p(0.2, "families on some cell types only")):
                fam = -r.rng.integers(0, 4, len(c))
                g.create_dataset("FAM", data=fam).attrs["NBR"] = len(c)
                ctags.append(fam)
            else:
                ctags.append(None)
        if any(x is not None for x in ctags):
            ref.cell_data["cell_tags"] = [np.zeros(len(c), int) if x is None else x for x, (_, c) in zip(ctags, ref.cells)]
        fas = f.create_group("FAS/" + nm)
        fas.create_group("FAMILLE_ZERO").attrs["NUM"] = 0
        want = {}
        for w, s in (("NOEUD", 1), ("ELEME", -1)):
            want[w] = {}
            if r.p(0.5, "groups"):
                g = fas.create_group(w)
                for k in range(1, r.int(1, 4)):
                    names = [f"grp{k}_{j}" for j in range(r.int(1, 3))]
                    gg = g.create_group(f"FAM_{s * k}_x")
                    gg.attrs["NUM"] = s * k
                    gr = gg.create_group("GRO")
                    gr.attrs["NBR"] = len(names)
                    pad = r.pick(["\0", " "], "padding of group names")
                    gr.create_dataset("NOM", data=np.array([[ord(x) for x in q.ljust(80, pad)] for q in names], "i1"))
                    want[w][s * k] = names
        ref.extra = want
        cha = None
        fields = [(k, np.asarray(v), None) for k, v in ref.point_data.items() if k != "point_tags"]
        fields += [(k, None, v) for k, v in ref.cell_data.items() if k != "cell_tags"]
        for k, pv, cv in fields:
            cha = cha or f.create_group("CHA")
            nco = (pv if cv is None else np.asarray(cv[0])).reshape(n if cv is None else len(cv[0]), -1).shape[1]
            if k in cha:
                del ref.point_data[k]
                del cha[k]
            g = cha.create_group(k)
            g.attrs["NCO"], g.attrs["TYP"] = nco, 6
            g.attrs["MAI"] = np.bytes_(nm)
            if r.p(0.5):
                g.attrs["NOM"] = np.bytes_("".join(f"{'c%d' % i:<16}" for i in range(nco)))
            st = g.create_group("-0000000000000000001-0000000000000000001")
            st.attrs["NDT"], st.attrs["NOR"], st.attrs["PDT"] = -1, -1, 0.0

            def put(name, a):
                a = np.asarray(a, "f8").reshape(len(a), -1)
                s = st.create_group(name)
                prof = "MED_NO_PROFILE_INTERNAL"
                full = a
                idx = None
                s.attrs["GAU"] = np.bytes_("")
                s.attrs["PFL"] = np.bytes_(prof)
                p = s.create_group(prof)
                p.attrs["NBR"], p.attrs["NGA"], p.attrs["GAU"] = len(a), 1, np.bytes_("")
                p.create_dataset("CO", data=full.T.ravel())
            if cv is None:
                put("NOE", pv)
            else:
                for (t, _), a in zip(ref.cells, cv):
                    put("MAI." + MEDN[t], a)


def med_check(ref, m):
    v = []
    for w, a in (("NOEUD", "point_tags"), ("ELEME", "cell_tags")):
        got = {int(k): list(x) for k, x in getattr(m, a, {}).items()}
        if got != ref.extra[w]:
            v.append(("groups", f"families {w}: {ref.extra[w]} read as {got}"))
    return v


# ---------------------------------------------------------------- H5M
def h5m(r, path, ref, cap):
    import h5py
    names = {"line": "Edge2", "triangle": "Tri3", "quad": "Quad4", "tetra": "Tet4", "hexahedron": "Hex8", "wedge": "Prism6",
             "pyramid": "Pyramid5"}
    enum = {"Edge": 1, "Tri": 2, "Quad": 3, "Polygon": 4, "Tet": 5, "Pyramid": 6, "Prism": 7, "Knife": 8, "Hex": 9}
    sort_cells(ref, lambda c: names[c[0]])
    with h5py.File(path, "w") as f:
        t = f.create_group("tstt")
        et = h5py.special_dtype(enum=("i", enum))
        t["elemtypes"] = et
        first = r.pick([1, 1, 1, 11], "first node handle")
        co = t.create_dataset("nodes/coordinates", data=ref.points)
        co.attrs["start_id"] = first
        nid = first + len(ref.points)
        tg = t.create_group("tags")
        for k, a in ref.point_data.items():
            a = np.asarray(a)
            g = t.require_group("nodes/tags")
            dt = a.dtype if a.ndim == 1 else np.dtype((a.dtype, a.shape[1:]))
            g.create_dataset(k, (len(a),), dtype=dt)[:] = a
            tg.require_group(k)
        el = t.create_group("elements")
        # elements may be numbered by MOAB in any order of types
        for i, (ty, c) in enumerate(ref.cells):
            g = el.create_group(names[ty])
            g.attrs.create("element_type", enum[names[ty].rstrip("0123456789")], dtype=et)
            d = g.create_dataset("connectivity", data=np.asarray(c).astype(r.pick(["i8", "u8", "i4"])) + first)
            d.attrs["start_id"] = nid
            nid += len(c)
            for k, v in ref.cell_data.items():
                a = np.asarray(v[i])
                gg = g.require_group("tags")
                dt = a.dtype if a.ndim == 1 else np.dtype((a.dtype, a.shape[1:]))
                gg.create_dataset(k, (len(a),), dtype=dt)[:] = a
                tg.require_group(k)
        t.create_group("sets")
        t.attrs.create("max_id", nid - 1, dtype="u8")


# ---------------------------------------------------------------- CGNS
def cgns(r, path, ref, cap):
    import h5py
    with h5py.File(path, "w") as f:
        def node(g, name, data=None):
            x = g.create_group(name)
            if data is not None:
                x.create_dataset(" data", data=data)
            return x
        b = node(f, "Base", np.array([3, 3], "i4"))
        c = np.concatenate([x for _, x in ref.cells])
        z = node(b, "Zone1", np.array([[len(ref.points)], [len(c)], [0]], "i4"))
        node(z, "ZoneType", np.frombuffer(b"Unstructured", "i1"))
        g = node(z, "GridCoordinates")
        for k in range(3):
            node(g, "Coordinate" + "XYZ"[k], ref.points[:, k])
        e = node(z, "GridElements", np.array([10, 0], "i4"))
        it = r.pick(["i4", "i8"], "index type")
        node(e, "ElementRange", np.array([1, len(c)], it))
        node(e, "ElementConnectivity", (c.ravel() + 1).astype(it))


# ---------------------------------------------------------------- FLAC3D
FN = {t: (k, p) for k, (t, p) in db.FLAC.items()}


def flac3d(r, path, ref, cap):
    n = len(ref.points)
    pid = r.ids(n)
    faces = [(t, c) for t, d in ref.cells if t in ("triangle", "quad") for c in d]
    zones = [(t, c) for t, d in ref.cells if t not in ("triangle", "quad") for c in d]
    ids = r.ids(len(faces) + len(zones))
    if r.p(0.3, "faces and zones numbered independently"):
        fid, zid = r.ids(len(faces)), r.ids(len(zones))
    else:
        zid, fid = ids[:len(zones)], ids[len(zones):]

    def rows(items, eid):
        out = []
        for (t, c), i in zip(items, eid):
            k, p = FN[t]
            row = [0] * len(c)
            for a, b in enumerate(p):
                row[b] = int(pid[c[a]])
            out.append((k, int(i), row))
        return out
    F, Z = rows(faces, fid), rows(zones, zid)
    # what is read: faces first, then zones, by runs
    cells = []
    for t, c in faces + zones:
        if not cells or cells[-1][0] != t or len(cells[-1][1]) == 0:
            cells.append((t, []))
        cells[-1][1].append(c)
    if faces and zones:
        pass
    groups = {"zone": [], "face": []}
    for kind, items, eid, off in (("zone", zones, zid, len(faces)), ("face", faces, fid, 0)):
        for k in range(r.pick([0, 1, 2])):
            if not items:
                continue
            pick = np.sort(r.rng.choice(len(items), r.int(1, len(items) + 1), replace=False))
            if r.p(0.3, "group members in arbitrary order"):
                pick = r.rng.permutation(pick)
            name, slot = r.pick(["rock", "Region 2", "a-b"]) + str(k), r.pick(["1", "Default", "5"])
            groups[kind].append((name, slot, [int(eid[i]) for i in pick]))
            starts = np.cumsum([0] + [len(c) for _, c in cells])
            ref.cell_sets[f"{kind}:{name}:{slot}"] = [
                np.array([i + off - s for i in pick if s <= i + off < e], int) for s, e in zip(starts, starts[1:])]
    ref.cells = [(t, np.array(c)) for t, c in cells]
    if cap.kw["binary"]:
        o = struct.pack("<2I", 1375135718, 3) + struct.pack("<I", n)
        for i, p in zip(pid, ref.points):
            o += struct.pack("<I3d", int(i), *p)
        for items, kind in ((Z, "zone"), (F, "face")):
            o += struct.pack("<I", len(items))
            for _, i, row in items:
                o += struct.pack(f"<2I{len(row)}I", i, len(row), *row)
            o += struct.pack("<I", len(groups[kind]))
            for name, slot, mem in groups[kind]:
                for s in (name, slot):
                    o += struct.pack("<H", len(s)) + s.encode()
                o += struct.pack(f"<I{len(mem)}I", len(mem), *mem)
        open(path, "wb").write(o)
        return
    star = r.pick(["* ", "*"], "comments")
    out = [star + "FLAC3D grid produced by FLAC3D", star + "GRIDPOINTS"]
    for i, p in zip(pid, ref.points):
        out.append(r.sp().join(["G", str(i), *map(r.fl, p)]))
    q = r.pick(['"', "'"], "quotes")

    def sec(letter, items, kind):
        if r.p(0.5):
            out.append(star + kind.upper() + "S")
        for k, i, row in items:
            out.append(r.sp().join([letter, k, str(i), *map(str, row)]))

    def grp(letter, kind):
        for name, slot, mem in groups[kind]:
            if r.p(0.3):
                out.append(star + "GROUPS")
            out.append(f"{letter}GROUP {q}{name}{q} SLOT {slot}")
            w = r.pick([1, 10, 15])
            for j in range(0, len(mem), w):
                out.append(r.pick(["", " "]) + r.sp().join(map(str, mem[j:j + w])))
    if r.p(0.4, "groups behind their elements"):
        sec("Z", Z, "zone")
        grp("Z", "zone")
        out.append(star + "FACES")
        sec("F", F, "face")
        grp("F", "face")
    else:
        a = [("Z", Z, "zone"), ("F", F, "face")]
        if r.p(0.3, "faces first"):
            a.reverse()
        for x in a:
            sec(*x)
        for x in a:
            grp(x[0], x[2])
    open(path, "w").write("\n".join(out) + "\n")


# ---------------------------------------------------------------- UGRID
def ugrid(r, path, ref, cap):
    path = path[:-len(cap.ext)]
    suf = r.pick(["", "b8l", "b8", "b4", "lb8l", "lb8", "lb4", "r8", "r4", "lr8", "lr4"], "encoding")
    path += ("." + suf if suf else "") + ".ugrid"
    order = ["triangle", "quad", "tetra", "pyramid", "wedge", "hexahedron"]
    sort_cells(ref, lambda c: order.index(c[0]))
    cells = {t: np.asarray(c) for t, c in ref.cells}
    cnt = [len(ref.points)] + [len(cells.get(t, ())) for t in order]
    tags = {t: r.rng.integers(0, 90, len(cells[t])) for t in order[:2] if t in cells}
    ref.cell_data["ugrid:ref"] = [tags.get(t, np.zeros(len(c), int)) for t, c in ref.cells]

    def conn(t):
        c = cells[t]
        return (c[:, [1, 0, 4, 2, 3]] if t == "pyramid" else c) + 1
    if suf.endswith("4") or suf == "":
        pass
    parts = [("f", ref.points)] + [("i", conn(t)) for t in order[:2] if t in cells]
    parts += [("i", tags[t][:, None]) for t in order[:2] if t in cells] + [("i", conn(t)) for t in order[2:] if t in cells]
    if not suf:
        w = r.pick([0, 1, 7], "line lengths")
        out = [r.sp().join(map(str, cnt))]
        for k, a in parts:
            s = [r.fl(x) if k == "f" else str(x) for x in a.ravel().tolist()]
            step = w or a.shape[1]
            out += [r.pick(["", " "]) + r.sp().join(s[i:i + step]) for i in range(0, len(s), step)]
        open(path, "w").write("\n".join(out) + "\n")
        return path
    o = "<" if suf[0] == "l" else ">"
    s = suf.lstrip("l") if suf[0] == "l" else suf
    ft, it = o + "f" + s[1], o + ("i8" if s.endswith("l") else "i4")
    if ft[2] == "4":
        ref.points = ref.points.astype("f4").astype("f8")
    h = np.array(cnt, it).tobytes()
    b = b"".join(a.astype(ft if k == "f" else it).tobytes() for k, a in parts)
    if s[0] == "r":
        mk = lambda x: struct.pack(o + "I", len(x))
        h, b = mk(h) + h + mk(h), mk(b) + b + mk(b)
    open(path, "wb").write(h + b)
    return path


# ---------------------------------------------------------------- ANSYS / Fluent
def ansys(r, path, ref, cap):
    """Nodes and faces (Fluent's cells are made of faces); cell sections only declare."""
    binary = r.p(0.4, "binary sections")
    n, dim = ref.points.shape
    hx = (lambda i: f"{i:X}") if r.p(0.3, "upper-case hexadecimal") else (lambda i: f"{i:x}")
    out = b""

    def w(s):
        nonlocal out
        out += s.encode()

    def noise():
        if r.p(0.25, "comments"):
            w(r.pick(['(0 "a comment (with brackets)")\n', '(0 "Zone Sections")\n', '\n', '(0 "two\nlines")\n']))
    w(r.pick(['(1 "TGrid 2.1.1")\n', '(0 "GAMBIT to Fluent File")\n', ""]))
    noise()
    w(f"(2 {dim})\n")
    first = r.pick([1, 1, 1, 5], "first node index")
    w(f"(10 (0 {hx(first)} {hx(first + n - 1)} 0{r.pick(['', f' {dim}'])}))\n")
    noise()
    ncell = 3
    w(f"(12 (0 1 {hx(ncell)} 0))\n")
    if r.p(0.5, "cell zone without body"):
        w(f"(12 (2 1 {hx(ncell)} 1 {r.pick([1, 2, 4])}))\n")
    cuts = [0, n]
    if n > 1 and r.p(0.4, "several node zones"):
        cuts = [0, r.int(1, n), n]
    nl = r.pick(["\n", ""], "bracket on its own line")
    dbl = r.p(0.5)
    for z, (a, b) in enumerate(zip(cuts, cuts[1:]), 1):
        key = ("3010" if dbl else "2010") if binary else "10"
        w(f"({key} ({hx(z)} {hx(first + a)} {hx(first + b - 1)} 1 {dim}){nl}(" + ("" if binary and nl else "\n"))
        if binary:
            out += ref.points[a:b].astype("<f8" if dbl else "<f4").tobytes()
            w(f"\n)\nEnd of Binary Section   {key})\n")
        else:
            for p in ref.points[a:b]:
                w(r.pick(["", " "]) + r.sp().join(map(r.fl, p)) + r.pick(["\n", " \n"]))
            w("))\n")
        noise()
    if binary and not dbl:
        ref.points = ref.points.astype("f4").astype("f8")
    tot = sum(len(c) for _, c in ref.cells)
    w(f"(13 (0 1 {hx(tot)} 0))\n")
    at = 1
    code = {"line": 2, "triangle": 3, "quad": 4}
    for z, (t, c) in enumerate(ref.cells, 4):
        key = r.pick(["2013", "3013"]) if binary else "13"
        mixed = not binary and r.p(0.3, "mixed face zone")
        w(f"({key} ({hx(z)} {hx(at)} {hx(at + len(c) - 1)} {r.pick(['2', '3', 'a', '24'])} "
          f"{0 if mixed else code[t]}){nl}(" + ("" if binary and nl else "\n"))
        at += len(c)
        adj = [[r.int(0, 4), r.int(0, 4)] for _ in c]
        if binary:
            out += np.column_stack([np.asarray(c) + first, adj]).astype("<i4" if key[0] == "2" else "<i8").tobytes()
            w(f"\n)\nEnd of Binary Section   {key})\n")
        else:
            for row, x in zip(c, adj):
                v = ([code[t]] if mixed else []) + [int(i) + first for i in row] + x
                w(r.sp().join(map(hx, v)) + r.pick(["\n", " \n"]))
            w(r.pick(["))\n", ")\n)\n"]))
        noise()
    if r.p(0.5, "zone sections"):
        w("(45 (2 fluid fluid)())\n(45 (4 wall wall-1)())\n")
    if r.p(0.3, "unknown sections"):
        w('(39 (5 interior default-interior)())\n(37 ((x 1)\n(y 2)))\n')
    open(path, "wb").write(out)


# ---------------------------------------------------------------- Neuroglancer
def neuroglancer(r, path, ref, cap):
    c = np.concatenate([x for _, x in ref.cells])
    ref.points = ref.points.astype("f4")
    open(path, "wb").write(struct.pack("<I", len(ref.points)) + ref.points.astype("<f4").tobytes() + c.astype("<u4").tobytes())
