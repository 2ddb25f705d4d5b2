"""Operations (reads and writes) as data, executed in forked children, with digests of
everything a caller can see of the result."""
import hashlib
import os
import pickle
import re
import resource
import signal
import struct

import numpy as np

from . import gen, tags
from .caps import CAPS
from .env import destamp, meshio
from .rt import rng_of
from .runner import Abort
from .snap import snap


_limited = False


def limit():
    """Damaged counts may ask for any amount of memory."""
    global _limited
    if not _limited:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        _limited = True


def fork_call(fn, cpu=60):
    """fn() in a forked child; its picklable result here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            limit()
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, cpu)
            try:
                out = ("ok", fn())
            except BaseException as e:  # noqa: B902
                import traceback
                out = ("exc", traceback.format_exc()[-1500:])
            b = pickle.dumps(out)
            with os.fdopen(w, "wb") as f:
                f.write(struct.pack("<Q", len(b)) + b)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        b = f.read()
    _, st = os.waitpid(pid, 0)
    if len(b) < 8:
        return ("died", f"wait status {st}")
    return pickle.loads(b[8:])


def h(*parts):
    return hashlib.blake2b(repr(parts).encode(), digest_size=12).hexdigest()


def hdf_content(path):
    import h5py
    out = []

    def val(v):
        if isinstance(v, bytes):
            return destamp(v)
        if isinstance(v, str):
            return destamp(v.encode())
        a = np.asarray(v)
        if a.dtype.kind in "OSU":
            return [destamp(str(x).encode()) for x in a.ravel()]
        if a.dtype.kind == "V":
            return repr(a.tolist())
        return (a.dtype.str, a.shape, a.tobytes())

    with h5py.File(path, "r") as f:
        def visit(n, o):
            at = sorted((k, val(o.attrs[k])) for k in o.attrs if k not in (
                "REFERENCE_LIST", "DIMENSION_LIST", "_Netcdf4Coordinates", "_Netcdf4Dimid", "_NCProperties"))
            out.append((n, val(o[()]) if isinstance(o, h5py.Dataset) and not o.dtype.kind == "O"
                        and o.dtype.names is None else None, at))
        f.visititems(visit)
        out.append(("/", sorted((k, val(f.attrs[k])) for k in f.attrs if k != "_NCProperties")))
    return sorted(out, key=repr)


def file_digest(path):
    with open(path, "rb") as f:
        b = f.read()
    if b[:8] == b"\x89HDF\r\n\x1a\n":
        return h("hdf", hdf_content(path))
    return h("bytes", destamp(b))


def tree_digest(d):
    out = {}
    for root, _, files in os.walk(d):
        for n in sorted(files):
            p = os.path.join(root, n)
            out[os.path.relpath(p, d)] = file_digest(p)
    return out


_ADDR = re.compile(r"0x[0-9a-f]+")


def exc_digest(e, d):
    return ("exc", type(e).__name__, _ADDR.sub("0x", str(e).replace(d, "<dir>"))[:200])


def ref_for(op):
    """The mesh an operation writes (deterministic)."""
    cap = CAPS[op["v"]]
    rng = rng_of("ops", op["v"], op["s"])
    if op.get("wild"):
        return cap, gen.wild(rng, size="small")
    ref = gen.gen(rng, cap, size=["tiny", "small"][op["s"] % 2], data=True)
    if cap.group in tags.ADD and op["s"] % 3 and cap.group != "gmsh41":
        tags.ADD[cap.group](rng, cap, ref)
        ref.extra.pop("skip", None)
    return cap, ref


def do_write(op, d, stem="m"):
    """Write into d; digest of all files there."""
    cap, ref = ref_for(op)
    try:
        cap.write(cap.path(d, stem), ref.mesh())
    except (Exception, SystemExit) as e:
        return exc_digest(e, d)
    return ("files", sorted(tree_digest(d).items()))


def do_read(op, path, d):
    cap = CAPS[op["v"]]
    try:
        m = cap.read(path)
    except (Exception, SystemExit) as e:
        return exc_digest(e, d), None
    return ("mesh", h(snap(m))), m
