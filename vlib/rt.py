"""Round trips under observation."""
import os

import numpy as np

from . import gen, oracle
from .caps import CAPS
from .env import exc_str, observe

LAYOUTS = {
    "C": None,
    "F": lambda a: np.asfortranarray(a),
    "strided": lambda a: gen.layout(None, a, "strided"),
    "neg": lambda a: gen.layout(None, a, "neg"),
    "swap": lambda a: a.astype(a.dtype.newbyteorder("S")),
    "ro": lambda a: _ro(a),
}


def _ro(a):
    a = np.array(a)
    a.setflags(write=False)
    return a


def rng_of(*parts):
    """Deterministic generator from strings and integers."""
    ints = []
    for p in parts:
        if isinstance(p, str):
            import zlib
            ints.append(zlib.crc32(p.encode()))
        else:
            ints.append(int(p) & 0xFFFFFFFF)
    return np.random.default_rng(ints)


def ref_of(case, data):
    cap = CAPS[case["v"]]
    rng = rng_of(case["v"] if not case.get("shared") else cap.group, case["s"])
    kw = {k: case[k] for k in ("types", "dim", "pdt", "cdt", "blocks", "size") if k in case}
    return cap, rng, gen.gen(rng, cap, data=data, **kw)


def write_read(ctx, cap, ref, d, stem="m", layout=None, where=None, wmech="write-raised",
               **over):
    """Write and read back; None (and a violation) when either fails."""
    path = cap.path(d, stem)
    where = where or cap.name
    w = observe(cap.write, path, ref.mesh(layout), **over)
    ctx.event("writes")
    if w.exc is not None:
        ctx.viol(wmech, f"write raised {exc_str(w.exc)} for {ref.describe()}", where=where)
        return None
    r = observe(cap.read, path)
    ctx.event("reads")
    if r.exc is not None:
        ctx.viol("read-raised", f"reading the file just written raised {exc_str(r.exc)} {r.warned[-200:]} for "
                 f"{ref.describe()}", where=where)
        return None
    return r.value
