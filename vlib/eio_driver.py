"""Run under strace: read every listed file in a forked child, report the outcome."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import ops  # noqa: E402
from vlib.caps import CAPS  # noqa: E402
from vlib.env import exc_str, observe  # noqa: E402
from vlib.snap import snap  # noqa: E402


def main(jobs, out):
    import h5py  # noqa: F401  (loaded before any fault)
    import netCDF4  # noqa: F401
    res = []
    for v, path in json.load(open(jobs)):
        def child():
            r = observe(CAPS[v].read, path)
            if r.exc is not None:
                return ["exc", exc_str(r.exc)]
            return ["mesh", ops.h(snap(r.value))]
        res.append(ops.fork_call(child))
    with open(out, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main(*sys.argv[1:])
