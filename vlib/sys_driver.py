"""Writes and reads the jobs of C19, marking the calls for the reader of the trace."""
import os
import pickle
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.caps import CAPS  # noqa: E402
from vlib.env import observe  # noqa: E402

import h5py  # noqa: E402,F401
import netCDF4  # noqa: E402,F401
import rich.console  # noqa: E402,F401

with open(sys.argv[1], "rb") as f:
    jobs, meshes = pickle.load(f)
for i, (v, path) in enumerate(jobs):
    cap = CAPS[v]
    for what, fn in (("write", lambda: cap.write(path, meshes[i])), ("read", lambda: cap.read(path))):
        os.access(f"/__mark__/{i}/{what}", os.F_OK)
        observe(fn)
        os.access(f"/__mark__/{i}/end", os.F_OK)
