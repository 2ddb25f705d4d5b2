"""Debug a C07 replay: print the traceback of the reader and keep the file in /tmp/dbg07."""
import copy, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from props import c07
from vlib import gen
from vlib.caps import CAPS
from vlib.enc import FORMATS, R
from vlib.env import meshio
from vlib.rt import rng_of
import meshio._helpers as h
case = json.load(open(sys.argv[1]))
case = case.get("case", case)
spec = FORMATS[case["f"]]
cap = copy.copy(CAPS[spec["cap"]])
for k, v in spec.get("over", {}).items():
    setattr(cap, k, v)
rng = rng_of("c07", case["f"], case["s"])
ref = spec["gen"](rng, cap, case) if spec.get("gen") else gen.gen(rng, cap, size=case["size"], data=bool(cap.pd_kinds or cap.cd_kinds))
r = R(rng)
os.makedirs("/tmp/dbg07", exist_ok=True)
p = cap.path("/tmp/dbg07")
p = spec["enc"](r, p, ref, cap) or p
print(p, sorted(set(r.used)))
try:
    m = h.reader_map[cap.rfmt](p)
    print(m)
except BaseException:
    traceback.print_exc()
