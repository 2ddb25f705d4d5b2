"""C17: results depend only on the arguments, not on history or schedule."""
import json
import os
import shutil
import signal
import subprocess
import sys
import threading

import numpy as np

from vlib import mutate, ops
from vlib.caps import CAPS
from vlib.env import REPO, VERIF, meshio, observe, scratch
from vlib.rt import rng_of
from vlib.runner import Hang
from vlib.snap import diff, snap

ID = "C17"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: offline comparison of recorded operation histories (sequences, threads under a "
             "microsecond switch interval, hash seeds, prior file content) with solitary executions")
RULE = ("each operation (read/write of a random mesh in one of 77 variants, valid, unsupported or damaged) is "
        "executed alone in a fresh process image and again inside random sequences, inside concurrent threads, "
        "under other hash seeds, with np.empty handing out poisoned memory, over existing files and after the caller scribbled over earlier results; "
        "digests of files (time stamps blanked), meshes and exceptions must agree; arrays of separate reads must "
        "not share memory; non-trivial: two digests compared; distinct by operation and context")
ASSUMPTIONS = [
    "the netCDF library is not thread safe: Exodus operations run in one thread at a time",
    "the system clock may change embedded time stamps only",
    "DOLFIN companion files of data no longer written: recorded as a known finding",
]
REQUIRE = {"quick": {"sequence_ops": 2500, "thread_ops": 8000, "hashseed_ops": 1500, "overwrites": 700,
                     "repeats": 700, "poisoned_runs": 10000, "poisoned_allocations": 2000, "shared_checks": 1200, "variants": 77, "failed_ops": 250}}
CPU = 300


def cases(tier, seed):
    out = []
    q = tier == "quick"
    vs = sorted(CAPS)
    for i in range(40 if q else 1200):
        out.append({"k": "seq", "s": seed * 1000 + i, "n": 50})
    for i in range(36 if q else 1000):
        out.append({"k": "threads", "s": seed * 1000 + i, "n": 12, "t": [2, 4, 8][i % 3]})
    for i in range(4 if q else 40):
        out.append({"k": "hash", "s": seed * 1000 + i, "hs": [1, 2, 4242, 77][i % 4]})
    for v in vs:
        for i in range(10 if q else 200):
            out.append({"k": "over", "v": v, "s": seed * 1000 + i})
            out.append({"k": "twice", "v": v, "s": seed * 1000 + i})
            out.append({"k": "share", "v": v, "s": seed * 1000 + i})
        for i in range(12 if q else 250):
            out.append({"k": "uninit", "v": v, "s": seed * 1000 + i})
        # the same variant many times with different meshes and threads
        out.append({"k": "threads", "v": v, "s": seed * 1000 + 7, "n": 8, "t": 4})
        out.append({"k": "seq", "v": v, "s": seed * 1000 + 8, "n": 16})
    return out


def run(case, ctx):
    globals()["run_" + case["k"]](case, ctx)


# ------------------------------------------------------------------ operations
def plan(case, rng):
    """Operations with prepared inputs for reads."""
    vs = [case["v"]] if "v" in case else sorted(CAPS)
    l = []
    for i in range(case["n"]):
        v = vs[int(rng.integers(0, len(vs)))]
        k = int(rng.integers(0, 10))
        op = {"v": v, "s": int(rng.integers(0, 1 << 30)), "i": i,
              "op": "write" if k < 4 else "read", "wild": k == 3, "bad": k == 9, "missing": k == 8 and i % 2}
        l.append(op)
    return l


def prepare(op, d):
    """Input file for a read, made in its own process image."""
    sub = os.path.join(d, f"in{op['i']}")
    os.mkdir(sub)
    if op["op"] == "write":
        return
    def make():
        cap, ref = ops.ref_for({"v": op["v"], "s": op["s"]})
        p = cap.path(sub)
        o = observe(cap.write, p, ref.mesh())
        if o.exc is None and op["bad"]:
            rng = rng_of("bad", op["s"])
            hdf = CAPS[op["v"]].group in ("cgns", "h5m", "hmf", "med", "exodus")
            b, _ = mutate.mutate(rng, open(p, "rb").read(), "trunc" if hdf or rng.random() < 0.5 else "line-del")
            open(p, "wb").write(b)
        return o.exc is None
    return ops.fork_call(make)


def execute(op, d, tag):
    sub = os.path.join(d, f"in{op['i']}")
    if op["op"] == "read":
        p = CAPS[op["v"]].path(sub)
        if op["missing"]:
            p = CAPS[op["v"]].path(sub, "absent")
        return ops.do_read(op, p, d)[0]
    out = os.path.join(d, f"out{op['i']}{tag}", "x")
    os.makedirs(out)
    if op["missing"]:
        out = os.path.join(out, "absent")
    r = ops.do_write(op, out, "m")
    if r[0] == "exc":
        r = r[:2] + (r[2].replace(f"out{op['i']}{tag}", "<out>"),)
    return r


def name(op):
    return f"{op['op']} {op['v']}" + (" wild" if op["wild"] else "") + (" damaged" if op["bad"] else "")


def solo(ctx, l, d):
    want = []
    for op in l:
        prepare(op, d)
        r = ops.fork_call(lambda: execute(op, d, "s"))
        want.append(r)
        if r[0] == "ok" and r[1][0] == "exc":
            ctx.event("failed_ops")
    return want


def compare(ctx, mech, l, want, got, how):
    for op, a, b in zip(l, want, got):
        if a[0] != "ok":
            continue  # C10's business
        ctx.mark("variants", op["v"])
        if b != a[1]:
            ctx.viol(mech, f"{name(op)} ({how}): alone {str(a[1])[:160]}, here {str(b)[:160]}", where=op["v"])


def ambient(rng):
    """Process-wide state a caller may have changed."""
    np.set_printoptions(precision=2, threshold=5, suppress=True, linewidth=20)
    np.random.seed(int(rng.integers(0, 1000)))
    import decimal
    decimal.getcontext().prec = 3
    os.chdir("/")


def run_seq(case, ctx):
    rng = rng_of("seq", case["s"], case.get("v", ""))
    l = plan(case, rng)
    with scratch() as d:
        want = solo(ctx, l, d)
        order = rng.permutation(len(l)).tolist()
        amb = case["s"] % 2 == 1

        def all_():
            if amb:
                ambient(rng)
            got = [None] * len(l)
            keep = []
            for i in order:
                got[i] = execute(l[i], d, "q")
            return got
        r = ops.fork_call(all_, 200)
        if r[0] != "ok":
            ctx.viol("sequence-died", r[1])
            return
        ctx.event("sequence_ops", len(l))
        ctx.event("sequences")
        ctx.obs("seq", case["s"], case.get("v"))
        compare(ctx, "history", l, want, r[1], f"in a sequence of {len(l)}{', ambient state changed' if amb else ''}")


def run_threads(case, ctx):
    rng = rng_of("thr", case["s"], case.get("v", ""))
    l = plan(case, rng)
    T = case["t"]
    reps = 3
    with scratch() as d:
        want = solo(ctx, l, d)

        def all_():
            sys.setswitchinterval(1e-6)
            got = [[None] * len(l) for _ in range(T * reps)]
            bar = threading.Barrier(T)
            nclock = threading.Lock()
            orders = [rng.permutation(len(l)).tolist() for _ in range(T)]
            if case["s"] % 2:
                orders = [orders[0]] * T  # all threads do the same thing at the same time
            errs = []

            def work(t):
                for rep in range(reps):
                    bar.wait()
                    for i in orders[t]:
                        try:
                            if CAPS[l[i]["v"]].group == "exodus":
                                with nclock:
                                    got[t * reps + rep][i] = execute(l[i], d, f"t{t}r{rep}")
                            else:
                                got[t * reps + rep][i] = execute(l[i], d, f"t{t}r{rep}")
                        except BaseException as e:
                            errs.append(repr(e))
            th = [threading.Thread(target=work, args=(t,)) for t in range(T)]
            for x in th:
                x.start()
            for x in th:
                x.join()
            return got, errs
        r = ops.fork_call(all_, 250)
        if r[0] != "ok":
            ctx.viol("threads-died", r[1])
            return
        got, errs = r[1]
        for e in errs[:2]:
            ctx.viol("thread-error", e)
        ctx.event("thread_ops", len(l) * len(got))
        ctx.mark("thread_schedules", (case["s"], case.get("v"), T))
        ctx.obs("threads", case["s"], case.get("v"), T)
        for g in got:
            compare(ctx, "schedule", l, want, g, f"{T} threads")


# ------------------------------------------------------------------ hash seeds
CHILD = """
import sys, json
sys.path.insert(0, {verif!r})
from vlib import env
from props import c17
print("RESULT" + json.dumps(c17.hash_batch({s})))
"""


def hash_batch(s):
    rng = rng_of("hash", s)
    out = []
    with scratch() as d:
        for i, v in enumerate(sorted(CAPS)):
            for j in range(6):
                op = {"v": v, "s": int(rng.integers(0, 1 << 30)), "i": f"{i}_{j}", "op": "write", "wild": j >= 3,
                      "bad": False, "missing": False}
                w = []

                def both():
                    w = execute(op, d, "s")
                    r = None
                    if w[0] == "files":
                        r = ops.do_read(op, CAPS[v].path(os.path.join(d, f"out{op['i']}s", "x")), d)[0]
                    return [w, r]
                x = ops.fork_call(both)
                out.append([name(op) + f" s={op['s']}", json.loads(json.dumps(x))])
    return out


def run_hash(case, ctx):
    res = []
    for hs in ("0", str(case["hs"])):
        e = dict(os.environ, PYTHONHASHSEED=hs)
        p = subprocess.run([sys.executable, "-B", "-c", CHILD.format(verif=VERIF, s=case["s"])], env=e,
                           capture_output=True, text=True)
        line = [x for x in p.stdout.splitlines() if x.startswith("RESULT")]
        if not line:
            ctx.viol("hashseed-died", p.stderr[-400:])
            return
        res.append(json.loads(line[0][6:]))
    for (n, a), (_, b) in zip(*res):
        ctx.event("hashseed_ops", 2 if a[1] and a[1][1] else 1)
        if a != b:
            ctx.viol("hash-seed", f"{n}: PYTHONHASHSEED 0 gives {str(a)[:200]}, {case['hs']} gives {str(b)[:200]}",
                     where=n.split()[1])
    ctx.obs("hash", case["s"], case["hs"])


# ------------------------------------------------------------------ repeated and overwriting writes
def run_twice(case, ctx):
    """Two writes of one mesh object, with something else in between."""
    cap, ref = ops.ref_for(case)
    rng = rng_of("tw", case["s"])
    with scratch() as d:
        a, b = os.path.join(d, "a"), os.path.join(d, "b")
        os.mkdir(a)
        os.mkdir(b)
        m = ref.mesh()
        w = observe(cap.write, cap.path(a), m)
        if case["s"] % 2:
            o = {"v": sorted(CAPS)[int(rng.integers(0, len(CAPS)))], "s": case["s"], "wild": True}
            x = os.path.join(d, "c")
            os.mkdir(x)
            observe(ops.do_write, o, x)
        w2 = observe(cap.write, cap.path(b), m)
        ctx.event("repeats")
        ctx.obs("twice", cap.name, case["s"])
        if (w.exc is None) != (w2.exc is None):
            ctx.viol("repeat", f"{cap.name}: first write {w.exc!r}, second {w2.exc!r}", where=cap.name)
            return
        ta, tb = ops.tree_digest(a), ops.tree_digest(b)
        if ta != tb:
            ctx.viol("repeat", f"{cap.name}: two writes of one mesh differ in "
                     f"{sorted(k for k in set(ta) | set(tb) if ta.get(k) != tb.get(k))}", where=cap.name)


def run_over(case, ctx):
    """Write over whatever is there."""
    cap, ref = ops.ref_for(case)
    rng = rng_of("ov", case["s"])
    with scratch() as d:
        a, b = os.path.join(d, "a"), os.path.join(d, "b")
        os.mkdir(a)
        os.mkdir(b)
        w = observe(cap.write, cap.path(a), ref.mesh())
        if w.exc is not None:
            return
        names_ = sorted(os.listdir(a))
        kind = ["same", "garbage", "longer", "othermesh", "symlink", "otherformat", "empty"][
            int(rng.integers(0, 7)) if case["s"] % 3 else 3]
        if kind == "symlink" and cap.group in ("xdmf", "dolfin", "tetgen"):
            kind = "longer"  # where the companion files of a link belong is not claimed
        if kind == "same":
            for n in names_:
                shutil.copy(os.path.join(a, n), os.path.join(b, n))
        elif kind in ("garbage", "longer", "empty"):
            for n in names_:
                sz = os.path.getsize(os.path.join(a, n))
                with open(os.path.join(b, n), "wb") as f:
                    f.write(rng.bytes({"garbage": 500, "longer": sz * 2 + 5000, "empty": 0}[kind]))
        elif kind == "othermesh":
            o = dict(case, s=case["s"] + 12345)
            c2, r2 = ops.ref_for(o)
            if cap.group == "dolfin":
                r2.cell_data = {k: v for k, v in r2.cell_data.items() if k in ref.cell_data}
            observe(cap.write, cap.path(b), r2.mesh())
        elif kind == "otherformat":
            o = CAPS[sorted(CAPS)[int(rng.integers(0, len(CAPS)))]]
            c2, r2 = ops.ref_for({"v": o.name, "s": case["s"]})
            with scratch() as t:
                if observe(o.write, o.path(t), r2.mesh()).exc is None:
                    shutil.copy(o.path(t), cap.path(b))
        else:
            real = os.path.join(d, "real.bin")
            with open(real, "wb") as f:
                f.write(b"x" * 40)
            os.symlink(real, cap.path(b))
        w2 = observe(cap.write, cap.path(b), ref.mesh())
        ctx.event("overwrites")
        ctx.mark("overwrite_kinds", (cap.group, kind))
        ctx.obs("over", cap.name, case["s"])
        if w2.exc is not None:
            ctx.viol("overwrite", f"{cap.name} over {kind}: {w2.exc!r}", where=cap.name)
            return
        for n in names_:
            if ops.file_digest(os.path.join(a, n)) != ops.file_digest(os.path.join(b, n)):
                ctx.viol("overwrite", f"{cap.name} over {kind}: {n} differs from a fresh write", where=cap.name)
        r1, r2 = observe(cap.read, cap.path(a)), observe(cap.read, cap.path(b))
        if (r1.exc is None) != (r2.exc is None):
            ctx.viol("overwrite-read", f"{cap.name} over {kind}: {r1.exc!r} / {r2.exc!r}", where=cap.name)
        elif r1.exc is None:
            dd = diff(snap(r1.value), snap(r2.value))
            if dd:
                ctx.viol("overwrite-read", f"{cap.name} over {kind}: {dd[0]}", where=cap.name)


# ------------------------------------------------------------------ shared state
def arrays(o, path="mesh", depth=0):
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            for i, x in enumerate(o.ravel()):
                yield from arrays(x, f"{path}[{i}]", depth + 1)
        else:
            yield path, o
    elif isinstance(o, dict):
        for k, v in o.items():
            yield from arrays(v, f"{path}[{k!r}]", depth + 1)
    elif isinstance(o, (list, tuple)):
        for i, v in enumerate(o):
            yield from arrays(v, f"{path}[{i}]", depth + 1)
    elif hasattr(o, "__dict__") and depth < 6:
        for k, v in vars(o).items():
            yield from arrays(v, f"{path}.{k}", depth + 1)


def containers(o, depth=0, path="mesh"):
    if isinstance(o, (dict, list)):
        yield path, o
    if isinstance(o, dict):
        for k, v in o.items():
            yield from containers(v, depth + 1, f"{path}[{k!r}]")
    elif isinstance(o, (list, tuple)):
        for i, v in enumerate(o):
            yield from containers(v, depth + 1, f"{path}[{i}]")
    elif hasattr(o, "__dict__") and depth < 6 and not isinstance(o, np.ndarray):
        for k, v in vars(o).items():
            yield from containers(v, depth + 1, f"{path}.{k}")


def scribble(m):
    """What a caller may do to a mesh of their own."""
    for _, a in list(arrays(m)):
        try:
            a[...] = 0 if a.dtype.kind in "iuf" else a.flat[0]
        except Exception:
            pass
    for _, c in list(containers(m)):
        try:
            c.clear()
        except Exception:
            pass


def overlap(x, y):
    try:
        return np.shares_memory(x, y, max_work=10000)
    except Exception:  # too hard to tell
        return False


def run_share(case, ctx):
    cap, ref = ops.ref_for(case)
    with scratch() as d:
        p = cap.path(d)
        if observe(cap.write, p, ref.mesh()).exc is not None:
            return
        a, b = observe(cap.read, p), observe(cap.read, p)
        if a.exc is not None or b.exc is not None:
            return
        ctx.event("shared_checks")
        ctx.obs("share", cap.name, case["s"])
        sa = snap(a.value)
        bs = [(n, x, np.lib.array_utils.byte_bounds(x) if hasattr(np.lib, "array_utils") else np.byte_bounds(x))
              for n, x in arrays(b.value) if x.size]
        for n, x in arrays(a.value):
            if not x.size:
                continue
            lo, hi = np.byte_bounds(x) if hasattr(np, "byte_bounds") else np.lib.array_utils.byte_bounds(x)
            for n2, y, (l2, h2) in bs:
                if lo < h2 and l2 < hi:
                    ctx.viol("shared-memory", f"{cap.name}: {n} and {n2} of two reads share memory", where=cap.name)
        ib = {id(c): n for n, c in containers(b.value)}
        for n, c in containers(a.value):
            if id(c) in ib:
                ctx.viol("shared-container", f"{cap.name}: {n} and {ib[id(c)]} of two reads are one object",
                         where=cap.name)
        ctx.event("arrays_compared", len(bs))
        # nor do the arrays of one mesh
        for i, (n, x, (lo, hi)) in enumerate(bs):
            for n2, y, (l2, h2) in bs[:i]:
                if lo < h2 and l2 < hi and overlap(x, y):
                    ctx.viol("shared-memory", f"{cap.name}: {n} and {n2} of one mesh share memory", where=cap.name)
        scribble(b.value)
        ctx.event("shared_checks")
        if snap(a.value) != sa:
            ctx.viol("shared-scribble", f"{cap.name}: changing one mesh changed another: "
                     f"{diff(sa, snap(a.value))[0]}", where=cap.name)
        scribble(a.value)
        c = observe(cap.read, p)
        if c.exc is not None:
            ctx.viol("shared-reread", f"{cap.name}: after changing earlier results: {c.exc!r}", where=cap.name)
        elif snap(c.value) != sa:
            ctx.viol("shared-reread", f"{cap.name}: after changing earlier results: {diff(sa, snap(c.value))[0]}",
                     where=cap.name)


# ------------------------------------------------------------------ uninitialised memory
class Poison:
    """np.empty and friends hand out memory filled with a given byte: what a caller sees must
    not depend on it."""

    def __init__(self, byte):
        self.byte = byte
        self.n = 0

    def __enter__(self):
        self.orig = np.empty, np.empty_like
        o_empty, o_like = self.orig

        def fill(a):
            self.n += 1
            if isinstance(a, np.ndarray) and a.dtype.kind in "iufcb" and a.size < 1 << 22:
                a.view(np.ndarray).reshape(-1).view(np.uint8)[:] = self.byte
            return a

        def empty(*a, **k):
            return fill(o_empty(*a, **k))

        def empty_like(*a, **k):
            x = o_like(*a, **k)
            return fill(x) if x.flags.c_contiguous else x
        np.empty, np.empty_like = empty, empty_like
        return self

    def __exit__(self, *a):
        np.empty, np.empty_like = self.orig


def run_uninit(case, ctx):
    ops.limit()
    rng = rng_of("uninit", case["v"], case["s"])
    cap = CAPS[case["v"]]
    hdf = cap.group in ("cgns", "h5m", "hmf", "med", "exodus")
    with scratch() as d:
        res = []
        for byte in (0, 0xA5):
            x = os.path.join(d, f"w{byte}")
            os.mkdir(x)
            with Poison(byte) as p:
                o = observe(ops.do_write, case, x)
            r = o.value
            res.append(r[:2] if r and r[0] == "exc" else r)
        ctx.event("poisoned_runs", 2)
        if res[0] != res[1]:
            ctx.viol("uninitialised-write", f"{cap.name}: the file depends on uninitialised memory", where=cap.name)
            return
        if res[0][0] == "exc":
            return
        x = os.path.join(d, "w0")
        path = cap.path(x)
        files = sorted(os.listdir(x))
        for k in range(1 if hdf else 12):
            tgt = os.path.join(x, files[int(rng.integers(0, len(files)))])
            good = open(tgt, "rb").read()
            if k and good[:4] not in (b"\x89HDF",):
                kind = ["line-del", "line-dup", "token", "tokens", "trunc", "line-swap", "field", "flip"][
                    int(rng.integers(0, 8))]
                b, what = mutate.mutate(rng, good, kind)
                with open(tgt, "wb") as f:
                    f.write(b)
            else:
                what = "intact"
            got = []
            for byte in (0, 0xA5):
                signal.setitimer(signal.ITIMER_PROF, 5)
                try:
                    with Poison(byte) as p:
                        o = observe(ops.do_read, case, path, x)
                    got.append(o.value[0][:2] if o.value else ("exc", repr(o.exc)))
                    ctx.event("poisoned_allocations", p.n)
                except Hang:  # C10's business
                    got.append(("exc", "MemoryError"))
                finally:
                    signal.setitimer(signal.ITIMER_PROF, CPU)
            if ("exc", "MemoryError") in [tuple(g) for g in got]:
                got = [0, 0]
            ctx.event("poisoned_runs", 2)
            ctx.obs("uninit", cap.name, case["s"], k)
            if got[0] != got[1]:
                ctx.viol("uninitialised-read", f"{cap.name} ({what}): the mesh depends on uninitialised memory: "
                         f"{got}", where=cap.name)
            with open(tgt, "wb") as f:
                f.write(good)


# ------------------------------------------------------------------ known findings
def known_dolfin(ctx):
    m = meshio.Mesh(np.random.default_rng(0).random((3, 2)), [("triangle", np.array([[0, 1, 2]]))],
                    cell_data={"a": [np.array([1.0])]})
    n = meshio.Mesh(m.points, m.cells)
    with scratch() as d:
        p = os.path.join(d, "m.xml")
        observe(meshio.write, p, m, file_format="dolfin-xml")
        observe(meshio.write, p, n, file_format="dolfin-xml")
        return bool(meshio.read(p, file_format="dolfin-xml").cell_data)


KNOWN = {"dolfin-stale-companion": known_dolfin}
