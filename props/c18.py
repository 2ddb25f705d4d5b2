"""C18: I/O errors surface and release their files."""
import contextlib
import gc
import io
import os
import resource
import shutil
import signal

import numpy as np

from vlib import gen, ops
from vlib.caps import CAPS
from vlib.env import exc_str, meshio, scratch
from vlib.rt import rng_of
from vlib.snap import snap

ID = "C18"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring under fault injection: file size limits at swept byte offsets, full device, "
             "unwritable and missing targets, read errors; monitor of /proc/self/fd after every operation")
RULE = ("every format and encoding writes meshes while the storage fails at byte offsets swept over each output "
        "file (RLIMIT_FSIZE in a forked child), on a full device, into missing or read-only directories and over "
        "directories; the outcome must be an exception or the complete output. Reads of missing, unreadable, "
        "damaged files and missing companions. Descriptors into the scratch area are counted after every "
        "operation, while its exception is still held and with the garbage collector off. Non-trivial: a fault was "
        "injected or descriptors were counted; distinct by variant, fault and offset")
ASSUMPTIONS = [
    "a failing device is modelled by a file size limit (EFBIG), /dev/full (ENOSPC) and permissions of an "
    "unprivileged user; errors reported only by close(2) of a network file system are not modelled",
]
REQUIRE = {"quick": {"limited_writes": 3000, "limit_raised": 2500, "fd_checks": 5000, "failed_reads": 1500,
                     "refused_targets": 250, "full_device": 30, "variants": 77}}
CPU = 90
PROBE = {}


def cases(tier, seed):
    out = []
    n = 1 if tier == "quick" else 12
    for v, cap in CAPS.items():
        for i in range(n):
            out.append({"k": "limit", "v": v, "s": seed * 1000 + i, "n": 40 if tier == "quick" else 120,
                        "size": ["small", "tiny", "medium"][i % 3]})
            if i == 0 or not cap.heavy:
                out.append({"k": "limit", "v": v, "s": seed * 1000 + 500 + i, "n": 14, "size": "medium"})
        for i in range(n):
            out.append({"k": "targets", "v": v, "s": seed * 1000 + i})
        for i in range(6 * n if not cap.heavy else 3 * n):
            out.append({"k": "fds", "v": v, "s": seed * 1000 + i})
    for f in ("XML", "Binary", "HDF"):
        for i in range(6 * n):
            out.append({"k": "series", "f": f, "s": seed * 1000 + i})
    for i in range(n):
        for k in (1, 2, 3, 4, 6) if tier == "quick" else (1, 2, 3, 4, 5, 6, 8, 10, 13):
            out.append({"k": "eio", "n": k, "s": seed * 1000 + i, "size": "medium" if k % 2 or i % 2 else "small"})
    for i in range(6 * n):
        out.append({"k": "svg", "s": seed * 1000 + i})
    return out


def run(case, ctx):
    globals()["run_" + case["k"]](case, ctx)


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def files(d):
    return {n: os.path.getsize(os.path.join(d, n)) for n in sorted(os.listdir(d))}


def mesh_for(case, cap):
    rng = rng_of("c18", case["v"], case["s"])
    ref = gen.gen(rng, cap, size=case.get("size", "small"), data=True)
    return rng, ref


def reset(d):
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)


# ------------------------------------------------------------------ storage that fails at an offset
def limited(write, k):
    """In a forked child: write() with files limited to k bytes -> exception text or None."""
    def child():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, hard))
        try:
            with silent():
                write()
        except (Exception, SystemExit) as e:
            return exc_str(e)
        return None
    return ops.fork_call(child)


def sweep(ctx, name, write, d, npts, rng, hdf5=False):
    """Fail the write at npts offsets; success may only be reported with complete output."""
    reset(d)
    st = ops.fork_call(lambda: quiet(write))
    if st[0] != "ok" or st[1] is not None:
        return False
    want = ops.tree_digest(d)
    sizes = files(d)
    top = max(sizes.values(), default=0)
    if not top:
        return False
    offs = {0, 1, top - 1, top // 2} | {s - 1 for s in sizes.values() if s} | {
        k * 4096 + j for k in range(1, 4) for j in (-1, 0, 1)} | {8191, 8192, 8193}
    offs |= {int(x) for x in rng.integers(0, top, npts)}
    offs = sorted(o for o in offs if 0 <= o < top)
    if len(offs) > npts:
        keep = {0, top - 1, top // 2} | {int(x) for x in rng.permutation(offs)[:npts]}
        offs = sorted(keep)
    for k in offs:
        reset(d)
        st = limited(write, k)
        ctx.event("limited_writes")
        ctx.obs(name, "limit", k)
        if st[0] == "ok" and st[1] is not None:
            ctx.event("limit_raised")
            continue
        if st[0] == "died" and hdf5:
            # the HDF5 library itself crashes when it cannot close a file: no success is reported
            ctx.event("hdf5_crashes")
            continue
        if st[0] == "died":
            ctx.viol("died", f"{name}: writing with a limit of {k} of {sizes} bytes ended the process ({st[1]})",
                     where=name)
            continue
        if st[0] == "exc":
            ctx.viol("died", f"{name}: {st[1][-300:]}", where=name)
            continue
        try:
            got = ops.tree_digest(d)
        except Exception as e:  # the file cannot even be opened
            got = {"unreadable": exc_str(e)}
        if got != want:
            ctx.viol("success-reported", f"{name}: storage failed at byte {k} of {sizes}; the write reported success "
                     f"and left {files(d)}", where=name)
    return True


def quiet(write):
    with silent():
        write()


def run_limit(case, ctx):
    cap = CAPS[case["v"]]
    rng, ref = mesh_for(case, cap)
    mesh = ref.mesh()
    with scratch() as base:
        d = os.path.join(base, "o")
        if sweep(ctx, cap.name, lambda: cap.write(cap.path(d), mesh), d, case["n"] if not cap.heavy else
                 max(10, case["n"] // 2), rng, cap.heavy):
            ctx.mark("variants", cap.name)
    ctx.sample(variant=cap.name, mesh=ref.describe())


def run_svg(case, ctx):
    rng = rng_of("c18svg", case["s"])
    pts = rng.random((60, 2))
    mesh = meshio.Mesh(pts, [("triangle", gen.conn(rng, 3, 40, 60))])
    with scratch() as base:
        d = os.path.join(base, "o")
        sweep(ctx, "svg", lambda: meshio.write(os.path.join(d, "m.svg"), mesh), d, 12, rng)


def run_series(case, ctx):
    rng = rng_of("c18ts", case["f"], case["s"])
    n = int(rng.integers(20, 200))
    pts = rng.random((n, 3))
    tri = gen.conn(rng, 3, n // 2, n)
    steps = int(rng.integers(1, 5))
    u = rng.random((steps, n))

    def write(d):
        with meshio.xdmf.TimeSeriesWriter(os.path.join(d, "s.xdmf"), data_format=case["f"]) as w:
            w.write_points_cells(pts, [("triangle", tri)])
            for k in range(steps):
                w.write_data(float(k), point_data={"u": u[k]})

    with scratch() as base:
        d = os.path.join(base, "o")
        sweep(ctx, f"series-{case['f']}", lambda: write(d), d, 14, rng, case["f"] == "HDF")
        # descriptors: after success, and when the body fails at any point
        for how in ("ok", "body", "xml"):
            reset(d)
            held = None
            try:
                with silent():
                    if how == "ok":
                        write(d)
                    else:
                        with meshio.xdmf.TimeSeriesWriter(os.path.join(d, "s.xdmf"), data_format=case["f"]) as w:
                            w.write_points_cells(pts, [("triangle", tri)])
                            if how == "body":
                                raise KeyError("user")
                            w.write_data(0.0, point_data={"u": u[0]})
                            shutil.rmtree(d)
            except Exception as e:
                held = e
            open_files(ctx, base, f"series-{case['f']}", f"writing ({how}, {type(held).__name__})")
            del held
        reset(d)
        write(d)
        held = None
        try:
            with meshio.xdmf.TimeSeriesReader(os.path.join(d, "s.xdmf")) as r:
                r.read_points_cells()
                r.read_data(0)
                if case["s"] % 2:
                    raise KeyError("user")
        except KeyError as e:
            held = e
        open_files(ctx, base, f"series-{case['f']}", "reading")
        del held
        # a companion file vanished
        comp = [n for n in os.listdir(d) if n != "s.xdmf"]
        if comp:
            os.remove(os.path.join(d, comp[int(rng.integers(0, len(comp)))]))
            held = None
            try:
                with silent(), meshio.xdmf.TimeSeriesReader(os.path.join(d, "s.xdmf")) as r:
                    r.read_points_cells()
                    for k in range(steps):
                        r.read_data(k)
            except (Exception, SystemExit) as e:
                held = e
            ctx.event("failed_reads")
            if held is None:
                ctx.viol("companion-missing", f"series-{case['f']}: a data file was removed and reading did not "
                         "notice", where=f"series-{case['f']}")
            open_files(ctx, base, f"series-{case['f']}", "reading without a companion")


# ------------------------------------------------------------------ targets that cannot be written
def run_targets(case, ctx):
    cap = CAPS[case["v"]]
    rng, ref = mesh_for(case, cap)
    mesh = ref.mesh()
    with scratch() as base:
        d = os.path.join(base, "o")
        reset(d)
        if attempt(lambda: cap.write(cap.path(d), mesh)) is not None:
            return
        good = files(d)
        # the directory does not exist
        target(ctx, cap, base, "missing directory", lambda: cap.write(cap.path(os.path.join(base, "no", "dir")), mesh))
        # a file where the directory should be
        with open(os.path.join(base, "file"), "w") as f:
            f.write("x")
        target(ctx, cap, base, "file as directory", lambda: cap.write(cap.path(os.path.join(base, "file")), mesh))
        # a directory where one of the output files should be
        for n in good:
            reset(d)
            os.mkdir(os.path.join(d, n))
            target(ctx, cap, base, "directory as " + ("file" if n.startswith("m" + cap.ext) else "companion"),
                   lambda: cap.write(cap.path(d), mesh))
        # the device is full
        for n in list(good)[:3]:
            reset(d)
            os.symlink("/dev/full", os.path.join(d, n))
            st = ops.fork_call(lambda: attempt_str(lambda: cap.write(cap.path(d), mesh)))
            ctx.event("full_device")
            ctx.obs(cap.name, "full", n)
            if st == ("ok", None) and os.path.islink(os.path.join(d, n)):
                ctx.viol("success-reported", f"{cap.name}: {n} is on a full device and the write reported success",
                         where=cap.name)
        # no permission
        if os.geteuid() == 0:
            reset(d)
            os.chmod(base, 0o755)
            os.chmod(d, 0o555)

            def child():
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
                return attempt_str(lambda: cap.write(cap.path(d), mesh))
            st = ops.fork_call(child)
            ctx.event("refused_targets")
            if st == ("ok", None):
                ctx.viol("success-reported", f"{cap.name}: the directory is read-only for this user and the write "
                         "reported success", where=cap.name)
            # present but unreadable input
            reset(d)
            quiet(lambda: cap.write(cap.path(d), mesh))
            os.chmod(d, 0o755)
            for n in files(d):
                os.chmod(os.path.join(d, n), 0o600)

            def child2():
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
                return attempt_str(lambda: cap.read(cap.path(d)))
            st = ops.fork_call(child2)
            ctx.event("failed_reads")
            if st == ("ok", None):
                ctx.viol("unreadable-accepted", f"{cap.name}: the file may not be read by this user and the read "
                         "returned a mesh", where=cap.name)
        # input that is not there
        for what, path in (("missing file", cap.path(os.path.join(base, "o"), "absent")),
                           ("missing directory", cap.path(os.path.join(base, "nowhere"))),
                           ("directory", d)):
            held = attempt(lambda: cap.read(path))
            ctx.event("failed_reads")
            if held is None:
                ctx.viol("unreadable-accepted", f"{cap.name}: reading a {what} returned a mesh", where=cap.name)
            open_files(ctx, base, cap.name, f"reading a {what}")
        # a companion is missing
        reset(d)
        quiet(lambda: cap.write(cap.path(d), mesh))
        main = os.path.basename(cap.path(d))
        for n in good:
            if n == main or cap.group == "dolfin":  # the data files of DOLFIN are optional
                continue
            reset(d)
            quiet(lambda: cap.write(cap.path(d), mesh))
            os.remove(os.path.join(d, n))
            held = attempt(lambda: cap.read(cap.path(d)))
            ctx.event("failed_reads")
            if held is None:
                ctx.viol("companion-missing", f"{cap.name}: {n} was removed and reading {main} did not notice",
                         where=cap.name)
            open_files(ctx, base, cap.name, "reading without a companion")


def attempt(fn):
    try:
        with silent():
            fn()
    except (Exception, SystemExit) as e:
        return e
    return None


def attempt_str(fn):
    e = attempt(fn)
    return None if e is None else exc_str(e)


def target(ctx, cap, base, what, write):
    held = attempt(write)
    ctx.event("refused_targets")
    ctx.obs(cap.name, what)
    if held is None:
        ctx.viol("success-reported", f"{cap.name}: writing with a {what} reported success", where=cap.name)
    open_files(ctx, base, cap.name, f"writing with a {what}")


# ------------------------------------------------------------------ the device fails while reading
def run_eio(case, ctx):
    """All files read under strace, which makes the n-th and later read calls on them fail."""
    if not shutil.which("strace"):
        ctx.event("no_strace")
        return
    import json
    import subprocess
    import sys

    from vlib.env import VERIF
    with scratch() as base:
        jobs, paths = [], []
        for i, (v, cap) in enumerate(CAPS.items()):
            rng = rng_of("c18eio", v, case["s"])
            ref = gen.gen(rng, cap, size=case["size"], data=True)
            d = os.path.join(base, str(i))
            os.mkdir(d)
            if attempt(lambda: cap.write(cap.path(d), ref.mesh())) is None:
                jobs.append((v, cap.path(d)))
                paths += [os.path.join(d, n) for n in files(d)]
        with open(os.path.join(base, "jobs"), "w") as f:
            json.dump(jobs, f)
        drv = [sys.executable, "-B", os.path.join(VERIF, "vlib", "eio_driver.py"), os.path.join(base, "jobs")]
        p0 = subprocess.run(drv + [os.path.join(base, "ref")], capture_output=True, timeout=300)
        if p0.returncode != 0:
            ctx.event("driver_failed")
            return
        cmd = ["strace", "-f", "-qqq", "-o", "/dev/null", "-e", "signal=none"]
        for p in paths:
            cmd += ["-P", p]
        cmd += ["-e", f"inject=read,pread64,readv,preadv:error=EIO:when={case['n']}+"]
        p1 = subprocess.run(cmd + drv + [os.path.join(base, "got")], capture_output=True, timeout=600)
        if p1.returncode != 0 or not os.path.exists(os.path.join(base, "got")):
            ctx.event("strace_unusable")
            return
        with open(os.path.join(base, "ref")) as f:
            want = json.load(f)
        with open(os.path.join(base, "got")) as f:
            got = json.load(f)
    for (v, _), a, b in zip(jobs, want, got):
        if a[0] != "ok" or a[1][0] != "mesh":
            continue
        ctx.event("eio_reads")
        ctx.obs(v, "eio", case["n"], case["s"])
        if b[0] == "ok" and b[1][0] == "exc":
            ctx.event("eio_raised")
        elif b[0] == "died" and CAPS[v].heavy:
            ctx.event("hdf5_crashes")
        elif b[0] != "ok":
            ctx.viol("died", f"{v}: read call {case['n']} failed with EIO and the reader ended with {b}", where=v)
        elif a == b:
            ctx.event("eio_not_needed")
        else:
            ctx.viol("partial-mesh", f"{v}: read call {case['n']} and later ones failed with EIO; the reader returned "
                     "a different mesh instead of raising", where=v)


# ------------------------------------------------------------------ descriptors
def open_files(ctx, base, name, after):
    ctx.event("fd_checks")
    left = []
    for n in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + n)
        except OSError:
            continue
        if t.startswith(base + os.sep):
            left.append(os.path.relpath(t, base))
    if left:
        ctx.viol("descriptor-left", f"{name}: after {after} these files are still open: {left[:5]}", where=name)
        gc.collect()


def netcdf_opens(path):
    import netCDF4
    try:
        with netCDF4.Dataset(path):
            return True
    except Exception:
        return False


def run_fds(case, ctx):
    cap = CAPS[case["v"]]
    rng, ref = mesh_for(case, cap)
    ops.limit()
    gc.disable()
    try:
        with scratch() as base:
            first = os.path.join(base, "o")
            os.mkdir(first)
            e = attempt(lambda: cap.write(cap.path(first), ref.mesh()))
            open_files(ctx, base, cap.name, f"writing ({type(e).__name__})")
            if e is not None:
                return
            keep = []
            e = attempt(lambda: keep.append(cap.read(cap.path(first))))
            open_files(ctx, base, cap.name, f"reading ({type(e).__name__})")
            names = sorted(os.listdir(first))
            for k in range(6):
                # a copy of the output with one of its files damaged
                d = os.path.join(base, f"d{k}")
                shutil.copytree(first, d)
                path = cap.path(d)
                main = os.path.basename(path)
                victim = main if k % 2 == 0 or main not in names else names[int(rng.integers(0, len(names)))]
                with open(os.path.join(d, victim), "rb") as f:
                    b = f.read()
                cut = int(rng.integers(0, len(b))) if len(b) else 0
                if k % 3 == 0:
                    c = b[:cut]
                elif k % 3 == 1:
                    c = b[:cut] + bytes(rng.integers(0, 256, 4, dtype="u1")) + b[cut + 4:]
                else:
                    c = b[:cut] + b[cut + int(rng.integers(1, 40)):]
                with open(os.path.join(d, victim), "wb") as f:
                    f.write(c)
                keep.clear()
                e = attempt(lambda: keep.append(cap.read(path)))
                if e is not None:
                    ctx.event("failed_reads")
                if e is not None and cap.group == "exodus" and not netcdf_opens(path):
                    ctx.event("netcdf_open_failed")  # the library itself keeps the descriptor
                    continue
                open_files(ctx, d, cap.name, f"reading a damaged file ({type(e).__name__})")
                del e
            # writes the format refuses part of the way
            wdir = os.path.join(base, "w")
            os.mkdir(wdir)
            for k in range(4):
                bad = gen.wild(rng)
                if rng.random() < 0.5:
                    bad.cell_data["odd"] = [np.zeros((len(c), 5, 2)) for _, c in bad.cells]
                e = attempt(lambda: cap.write(cap.path(wdir, "w"), bad.mesh()))
                if e is not None:
                    ctx.event("failed_writes")
                open_files(ctx, wdir, cap.name, f"writing a mesh it cannot hold ({type(e).__name__})")
                del e
        ctx.obs(cap.name, "fds", case["s"])
        ctx.mark("variants", cap.name)
    finally:
        gc.enable()
