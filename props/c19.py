"""C19: reading touches nothing, writing touches only its own output."""
import csv
import decimal
import gc
import hashlib
import locale
import logging
import os
import pathlib
import random
import re
import resource
import shutil
import signal
import stat
import sys
import tempfile
import threading
import warnings
import xml.etree.ElementTree

import numpy as np

from vlib import gen, tags
from vlib.caps import CAPS
from vlib.env import exc_str, meshio, observe, scratch
from vlib.rt import rng_of

ID = "C19"
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: interpreter audit events (open for writing, rename, remove, mkdir, process and socket "
             "events), system call log, snapshots of directory trees and of process-wide settings around every call")
RULE = ("histories of writes (first, again with another mesh, under similar names, failing ones), reads (good, damaged, "
        "with a wrong format, of unknown suffixes), time series and command lines in directories full of files with "
        "confusable names, for every format and encoding, with target names given absolute, relative, as Path, with "
        "blanks, dots and non-ASCII characters, from a working directory elsewhere. Non-trivial: a snapshot was "
        "compared; distinct by variant, step, name form and outcome")
ASSUMPTIONS = [
    "files made and removed again within one write call are not counted as touched",
    "companion files are those the formats document: XDMF {stem}.h5 and {stem}{n}.bin, TetGen .node/.ele, DOLFIN "
    "{stem}_{name}.xml for the cell data written",
    "the namespace prefix xml.etree remembers for XInclude is not a setting anyone observes",
]
REQUIRE = {"quick": {"steps": 4500, "reads": 1800, "writes": 1800, "failed_steps": 700, "files_watched": 150000,
                     "settings_compared": 80000, "audit_events": 2000, "variants": 77, "cli": 100, "series": 250}}
CPU = 90


def cases(tier, seed):
    out = []
    n = 4 if tier == "quick" else 100
    for v, cap in CAPS.items():
        for i in range(n if not cap.heavy else max(2, n // 2)):
            out.append({"k": "hist", "v": v, "s": seed * 10000 + i})
    for f in ("XML", "Binary", "HDF"):
        for i in range(5 * n):
            out.append({"k": "series", "f": f, "s": seed * 10000 + i})
    for i in range(30 * n):
        out.append({"k": "cli", "s": seed * 10000 + i})
    for i in range(1 if tier == "quick" else 12):
        out.append({"k": "syscalls", "s": seed * 10000 + i})
    return out


def run(case, ctx):
    globals()["run_" + case["k"]](case, ctx)


# ------------------------------------------------------------------ audit events
WRITING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
PATHS = {"os.remove": (0,), "os.rename": (0, 1), "os.mkdir": (0,), "os.rmdir": (0,), "os.chmod": (0,), "os.chown": (0,),
         "os.link": (1,), "os.symlink": (1,), "os.truncate": (0,), "os.utime": (0,), "os.setxattr": (0,),
         "shutil.rmtree": (0,), "shutil.move": (0, 1), "shutil.copyfile": (1,), "shutil.copymode": (1,),
         "shutil.copystat": (1,), "tempfile.mkstemp": (), "tempfile.mkdtemp": ()}
FORBIDDEN = {"os.chdir", "subprocess.Popen", "os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn",
             "os.spawn", "socket.connect", "socket.bind", "socket.__new__", "socket.getaddrinfo", "urllib.Request",
             "os.putenv", "os.unsetenv", "os.kill", "signal.pthread_kill", "ctypes.dlopen", "sys.addaudithook",
             "http.client.connect", "resource.setrlimit"}
_log = None
_hooked = False


def _hook(ev, args):
    if _log is None:
        return
    try:
        if ev == "open":
            path, mode, flags = args
            if isinstance(path, int) or not isinstance(flags, int) or not flags & WRITING:
                return
            p = os.path.abspath(os.fsdecode(path))
            _log.append((ev, p, os.path.lexists(p)))
        elif ev in PATHS:
            for i in PATHS[ev]:
                if isinstance(args[i], (str, bytes, os.PathLike)):
                    p = os.path.abspath(os.fsdecode(args[i]))
                    _log.append((ev, p, os.path.lexists(p)))
        elif ev in FORBIDDEN:
            _log.append((ev, repr(args)[:100], None))
    except Exception as e:  # never disturb the code under test
        _log.append(("hook", repr(e), None))


def hooked():
    global _hooked
    if not _hooked:
        import h5py  # noqa: F401  (their imports change settings of their own)
        import netCDF4  # noqa: F401
        import rich.console  # noqa: F401
        import meshio._cli  # noqa: F401
        sys.addaudithook(_hook)
        _hooked = True


# ------------------------------------------------------------------ snapshots
def tree(base):
    out = {}
    for root, dirs, names in os.walk(base):
        for n in dirs + names + [""]:
            p = os.path.join(root, n) if n else root
            s = os.lstat(p)
            if stat.S_ISREG(s.st_mode):
                with open(p, "rb") as f:
                    c = hashlib.blake2b(f.read(), digest_size=16).digest()
                x = (c, s.st_size)
            elif stat.S_ISLNK(s.st_mode):
                x = (os.readlink(p),)
            else:
                x = ()
            out[p] = (s.st_mode, s.st_ino, s.st_uid, s.st_nlink if x else 0, s.st_mtime_ns) + x
    return out


def settings():
    import h5py
    um = os.umask(0)
    os.umask(um)
    d = decimal.getcontext()
    cfg = h5py.get_config()
    return {
        "working directory": os.getcwd(), "umask": um, "environment": dict(os.environ),
        "numpy print options": repr(np.get_printoptions()), "numpy error handling": repr(np.geterr()),
        "numpy error callback": repr(np.geterrcall()), "numpy buffer size": np.getbufsize(),
        "warning filters": repr(warnings.filters), "showwarning": warnings.showwarning,
        "locale": locale.setlocale(locale.LC_ALL), "random state": hash(random.getstate()),
        "numpy random state": hash(np.random.get_state()[1].tobytes() + bytes(str(np.random.get_state()[2:]), "u8")),
        "sys.path": list(sys.path), "signal handlers": [signal.getsignal(i) for i in range(1, 32) if i not in (9, 19)],
        "timers": signal.getitimer(signal.ITIMER_REAL), "decimal context": (d.prec, d.rounding, repr(d.traps)),
        "recursion limit": sys.getrecursionlimit(), "stdout": sys.stdout, "stderr": sys.stderr, "stdin": sys.stdin,
        "excepthook": sys.excepthook, "displayhook": sys.displayhook, "gc": (gc.isenabled(), gc.get_threshold()),
        "threads": sorted(t.ident for t in threading.enumerate()), "argv": list(sys.argv),
        "log level": (logging.root.level, logging.root.disabled, logging.root.manager.disable, list(logging.root.handlers)),
        "csv field limit": csv.field_size_limit(), "digits limit": sys.get_int_max_str_digits(),
        "switch interval": sys.getswitchinterval(), "temporary directory": tempfile.tempdir,
        "resource limits": [resource.getrlimit(i) for i in (resource.RLIMIT_AS, resource.RLIMIT_NOFILE,
                                                            resource.RLIMIT_FSIZE, resource.RLIMIT_STACK)],
        "priority": os.getpriority(os.PRIO_PROCESS, 0), "h5py": (cfg.complex_names, cfg.bool_names, cfg.track_order),
        "trace functions": (sys.gettrace(), sys.getprofile()), "dont_write_bytecode": sys.dont_write_bytecode,
        "builtins": (open, print, __import__), "unraisablehook": sys.unraisablehook, "threading.excepthook": threading.excepthook,
        "XML namespaces": dict(xml.etree.ElementTree._namespace_map), "import hooks": list(sys.meta_path) + list(sys.path_hooks),
        "CPU affinity": os.sched_getaffinity(0), "thread stack size": threading.stack_size(),
        "format registry": (list(getattr(meshio._helpers, "reader_map", {}).items()),
                            list(getattr(meshio._helpers, "_writer_map", {}).items()),
                            {k: list(v) for k, v in meshio.extension_to_filetypes.items()}),
    }


class World:
    """A scratch area with a target directory, a working directory, a home and a place for temporary files."""

    def __init__(self, ctx, base, rng, name):
        self.ctx, self.base, self.rng, self.name = ctx, os.path.realpath(base), rng, name
        b = self.base
        self.out = os.path.join(b, str(rng.choice(["out", "out.d", "my out", "out.xdmf", "aus\u00e4", "o(1)", "m", "a%20b"])))
        self.cwd = os.path.join(b, "cwd")
        self.home = os.path.join(b, "home")
        self.tmp = os.path.join(b, "tmp")
        for d in (self.out, self.cwd, self.home, self.tmp, os.path.join(self.out, "sub")):
            os.mkdir(d)
        self.stem = str(rng.choice(["m", "m", "mesh.v2", "my mesh", "m1", "\u00fcber", "a-b_c", "m.tar", "M", "x~", "100%"]))
        self.form = str(rng.choice(["abs", "bare", "rel", "dotdot", "Path", "relPath", "dots"]))

    def __enter__(self):
        hooked()
        self.saved = (os.getcwd(), dict(os.environ), tempfile.tempdir)
        os.chdir(self.out if self.form == "bare" else self.cwd)
        os.environ.update(HOME=self.home, TMPDIR=self.tmp, TMP=self.tmp, TEMP=self.tmp,
                          XDG_CACHE_HOME=os.path.join(self.home, ".cache"))
        tempfile.tempdir = self.tmp
        return self

    def __exit__(self, *a):
        os.chdir(self.saved[0])
        os.environ.clear()
        os.environ.update(self.saved[1])
        tempfile.tempdir = self.saved[2]

    def target(self, filename):
        """The spelling of out/filename this history uses."""
        p = os.path.join(self.out, filename)
        rel = os.path.relpath(p, os.getcwd())
        return {"abs": p, "bare": rel, "rel": rel, "Path": pathlib.Path(p), "relPath": pathlib.Path(rel),
                "dots": os.path.join(self.out, "sub", "..", ".", filename),
                "dotdot": os.path.join("..", os.path.basename(self.out), filename)}[self.form]

    def decoys(self, ext, own):
        """Files with names an implementation might think of, minus those the output owns."""
        s = self.stem
        names = [s, s + ".bak", s + "~", "." + s, s + ".tmp", "." + s + ext + ".swp", s + ext + ".tmp", s + ext + "~",
                 s + ext + ".bak", "tmp" + ext, "out" + ext, "mesh" + ext, "data" + ext, s + "0" + ext, s + "_0" + ext,
                 s + ".h5", s + ".hdf5", s + ext + ".h5", s + ".bin", s + "0.bin", s + "1.bin", s + "_0.bin", s + ".raw", "0.bin", "data0.bin",
                 s + ".node", s + ".ele", s + ".face", s + ".edge", s + ".neigh", s + "_.xml", s + "_other.xml",
                 "other" + ext, "other.h5", "other0.bin", "other.ele", "other.node", "other_a.xml", s + "x" + ext,
                 s + "x.h5", s + "x.ele", s + "x_a.xml", s[:-1] + "q" + ext, s + ".json", s + ".xml", s + ".log",
                 s.split(".")[0] + ".h5", s.split(".")[0] + ".ele", s.split(".")[0] + ext, s.upper() + "2" + ext,
                 "mesh.xdmf", "mesh.h5", "core", "a.out", s + ".gz", s + ext + ".gz", s + ".lock", s + ext + ".lock"]
        k = 0
        for d in (self.out, self.cwd, os.path.join(self.out, "sub"), self.tmp, self.home):
            for n in names:
                p = os.path.join(d, n)
                if not n or os.path.lexists(p) or d == self.out and own(n):
                    continue
                with open(p, "wb") as f:
                    f.write(b"precious %d\n" % k)
                os.utime(p, ns=(10 ** 18, 10 ** 18 + k))
                if k % 7 == 0:
                    os.chmod(p, 0o440)
                k += 1

    def step(self, what, fn, own=None, reading=False):
        """Run fn under the monitors. own(filename): belongs to the output in the target directory."""
        ctx = self.ctx
        before = tree(self.base)
        s0 = settings()
        sb, sa, log = {}, {}, []

        def inner():  # observe() has warning filters and streams of its own
            global _log
            sb.update(settings())
            _log = log
            try:
                return fn()
            finally:
                _log = None
                sa.update(settings())

        o = observe(inner)
        for k, x in settings().items():  # changes outlasting observe()
            if x != s0[k]:
                sb[k], sa[k] = s0[k], x
        after = tree(self.base)
        ctx.event("steps")
        ctx.event("reads" if reading else "writes")
        ctx.event("files_watched", len(before))
        ctx.event("settings_compared", len(sb))
        ctx.event("audit_events", len(log))
        if o.exc is not None:
            ctx.event("failed_steps")
        how = "ok" if o.exc is None else type(o.exc).__name__
        ctx.obs(self.name, what, self.form, how)
        tag = f"{self.name}: {what} ({how}, {self.form} name)"
        for k in sb:
            if sb[k] != sa[k]:
                if k == "working directory":
                    os.chdir(sb[k])
                ctx.viol("setting", f"{tag}: {k} changed from {str(sb[k])[:150]} to {str(sa[k])[:150]}", where=self.name)
        for p in sorted(before.keys() | after.keys()):
            a, b = before.get(p), after.get(p)
            if a == b:
                continue
            rel = os.path.relpath(p, self.base)
            if not reading:
                d, n = os.path.split(p)
                if p == self.out or a and b and stat.S_ISDIR(b[0]) and p == self.tmp:
                    # a directory entry appeared: judged by the entries themselves
                    if a and b and a[:4] == b[:4]:
                        continue
                if d == self.out and own(n) and (b is None or stat.S_ISREG(b[0])):
                    continue
            word = "created" if a is None else "deleted" if b is None else "modified"
            ctx.viol("touched", f"{tag}: {rel} was {word}", where=self.name)
        for ev, p, existed in log:
            if existed is None:
                ctx.viol("event", f"{tag}: {ev} {p}", where=self.name)
            elif p.startswith("/dev/"):
                continue
            elif reading:
                ctx.viol("event", f"{tag}: {ev} for writing: {p}", where=self.name)
            elif not p.startswith(self.base + os.sep) and (existed or os.path.lexists(p)):
                ctx.viol("event", f"{tag}: {ev} outside the target directory: {p}", where=self.name)
        return o


def companions(cap, filename, mesh=None):
    """Which names in the target directory belong to the output."""
    stem, ext = os.path.splitext(filename)
    if cap.group == "xdmf":
        pat = re.escape(filename) + {"xdmf-xml": "", "xdmf-bin": "|" + re.escape(stem) + r"\d+\.bin"}.get(
            cap.name, "|" + re.escape(stem) + r"\.h5")
        return lambda n: re.fullmatch(pat, n) is not None
    if cap.group == "tetgen":
        return lambda n: n in (stem + ".node", stem + ".ele")
    if cap.group == "dolfin":
        names = {filename} | {f"{stem}_{k}.xml" for k in (mesh.cell_data if mesh is not None else ())}
        return lambda n: n in names
    return lambda n: n == filename


def mesh_for(rng, cap, wild=False):
    if wild:
        ref = gen.wild(rng)
        if rng.random() < 0.5:
            ref.cell_data["odd"] = [np.zeros((len(c), 5, 2)) for _, c in ref.cells]
        return ref.mesh()
    ref = gen.gen(rng, cap, size=str(rng.choice(["tiny", "small"])), data=True)
    if cap.group in tags.ADD and rng.random() < 0.5:
        tags.ADD[cap.group](rng, cap, ref)
    return ref.mesh()


def run_hist(case, ctx):
    cap = CAPS[case["v"]]
    rng = rng_of("c19", case["v"], case["s"])
    with scratch() as base, World(ctx, base, rng, cap.name) as w:
        ms = [mesh_for(rng, cap) for _ in range(3)] + [mesh_for(rng, cap, True) for _ in range(2)]
        fn = w.stem + cap.ext
        every = [companions(cap, fn, m) for m in ms]
        w.decoys(cap.ext, lambda n: any(f(n) for f in every))
        p = w.target(fn)

        def own(m):
            return companions(cap, fn, m)

        w.step("write", lambda: cap.write(p, ms[0]), own(ms[0]))
        ok = os.path.exists(os.path.join(w.out, fn))
        if ok:
            w.step("read", lambda: cap.read(p), reading=True)
        w.step("write over", lambda: cap.write(p, ms[1]), own(ms[1]))
        w.step("write refused", lambda: cap.write(p, ms[3]), own(ms[3]))
        # a similarly named neighbour
        near = w.stem + str(rng.choice(["x", "_b", ".b", "b"])) + cap.ext
        if not os.path.exists(os.path.join(w.out, near)) and not any(f(near) for f in every):
            w.step("write a neighbour", lambda: cap.write(w.target(near), ms[2]), companions(cap, near, ms[2]))
            w.step("read a neighbour", lambda: cap.read(w.target(near)), reading=True)
        w.step("write again", lambda: cap.write(p, ms[0]), own(ms[0]))
        w.step("read again", lambda: cap.read(p), reading=True)
        w.step("read as something else",
               lambda: meshio.read(p, file_format=str(rng.choice(sorted(meshio._helpers.reader_map)))), reading=True)
        w.step("read by suffix", lambda: meshio.read(p), reading=True)
        # damaged input
        full = os.path.join(w.out, fn)
        if ok:
            with open(full, "rb") as f:
                b = f.read()
            for _ in range(2):
                c = damaged(rng, b)
                with open(full, "wb") as f:
                    f.write(c)
                if not cap.heavy:  # the HDF5 and netCDF libraries may not survive it
                    w.step("read a damaged file", lambda: cap.read(p), reading=True)
        w.step("read a missing file", lambda: cap.read(w.target("absent" + cap.ext)), reading=True)
        w.step("read an unknown suffix", lambda: meshio.read(w.target(w.stem + ".bak")), reading=True)
        w.step("write an unknown suffix", lambda: meshio.write(w.target(w.stem + ".bak"), ms[0]), lambda n: False)
        w.step("write an unknown format", lambda: meshio.write(w.target("fresh" + cap.ext), ms[0], file_format="nope"),
               lambda n: False)
        w.step("write as another format", lambda: ms[4].write(w.target("fresh.vtu")), lambda n: n == "fresh.vtu")
        w.step("Mesh.write", lambda: ms[2].write(p, file_format=cap.wfmt) if cap.wfmt != "gmsh40" else None,
               lambda n: own(ms[2])(n) or cap.group == "xdmf" and n == w.stem + ".h5")
    ctx.mark("variants", cap.name)
    ctx.sample(variant=cap.name, form=w.form, stem=w.stem)


def damaged(rng, b):
    if not b:
        return b"x"
    cut = int(rng.integers(0, len(b)))
    return b[:cut] if rng.random() < 0.5 else b[:cut] + bytes(rng.integers(32, 126, 3, dtype="u1")) + b[cut + 3:]


def run_series(case, ctx):
    rng = rng_of("c19ts", case["f"], case["s"])
    name = f"series-{case['f']}"
    with scratch() as base, World(ctx, base, rng, name) as w:
        fn = w.stem + ".xdmf"
        pat = {"XML": "", "HDF": "|" + re.escape(w.stem) + r"\.h5", "Binary": "|" + re.escape(w.stem) + r"\d+\.bin"}
        rx = re.compile(re.escape(fn) + pat[case["f"]])

        def own(n):
            return rx.fullmatch(n) is not None
        w.decoys(".xdmf", own)
        n = int(rng.integers(3, 20))
        pts = rng.random((n, 3))
        tri = gen.conn(rng, 3, 4, n)
        p = w.target(fn)

        def write(fail):
            with meshio.xdmf.TimeSeriesWriter(p, data_format=case["f"]) as t:
                t.write_points_cells(pts, [("triangle", tri)])
                for k in range(int(rng.integers(1, 6))):
                    t.write_data(float(k), point_data={"u": rng2.random(n)}, cell_data={"c": [np.arange(4.0)]})
                    if fail and k == 1:
                        raise KeyError("user")
        rng2 = np.random.default_rng(1)

        def read(fail):
            with meshio.xdmf.TimeSeriesReader(p) as t:
                t.read_points_cells()
                for k in range(t.num_steps):
                    t.read_data(k)
                if fail:
                    raise KeyError("user")
        for what, fn_, rd in (("write", lambda: write(False), False), ("read", lambda: read(False), True),
                              ("write with a failing body", lambda: write(True), False),
                              ("write again", lambda: write(False), False),
                              ("read with a failing body", lambda: read(True), True),
                              ("plain read", lambda: meshio.read(p), True)):
            w.step(what, fn_, own, reading=rd)
            ctx.event("series")


def run_cli(case, ctx):
    rng = rng_of("c19cli", case["s"])
    vs = sorted(v for v in CAPS if CAPS[v].wfmt != "gmsh40")
    cap = CAPS[vs[case["s"] % len(vs)]]
    out = CAPS[vs[int(rng.integers(0, len(vs)))]]
    m = mesh_for(rng, cap)
    with scratch() as base, World(ctx, base, rng, f"cli {cap.name}") as w:
        fn, fo = w.stem + cap.ext, w.stem + "o" + out.ext
        mine = companions(cap, fn, m)
        res = companions(out, fo, m)
        w.decoys(cap.ext, lambda n: mine(n) or n.startswith(w.stem + "o"))
        w.step("write", lambda: cap.write(w.target(fn), m), mine)
        if not os.path.exists(os.path.join(w.out, fn)):
            return
        a, b = str(w.target(fn)), str(w.target(fo))
        main = meshio._cli.main
        ctx.event("cli")
        w.step("info", lambda: main(["info", a, "-i", cap.rfmt]), reading=True)

        def produced(n):  # the converted mesh may hold data under other names
            return res(n) or out.group == "dolfin" and n.startswith(w.stem + "o_") and n.endswith(".xml") or \
                out.group == "xdmf" and re.fullmatch(re.escape(w.stem) + r"o(\.h5|\d+\.bin)", n)
        w.step(f"convert to {out.wfmt}", lambda: main(["convert", "-i", cap.rfmt, "-o", out.wfmt, a, b]), produced)
        if cap.group not in ("dolfin",):
            def inplace(n):
                return mine(n) or cap.group == "xdmf" and re.fullmatch(re.escape(w.stem) + r"(\.h5|\d+\.bin)", n)
            for tool in rng.permutation(["ascii", "binary", "compress", "decompress"])[:2]:
                w.step(str(tool), lambda: main([str(tool), a, "-i", cap.rfmt]), inplace)
        w.step("info on nothing", lambda: main(["info", str(w.target("absent.vtk"))]), reading=True)
        w.step("no command", lambda: main([]), reading=True)
        w.step("version", lambda: main(["--version"]), reading=True)
        w.step("convert a missing file", lambda: main(["convert", str(w.target("absent.vtk")), str(w.target("fresh.vtu"))]),
               lambda n: n == "fresh.vtu")


# ------------------------------------------------------------------ what the process asks of the kernel
CALL = re.compile(r"^\d+\s+(\w+)\((.*?)\)?\s+=\s+(-?\d+|0x\w+)")
STR = re.compile(r'"((?:[^"\\]|\\.)*)"')
DESTRUCTIVE = {"unlink", "unlinkat", "rename", "renameat", "renameat2", "mkdir", "mkdirat", "rmdir", "chmod", "fchmodat",
               "chown", "lchown", "fchownat", "link", "linkat", "symlink", "symlinkat", "truncate", "mknod", "mknodat",
               "utimensat", "setxattr"}
ELSE = {"chdir", "execve", "connect", "bind", "socket", "kill"}


def run_syscalls(case, ctx):
    if not shutil.which("strace"):
        ctx.event("no_strace")
        return
    import pickle
    import subprocess

    from vlib.env import VERIF
    with scratch() as base:
        base = os.path.realpath(base)
        jobs, meshes = [], []
        for i, (v, cap) in enumerate(CAPS.items()):
            rng = rng_of("c19sys", v, case["s"])
            d = os.path.join(base, str(i))
            os.mkdir(d)
            jobs.append((v, cap.path(d)))
            meshes.append(mesh_for(rng, cap))
        with open(os.path.join(base, "jobs"), "wb") as f:
            pickle.dump((jobs, meshes), f)
        log = os.path.join(base, "trace")
        calls = "open,openat,creat," + ",".join(sorted(DESTRUCTIVE | ELSE)) + ",access,faccessat,faccessat2"
        cmd = ["strace", "-f", "-qqq", "-s", "4096", "-o", log, "-e", "signal=none", "-e",
               "trace=" + ",".join("?" + c for c in calls.split(",")), sys.executable, "-B",
               os.path.join(VERIF, "vlib", "sys_driver.py"), os.path.join(base, "jobs")]
        r = subprocess.run(cmd, capture_output=True, timeout=600, cwd=base)
        if r.returncode != 0 or not os.path.exists(log):
            ctx.event("strace_unusable")
            return
        seg = None
        with open(log, encoding="utf8", errors="surrogateescape") as f:
            for line in f:
                m = CALL.match(line)
                if not m:
                    continue
                name, args, ret = m.groups()
                paths = STR.findall(args)
                if name.startswith(("access", "faccessat")):
                    if paths and paths[0].startswith("/__mark__/"):
                        _, _, i, what = paths[0].split("/")
                        seg = None if what == "end" else (int(i), what)
                    continue
                if seg is None:
                    continue
                v, target = jobs[seg[0]]
                cap = CAPS[v]
                ctx.event("syscalls_seen")
                if name in ELSE:
                    if name == "socket" and "AF_" not in args:
                        continue
                    ctx.viol("event", f"{v}: {seg[1]} makes the system call {line.strip()[:150]}", where=v)
                    continue
                if ret.startswith("-"):
                    continue
                if name in ("open", "openat") and not re.search(r"O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND", args):
                    continue
                p = paths[-1] if paths else ""
                p = os.path.normpath(os.path.join(base, p))
                if p.startswith(("/dev/", "/proc/")):
                    continue
                ctx.event("writing_syscalls")
                if seg[1] == "read":
                    ctx.viol("event", f"{v}: reading makes the system call {line.strip()[:150]}", where=v)
                    continue
                own = companions(cap, os.path.basename(target), meshes[seg[0]])
                d, n = os.path.split(p)
                if not (d == os.path.dirname(target) and own(n)) and os.path.lexists(p):
                    ctx.viol("event", f"{v}: writing {os.path.basename(target)} makes the system call "
                             f"{line.strip()[:150]}", where=v)
        ctx.obs("syscalls", case["s"])


# ------------------------------------------------------------------ known findings
def known_binary_names(ctx):
    """a.xdmf with eleven arrays and a1.xdmf share a10.bin."""
    pts = np.random.default_rng(0).random((4, 3))
    cells = [("triangle", np.array([[0, 1, 2]]))]
    big = meshio.Mesh(pts, cells, point_data={f"d{i}": np.arange(4.0) + i for i in range(10)})
    with scratch() as d:
        a = os.path.join(d, "a.xdmf")
        meshio.write(a, big, data_format="Binary")
        t = {n: open(os.path.join(d, n), "rb").read() for n in os.listdir(d)}
        meshio.write(os.path.join(d, "a1.xdmf"), meshio.Mesh(pts, cells), data_format="Binary")
        return any(open(os.path.join(d, n), "rb").read() != b for n, b in t.items())


KNOWN = {"xdmf-binary-names-collide": known_binary_names}
