"""Bring up the code under test from /repo/src and the observation primitives."""
import contextlib
import gc
import io
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if SRC not in sys.path[:1]:
    sys.path.insert(0, SRC)
warnings.filterwarnings("ignore")
import numpy as np  # noqa: E402

np.seterr(all="ignore")
import meshio  # noqa: E402

if not os.path.realpath(meshio.__file__).startswith(os.path.realpath(SRC) + os.sep):
    print(f"INCONCLUSIVE: meshio imported from {meshio.__file__}, not {SRC}")
    sys.exit(3)

SCRATCH_ROOT = os.environ.get("VERIF_SCRATCH", "/tmp")


@contextlib.contextmanager
def scratch():
    """A private scratch directory, removed afterwards."""
    d = tempfile.mkdtemp(prefix="vmio_", dir=SCRATCH_ROOT)
    try:
        yield d
    finally:
        # meshio leaves HDF5 handles to the garbage collector
        shutil.rmtree(d, ignore_errors=True)


class Captured:
    def __init__(self):
        self.out = io.StringIO()
        self.err = io.StringIO()
        self.exc = None
        self.value = None

    @property
    def warned(self):
        """Everything the user could see (stderr and stdout messages)."""
        return self.err.getvalue() + self.out.getvalue()


def observe(fn, *args, **kwargs):
    """Run fn; record return value, exception (SystemExit included), and everything it
    told the user on stdout/stderr/warnings."""
    cap = Captured()
    with contextlib.redirect_stdout(cap.out), contextlib.redirect_stderr(cap.err):
        with warnings.catch_warnings(record=True) as wlist:
            warnings.simplefilter("always")
            try:
                cap.value = fn(*args, **kwargs)
            except (Exception, SystemExit) as e:
                e.__traceback__ = None  # do not keep the callee's frames (and files) alive
                if e.__context__ is not None:
                    e.__context__.__traceback__ = None
                cap.exc = e
    for w in wlist:
        if issubclass(w.category, (DeprecationWarning, PendingDeprecationWarning,
                                   ResourceWarning)):
            continue
        cap.err.write(f"pywarning:{w.category.__name__}:{w.message}\n")
    return cap


def exc_str(e):
    return f"{type(e).__name__}: {str(e)[:300]}"


_STAMP = None


def destamp(b):
    """Bytes of a file with embedded time stamps blanked (and gzip unpacked)."""
    global _STAMP
    import gzip
    import re
    if b[:2] == b"\x1f\x8b":
        b = gzip.decompress(b)
    if _STAMP is None:
        _STAMP = re.compile(
            rb"\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d(\.\d+)?"
            rb"|(Mon|Tue|Wed|Thu|Fri|Sat|Sun) [A-Z][a-z][a-z] [ \d]\d \d\d:\d\d:\d\d \d{4}")
    return _STAMP.sub(b"<time>", b)
