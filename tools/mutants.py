"""Mutation campaign (development tool, not a check): mutants of src/meshio that pass the stable tests are run
against the quick checks; survivors are listed for triage.

  mutants.py OUT.jsonl N SEED [PATH_PREFIX]      (work directories under /tmp/mut)
"""
import ast
import json
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys

PY = "/opt/venv/bin/python"
W = "/tmp/mut"
V = os.path.join(W, "verif")
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Div: "*", ast.Mod: "*"}
SPECIAL = {"_mesh.py": ["C14", "C09", "C01", "C02", "C03", "C05", "C16", "C12", "C08", "C20"],
           "_common.py": ["C01", "C02", "C06", "C03", "C05", "C14", "C20", "C11", "C16", "C17"],
           "_helpers.py": ["C12", "C09", "C13", "C16", "C10", "C17", "C19"],
           "_files.py": ["C13", "C18", "C01", "C17"], "_cli": ["C16", "C12", "C19"], "svg": ["C11", "C12", "C18", "C13"],
           "_cxml": ["C07", "C06", "C10", "C01"], "__init__.py": ["C12", "C01"],
           "_vtk_common.py": ["C01:vtk", "C01:vtu", "C02:vtk", "C02:vtu", "C06:vtk", "C06:vtu", "C07:vtk", "C07:vtu",
                              "C11:vt", "C10:vt", "C20:vt", "C08:vt"]}
GENERAL = ["C01", "C02", "C03", "C06", "C07", "C09", "C20", "C11", "C13", "C04", "C08"]
if os.environ.get("MUT_ALL"):
    GENERAL += ["C10", "C17", "C18", "C19"]


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, e = span(n)
        return b[a:e].decode()
    out = []

    def add(n, new, op):
        a, e = span(n)
        if b[a:e].decode() != new:
            out.append((n.lineno, a, e, new, op))
    tree = ast.parse(src)
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for r in CMP.get(type(n.ops[0]), []):
                add(n, f"{seg(n.left)} {r} {seg(n.comparators[0])}", "cmp")
        elif isinstance(n, ast.Constant) and type(n.value) is int and n.value < 10 ** 6:
            add(n, str(n.value + 1), "int+1")
            if n.value > 0:
                add(n, str(n.value - 1), "int-1")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), "bool")
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and re.fullmatch(r"[<>=]?[iuf][48]", n.value):
            s = n.value
            add(n, repr(s[:-1] + ("4" if s[-1] == "8" else "8")), "dtype")
        elif isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + j.join(seg(v) for v in n.values) + ")", "bool-op")
            for i in range(len(n.values)):
                add(n, "(" + (" and " if j == " or " else " or ").join(
                    seg(v) for k, v in enumerate(n.values) if k != i) + ")", "drop-clause")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, seg(n.operand), "not")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (
                isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            add(n, f"{seg(n.left)} {BIN[type(n.op)]} {seg(n.right)}", "arith")
        elif isinstance(n, ast.If):
            add(n.test, "True", "if-true")
            add(n.test, "False", "if-false")
        elif isinstance(n, ast.IfExp):
            add(n, seg(n.body), "ifexp")
            add(n, seg(n.orelse), "ifexp")
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break, ast.Raise)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            add(n, "pass", "delete")
        elif isinstance(n, ast.Assign) and any(isinstance(t, (ast.Subscript, ast.Attribute)) for t in n.targets):
            add(n, "pass", "delete")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and \
                n.targets[0].id in {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}:
            add(n, "pass", "delete-update")
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is not None:
                add(n, f"{seg(n.lower)}:", "slice")
                add(n, f":{seg(n.upper)}", "slice")
        elif isinstance(n, ast.Call):
            f = seg(n.func)
            for k in n.keywords:
                if k.arg and len(n.args) + len(n.keywords) > 1:
                    parts = [seg(a) for a in n.args] + [seg(q) for q in n.keywords if q is not k]
                    add(n, f"{f}({', '.join(parts)})", "drop-kw " + k.arg)
            if f.endswith((".copy", ".astype", ".lower", ".strip", ".rstrip", ".upper", ".ravel", ".tolist", ".T")) and \
                    isinstance(n.func, ast.Attribute):
                add(n, seg(n.func.value), "drop-call " + n.func.attr)
            if f in ("np.asarray", "np.array", "np.ascontiguousarray", "sorted", "list", "str", "int", "np.unique", "len") and \
                    len(n.args) == 1 and f != "len":
                add(n, seg(n.args[0]), "drop-call " + f)
        elif isinstance(n, ast.Attribute) and n.attr in ("int64", "float64"):
            add(n, seg(n.value) + "." + n.attr[:-2] + "32", "dtype")
        elif isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and 2 <= len(n.elts) <= 60:
            i = hash((n.lineno, n.col_offset)) % (len(n.elts) - 1)
            if all(isinstance(e, ast.Constant) for e in n.elts):
                e = [seg(x) for x in n.elts]
                e[i], e[i + 1] = e[i + 1], e[i]
                add(n, ("[%s]" if isinstance(n, ast.List) else "(%s)") % ", ".join(e), "swap-elements")
        elif isinstance(n, ast.Try) and n.handlers:
            pass
    return src, b, out


def plan(relpath):
    top = relpath.split("/")[0]
    for k in (relpath, top):
        if k in SPECIAL:
            return [(c.split(":") + [None])[:2] for c in SPECIAL[k]]
    if relpath == "xdmf/time_series.py":
        return [("C15", None), ("C08", "series"), ("C18", "series"), ("C19", "series"), ("C17", None)]
    if relpath == "xdmf/common.py":
        return [(c, "xdmf") for c in GENERAL] + [("C15", None)]
    m = re.match(r"gmsh/_gmsh(\d\d)", relpath) or re.match(r"vtk/_vtk_(\d\d)", relpath)
    only = top + m.group(1) if m else top
    c = [(p, only) for p in GENERAL]
    return c


def work(args):
    i, rel, line, a, e, new, op = args
    wid = multiprocessing.current_process()._identity[0]
    d = os.path.join(W, f"w{wid}")
    if not os.path.exists(d):
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "build", "__pycache__"), symlinks=True)
    p = os.path.join(d, "src/meshio", rel)
    orig = open(os.path.join("/tmp/mut/orig/src/meshio", rel), "rb").read()
    mut = orig[:a] + new.encode() + orig[e:]
    rec = {"i": i, "file": rel, "line": line, "op": op, "old": orig[a:e].decode()[:120], "new": new[:120], "a": a, "e": e,
           "full": new}
    try:
        try:
            compile(mut, p, "exec")
        except SyntaxError:
            rec["status"] = "syntax"
            return rec
        open(p, "wb").write(mut)
        env = dict(os.environ, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_REPO=d,
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        r = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", f"--basetemp={W}/t{wid}", "--timeout=30",
                "--codeblocks", "--tb=no"] + DESEL, d, env, 200)
        if r[0] != 0:
            rec["status"] = "tests"
            return rec
        tried = []
        for c, only in plan(rel):
            cmd = [PY, "check.py", c, "-j", "1"] + (["--only", only] if only else [])
            r = sh(cmd, V, env, 400)
            tried.append(f"{c}:{r[0]}")
            if r[0] == 1:
                rec["status"] = "caught " + c
                rec["msg"] = "\n".join(l for l in r[1].splitlines() if l.startswith("  "))[:300]
                return rec
            if r[0] not in (0, 3) or r[0] == 3 and not only:
                rec["status"] = f"odd {c} {r[0]}"
                rec["msg"] = r[1][-300:]
                return rec
        rec["status"] = "SURVIVED"
        rec["tried"] = tried
        return rec
    finally:
        open(p, "wb").write(orig)


def sh(cmd, cwd, env, timeout):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 99, "timeout"


DESEL = []
if os.path.exists(W + "/fails.txt"):  # tests that fail on the unchanged tree (missing LFS files)
    for _l in open(W + "/fails.txt"):
        DESEL += ["--deselect", _l.strip()]

if __name__ == "__main__":
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    pref = sys.argv[4] if len(sys.argv) > 4 else ""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for k in ("orig", "verif"):
        shutil.rmtree(os.path.join(W, k), ignore_errors=True)
    for k in range(64):
        shutil.rmtree(os.path.join(W, f"w{k}"), ignore_errors=True)
    shutil.copytree("/repo/src", W + "/orig/src")
    shutil.copytree(here, V, ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    jobs = []
    for root, _, names in os.walk(W + "/orig/src/meshio"):
        for f in sorted(names):
            rel = os.path.relpath(os.path.join(root, f), W + "/orig/src/meshio")
            if f.endswith(".py") and re.match(pref, rel) and rel != "__about__.py":
                for line, a, e, new, op in mutants(os.path.join(root, f))[2]:
                    jobs.append((rel, line, a, e, new, op))
    jobs.sort()
    rnd = random.Random(seed)
    rnd.shuffle(jobs)
    print(len(jobs), "mutants in all")
    jobs = [(i,) + j for i, j in enumerate(jobs[:n])]
    with multiprocessing.Pool(8) as pool, open(out, "w") as f:
        for rec in pool.imap_unordered(work, jobs):
            f.write(json.dumps(rec) + "\n")
            f.flush()
