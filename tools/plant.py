"""Plant a bug: plant.py SPEC.py  (run from the worktree's specs, outside /verif)

SPEC defines ID, PROP, EDITS [(file, old, new)], DEMO (python source), NEEDS, BREAKS.
Applies the edits to /repo, builds, runs the stable tests, the demo and the property's quick check,
undoes the change, and stores seeded/<ID>/ when the bug counts."""
import json
import os
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    assert sh("git -C /repo status --porcelain").stdout == "", "/repo not clean"
    d = os.path.join(V, "seeded", ns["ID"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo.py"), "w").write(ns["DEMO"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(
        "#!/bin/bash\n# cwd: the repository\nhere=$(cd \"$(dirname \"$0\")\" && pwd)\n"
        "export PYTHONPATH=$PWD/src PYTHONDONTWRITEBYTECODE=1\n"
        "exec /opt/venv/bin/python \"$here/demo.py\"\n")
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    ok = True
    r = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
    if r.returncode:
        print("demo FAILS on clean tree:", r.stdout[-800:], r.stderr[-1500:])
        return 1
    try:
        for f, old, new in ns["EDITS"]:
            p = "/repo/src/meshio/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
        r = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
        print("demo with bug:", r.returncode, (r.stdout + r.stderr).strip()[-300:])
        ok &= r.returncode != 0
        out = tempfile.mktemp(suffix=".json", dir="/tmp")
        sh(["bash", "/opt/vp/test.sh", out])
        base = json.load(open("/opt/vp/BASELINE.json"))
        got = json.load(open(out))
        os.remove(out)
        names = base.get("stable") or base.get("passed") or base.get("tests")
        miss = sorted(set(names) - set(got["passed"]))
        print("stable tests missing:", miss[:3], len(miss))
        ok &= not miss
        tree = sh("git -C /repo status --porcelain").stdout
        print(tree.strip())
        props = sys.argv[2:] or [ns["PROP"]]
        for p in props:
            r = sh([PY, "check.py", p], cwd=V)
            print("CHECK", p, "exit", r.returncode, "\n".join(
                l[:260] for l in r.stdout.splitlines()[1:] if l.startswith(("  ", "VIOL", "INC")))[:1200])
    finally:
        sh("git -C /repo checkout -- .")
    print("KEEP" if ok else "REJECT", ns["ID"])
    if not ok:
        print("  (left in", d, "- remove or fix)")
    return 0


sys.exit(main(sys.argv[1]))
