"""Run the cases of one property in worker processes under the monitors, collect what was
observed, and turn it into a three-valued verdict:

  exit 0  every case explored held (known findings are listed)
  exit 1  a violation: line ``VIOLATION property=<id> replay=<path>``
  exit 3  the deciding monitors did not observe enough to say anything
"""
import collections
import gc
import hashlib
import importlib
import json
import os
import resource
import select
import signal
import struct
import sys
import time
import traceback

from . import env

EVID = os.path.join(env.VERIF, "evidence")
MAXVIOL = int(os.environ.get("VERIF_MAXVIOL", "12"))


class Hang(BaseException):
    """CPU budget of a case exhausted."""


class Abort(Exception):
    """Raised by a case whose environment (not the code under test) failed."""


class Ctx:
    """Passed to a case: records observations and violations."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.events = collections.Counter()
        self.keys = set()
        self.viols = []
        self.samples = []
        self.sets = collections.defaultdict(set)

    def mark(self, name, key):
        """Distinct values observed under a name (reported as a count)."""
        self.sets[name].add(str(key))

    def event(self, name, n=1):
        self.events[name] += n

    def obs(self, *key):
        """A distinct non-trivial situation in which an oracle compared something."""
        self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def viol(self, mech, msg, **extra):
        self.viols.append({"mech": mech, "msg": str(msg)[:600], **extra})

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(kw)


def _on_prof(signum, frame):
    raise Hang()


def run_case(mod, case, ctx, cpu):
    """Run one case in this process; returns the list of violations."""
    ctx.viols = []
    signal.signal(signal.SIGPROF, _on_prof)
    budget = float(case.get("cpu", cpu))
    signal.setitimer(signal.ITIMER_PROF, budget)
    try:
        try:
            mod.run(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Hang:
        ctx.viol("hang", f"no result after {budget:.0f} s of CPU time", kind="hang")
    except Abort as e:
        ctx.event("aborted")
    except MemoryError:
        ctx.event("aborted")
    except Exception as e:
        tb = traceback.format_exc()
        ctx.viol("oracle-exception", tb[-1500:], kind="oracle")
    return ctx.viols


def _worker(mod, cases, idxs, wfd, tier, seed, cpu):
    ctx = Ctx(mod.ID, tier, seed)
    out = os.fdopen(wfd, "wb", buffering=0)

    def send(obj):
        b = json.dumps(obj, default=str).encode()
        out.write(struct.pack("<I", len(b)) + b)

    n = 0
    for i in idxs:
        send({"start": i})
        t0 = time.process_time()
        v = run_case(mod, cases[i], ctx, cpu)
        send({"done": i, "viol": v, "cpu": time.process_time() - t0})
        n += 1
        if n % 50 == 0:
            gc.collect()
    send({"end": 1, "events": dict(ctx.events), "keys": sorted(ctx.keys),
          "samples": ctx.samples, "sets": {k: sorted(v) for k, v in ctx.sets.items()}})


def _cpu_of(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            s = f.read().rsplit(")", 1)[1].split()
        return (int(s[11]) + int(s[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError):
        return 0.0


class Pool:
    """Forked workers, one contiguous-stride shard each; a worker that dies or does not react
    to its own CPU timer is replaced and its case reported."""

    def __init__(self, mod, cases, tier, seed, cpu, nproc, deadline):
        self.mod, self.cases, self.tier, self.seed, self.cpu = mod, cases, tier, seed, cpu
        self.deadline = deadline
        self.done = 0
        self.cpu_total = 0.0
        self.viols = []  # (case index, viol)
        self.events = collections.Counter()
        self.keys = set()
        self.sets = collections.defaultdict(set)
        self.samples = []
        self.slow = []
        self.workers = {}
        self.truncated = False
        self.run(nproc)
        for k, v in self.sets.items():
            self.events[k] = len(v)

    def spawn(self, idxs):
        if not idxs:
            return
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for ww in self.workers.values():
                    os.close(ww["fd"])
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                _worker(self.mod, self.cases, idxs, w, self.tier, self.seed, self.cpu)
                os._exit(0)
            except BaseException:
                traceback.print_exc()
                os._exit(70)
        os.close(w)
        self.workers[r] = {"pid": pid, "fd": r, "idxs": list(idxs), "cur": None, "buf": b"",
                           "cpu0": 0.0, "ended": False, "n": 0}

    def reap(self, w, killed=None):
        os.close(w["fd"])
        del self.workers[w["fd"]]
        _, st = os.waitpid(w["pid"], 0)
        if w["ended"]:
            return
        cur = w["cur"]
        if cur is not None:
            why = killed or (f"worker died with wait status {st} "
                             f"(signal {st & 0x7f})")
            if st & 0x7f == signal.SIGKILL and not killed:
                self.events["aborted"] += 1  # memory: ended from outside
            else:
                self.viols.append((cur, {"mech": "hang" if killed else "crash", "msg": why,
                                         "kind": "hang" if killed else "crash"}))
            rest = w["idxs"][w["idxs"].index(cur) + 1:]
        else:
            rest = w["idxs"][w["n"]:]
            if not rest:
                return
            self.events["aborted"] += 1
            rest = rest[1:]
        if len(self.viols) < MAXVIOL:
            self.spawn(rest)

    def run(self, nproc):
        n = len(self.cases)
        for k in range(min(nproc, n)):
            self.spawn(list(range(k, n, nproc)))
        last = time.time()
        while self.workers:
            rl, _, _ = select.select(list(self.workers), [], [], 1.0)
            for fd in rl:
                w = self.workers[fd]
                b = os.read(fd, 1 << 20)
                if not b:
                    self.reap(w)
                    continue
                w["buf"] += b
                while len(w["buf"]) >= 4:
                    (ln,) = struct.unpack("<I", w["buf"][:4])
                    if len(w["buf"]) < 4 + ln:
                        break
                    m = json.loads(w["buf"][4:4 + ln])
                    w["buf"] = w["buf"][4 + ln:]
                    if "start" in m:
                        w["cur"] = m["start"]
                        w["cpu0"] = _cpu_of(w["pid"])
                    elif "done" in m:
                        w["cur"] = None
                        w["n"] += 1
                        self.done += 1
                        self.cpu_total += m["cpu"]
                        self.slow.append((m["cpu"], m["done"]))
                        for v in m["viol"]:
                            self.viols.append((m["done"], v))
                    else:
                        w["ended"] = True
                        self.events.update(m["events"])
                        self.keys.update(m["keys"])
                        for k, v in m["sets"].items():
                            self.sets[k].update(v)
                        self.samples += m["samples"][:1]
            if time.time() - last > 1.0:
                last = time.time()
                for w in list(self.workers.values()):
                    if w["cur"] is not None:
                        lim = float(self.cases[w["cur"]].get("cpu", self.cpu)) * 2 + 10
                        if _cpu_of(w["pid"]) - w["cpu0"] > lim:
                            os.kill(w["pid"], signal.SIGKILL)
                            self.reap(w, killed="case did not end and did not react to its "
                                                "CPU timer")
            if len(self.viols) >= MAXVIOL or time.time() > self.deadline:
                if time.time() > self.deadline:
                    self.truncated = True
                for w in list(self.workers.values()):
                    os.kill(w["pid"], signal.SIGKILL)
                    w["cur"] = None
                    w["ended"] = True
                    self.reap(w)


def load_known():
    p = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run only the cases whose JSON contains this text")
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args(argv)
    mod = importlib.import_module("props." + a.prop.lower())
    cpu = getattr(mod, "CPU", 30)
    t0 = time.time()
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        ctx = Ctx(mod.ID, rep.get("tier", a.tier), rep.get("seed", a.seed))
        v = run_case(mod, rep["case"], ctx, cpu)
        print(json.dumps(v, indent=1, default=str))
        return 1 if v else 0
    cases = mod.cases(a.tier, a.seed)
    if a.only:
        cases = [c for c in cases if a.only in json.dumps(c)]
    deadline = t0 + (600 if a.tier == "quick" else float(os.environ.get("VERIF_BUDGET", 5400)))
    pool = Pool(mod, cases, a.tier, a.seed, cpu, a.j, deadline)

    # known findings: their witnesses are always executed; they suppress nothing else
    known_lines = []
    kctx = Ctx(mod.ID, a.tier, a.seed)
    for f in load_known():
        if f["property"] != mod.ID or f.get("status") != "open":
            continue
        fn = getattr(mod, "KNOWN", {}).get(f["id"])
        if fn is None:
            continue
        try:
            still = fn(kctx)
        except Exception as e:
            still = f"{type(e).__name__}: {e}"
        if still:
            known_lines.append(f"KNOWN-FINDING: property={mod.ID} {f['id']}: {f['what']}")
        else:
            print(f"note: known finding {f['id']} does not reproduce any more")

    viols = pool.viols
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    cov = {
        "evaluations": int(pool.done),
        "distinct_nontrivial": len(pool.keys),
        "rule": mod.RULE,
        "samples": (pool.samples or [{"none": "run ended early"}])[:6],
        "cases_planned": len(cases),
        "truncated_by_deadline": pool.truncated,
        "events_observed": dict(sorted(pool.events.items())),
        "cpu_s": round(pool.cpu_total, 1),
        "known_findings": known_lines,
    }
    ev = {
        "property": mod.ID, "tier": a.tier, "seed": a.seed, "level": mod.LEVEL,
        "coverage": cov, "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    if not a.only:
        with open(os.path.join(EVID, f"{mod.ID}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{mod.ID} {a.tier} seed={a.seed}: {pool.done}/{len(cases)} cases, "
          f"{len(pool.keys)} distinct, events {dict(sorted(pool.events.items()))}, "
          f"{time.time() - t0:.1f}s wall, {pool.cpu_total:.0f}s cpu"[:1500])
    if os.environ.get("VERIF_SLOW"):
        for c, i in sorted(pool.slow)[-8:]:
            print("slow", round(c, 2), json.dumps(cases[i], default=str)[:150])
    for line in known_lines:
        print(line)
    if viols:
        # one replay per distinct mechanism, smallest case index first
        seen = {}
        for i, v in sorted(viols, key=lambda x: x[0]):
            seen.setdefault((v["mech"], v.get("where", "")), (i, v))
        for k, ((mech, where), (i, v)) in enumerate(seen.items()):
            path = os.path.join(EVID, "replay", f"{mod.ID}-{k}.json")
            with open(path, "w") as f:
                json.dump({"property": mod.ID, "tier": a.tier, "seed": a.seed,
                           "case": cases[i], "violation": v}, f, indent=1, default=str)
            print(f"  {mech} {where}: {v['msg']}"[:500])
            print(f"VIOLATION property={mod.ID} replay={path}")
        return 1
    if not a.only:
        need = getattr(mod, "REQUIRE", {}).get(a.tier, getattr(mod, "REQUIRE", {}).get("quick", {}))
        short = {k: (pool.events.get(k, 0), n) for k, n in need.items()
                 if pool.events.get(k, 0) < n}
        ab = pool.events.get("aborted", 0)
        if short or pool.done == 0 or ab > max(3, 0.05 * len(cases)):
            print(f"INCONCLUSIVE property={mod.ID}: monitors observed too little: {short} "
                  f"done={pool.done} aborted={ab}")
            return 3
    return 0
