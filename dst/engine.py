"""Runs many seeded simulations of one property, minimises and replays failures.

One PRNG seed ("<VERIF_SEED>:<property>:<index>") decides a whole simulated run:
the world, the operations, every fault and every scheduling decision are drawn
from it into a JSON scenario; executing that scenario draws nothing more.
"""
import copy
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback

from .world import Diff

SRC = os.path.join(os.environ.get("REPO", "/repo"), "python", "src") + os.sep
CPU_LIMIT = 240          # seconds of processor time for one simulated run
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Harness(Exception):
    """The machinery itself is broken (never a verdict about the code)."""


class Hang(BaseException):
    pass


class Ctx:
    """What one simulated run reports about itself."""

    def __init__(self):
        self.faults = {}
        self.steps = 0
        self.sim_time = 0.0
        self.h = hashlib.sha256()
        self.sig = []
        self.reach = {}
        self.nontrivial = True

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def hit(self, what, n=1):
        self.reach[what] = self.reach.get(what, 0) + n

    def event(self, *what):
        """Append to the event log (hashed; the log never feeds back into the run)."""
        for w in what:
            if hasattr(w, "tobytes"):
                self.h.update(w.tobytes())
            else:
                self.h.update(repr(w).encode())
        self.h.update(b"\n")

    def state(self, real):
        """Log the fields of every real bundle."""
        for name in sorted(real):
            self.event(name, real[name].v, real[name].i)

    def shape(self, *what):
        """Part of the signature by which two runs count as different."""
        self.sig.append(what)

    def signature(self):
        return hashlib.sha256(json.dumps(self.sig, default=str).encode()).hexdigest()[:16]


def rng_for(seed, prop, index):
    return random.Random(f"{seed}:{prop}:{index}")


def classify(exc):
    """Turn whatever a run raised into (kind, message) or raise Harness."""
    if isinstance(exc, Diff):
        return exc.kind, exc.msg
    if isinstance(exc, Hang):
        return "hang", f"the run did not finish within {CPU_LIMIT} s of processor time"
    tb = traceback.extract_tb(exc.__traceback__)
    inside = [f for f in tb if os.path.abspath(f.filename).startswith(SRC)]
    if inside:
        f = inside[-1]
        return "crash:" + type(exc).__name__, f"{type(exc).__name__}: {exc} in {os.path.basename(f.filename)}:{f.name}"
    raise Harness("".join(traceback.format_exception(type(exc), exc, exc.__traceback__)))


def _alarm(*_):
    raise Hang()


def run_one(check, scn):
    """Execute one scenario.  Returns (ctx, None) or (ctx, (kind, msg))."""
    ctx = Ctx()
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        check.execute(copy.deepcopy(scn), ctx)
        return ctx, None
    except (Exception, Hang) as e:
        return ctx, classify(e)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def summary(ctx, bad):
    return {"faults": ctx.faults, "steps": ctx.steps, "sim_time": ctx.sim_time, "digest": ctx.h.hexdigest(),
            "sig": ctx.signature(), "reach": ctx.reach, "bad": bad, "nontrivial": ctx.nontrivial}


_CHECK = None


def _work(job):
    seed, tier, index = job
    try:
        scn = _CHECK.generate(rng_for(seed, _CHECK.PROP, index), tier, index)
        ctx, bad = run_one(_CHECK, scn)
        return index, summary(ctx, bad), None
    except Harness as e:
        return index, None, str(e)
    except Exception:
        return index, None, traceback.format_exc()


def batch(check, seed, tier, indices, workers, deadline=None):
    """Run the given indices; yields (index, summary, harness_error) in index order."""
    global _CHECK
    _CHECK = check
    jobs = [(seed, tier, i) for i in indices]
    if workers <= 1:
        for j in jobs:
            if deadline and time.time() > deadline:
                return
            yield _work(j)
        return
    ctx = mp.get_context("fork")
    with ctx.Pool(workers) as pool:
        for r in pool.imap(_work, jobs, chunksize=1):
            yield r
            if deadline and time.time() > deadline:
                pool.terminate()
                return


# ------------------------------------------------------------------ shrinking
def variants(scn):
    """Generic smaller scenarios, in order of preference."""
    for key in ("ops", "faults", "schedule"):
        seq = scn.get(key)
        if not isinstance(seq, list) or not seq:
            continue
        size = len(seq)
        chunk = max(1, size // 2)
        while chunk >= 1:
            for a in range(0, size, chunk):
                s = copy.deepcopy(scn)
                del s[key][a:a + chunk]
                yield s
            if chunk == 1:
                break
            chunk //= 2
        for a, op in enumerate(seq):
            if isinstance(op, dict) and isinstance(op.get("n"), int) and op["n"] > 1:
                for m in (1, op["n"] // 4, op["n"] // 2, op["n"] - 1):
                    if 0 < m < op["n"]:
                        s = copy.deepcopy(scn)
                        s[key][a]["n"] = m
                        yield s
    for bi, b in enumerate(scn.get("bundles", []) or []):
        for key in ("probes", "zt"):
            for a in range(len(b.get(key, []) or [])):
                s = copy.deepcopy(scn)
                del s["bundles"][bi][key][a]
                yield s
        for li, lev in enumerate(b.get("levels", [])):
            for ni, ln in enumerate(lev):
                for key in ("R", "G"):
                    if ln.get(key) is not None:
                        s = copy.deepcopy(scn)
                        s["bundles"][bi]["levels"][li][ni][key] = None
                        yield s
                for a in range(len(ln.get("lumped", []) or [])):
                    s = copy.deepcopy(scn)
                    del s["bundles"][bi]["levels"][li][ni]["lumped"][a]
                    yield s
    for ni, n in enumerate(scn.get("nets", []) or []):
        for li, lv in enumerate(n["levels"]):
            for a, e in enumerate(lv["els"]):
                if e.get("src") is not None:
                    s = copy.deepcopy(scn)
                    s["nets"][ni]["levels"][li]["els"][a]["src"] = None
                    yield s
            for a, e in enumerate(lv["els"]):
                if e["k"] == "R" and len(lv["els"]) > 1 and e.get("src") is None:
                    s = copy.deepcopy(scn)
                    del s["nets"][ni]["levels"][li]["els"][a]
                    yield s


def shrink(check, scn, bad, budget):
    """Greedy minimisation keeping the same kind of violation."""
    end = time.time() + budget
    best, best_bad, tried = scn, bad, 0
    gen = getattr(check, "variants", variants)
    progress = True
    while progress and time.time() < end:
        progress = False
        for cand in gen(best):
            if time.time() > end:
                break
            tried += 1
            try:
                _, b = run_one(check, cand)
            except Harness:
                continue
            if b is not None and b[0] == best_bad[0]:
                best, best_bad = cand, b
                progress = True
                break
    return best, best_bad, tried


# -------------------------------------------------------------------- running
def save_replay(check, seed, index, scn, bad, original_bad, tried):
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    path = os.path.join(ROOT, "replays", f"{check.PROP}-{seed}-{index}.json")
    with open(path, "w") as f:
        json.dump({"property": check.PROP, "seed": seed, "index": index, "violation": {"kind": bad[0], "what": bad[1]},
                   "before_minimisation": {"kind": original_bad[0], "what": original_bad[1]},
                   "shrink_attempts": tried, "scenario": scn}, f, indent=1)
        f.write("\n")
    return path


def fresh_replay(path):
    """Replay in a new interpreter; returns its last VIOLATION/OK line."""
    try:
        p = subprocess.run([sys.executable, "-m", "dst.main", "replay", path], cwd=ROOT, capture_output=True,
                           text=True, timeout=400, env={**os.environ, "PYTHONHASHSEED": "4242"})
    except subprocess.TimeoutExpired:
        return "TIMEOUT"
    lines = [x for x in p.stdout.splitlines() if x.startswith(("REPLAY", "VIOLATION"))]
    return lines[0] if lines else p.stderr[-400:]


def determinism(check, seed, tier, indices, digests):
    """Re-run a sample with one worker in a fresh interpreter under another hash seed."""
    if not indices:
        return {"compared": 0, "different": 0}
    try:
        p = subprocess.run([sys.executable, "-m", "dst.main", "digests", check.PROP, str(seed), tier,
                            ",".join(map(str, indices))], cwd=ROOT, capture_output=True, text=True, timeout=300,
                           env={**os.environ, "PYTHONHASHSEED": "4242"})
        got = json.loads(p.stdout.strip().splitlines()[-1])
    except Exception as e:  # evidence only: never a verdict
        return {"compared": 0, "different": 0, "error": repr(e)[:300]}
    diff = [i for i in indices if got.get(str(i)) != digests[i]]
    return {"compared": len(indices), "different": len(diff), "which": diff[:5]}


def known_findings(prop):
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for ln in open(path):
            if ln.startswith("finding:") and f"property={prop} " in ln:
                rest = ln.split(f"property={prop} ", 1)[1].strip()
                key, what = rest.split(" ", 1)
                out.append((key.removeprefix("key="), what))
    return out


def run_check(check, seed, tier, workers=None, count=None):
    t0 = time.time()
    workers = workers or int(os.environ.get("DST_WORKERS", min(8, os.cpu_count() or 1)))
    n = count or check.COUNTS[tier]
    wall = {"quick": 500, "thorough": 6 * 3600}[tier]
    tot = {"faults": {}, "reach": {}, "steps": 0, "sim_time": 0.0}
    sigs, digests, done = set(), {}, 0
    trivial = 0
    errors, bad = [], None
    known = dict(known_findings(check.PROP))
    for text in known.values():
        print(f"KNOWN-FINDING: property={check.PROP} {text}")
    for index, s, err in batch(check, seed, tier, range(n), workers, deadline=t0 + wall):
        if err:
            errors.append((index, err))
            if len(errors) > 3:
                break
            continue
        done += 1
        for k in ("faults", "reach"):
            for a, b in s[k].items():
                tot[k][a] = tot[k].get(a, 0) + b
        tot["steps"] += s["steps"]
        tot["sim_time"] += s["sim_time"]
        if s["nontrivial"]:
            sigs.add(s["sig"])
        else:
            trivial += 1
        digests[index] = s["digest"]
        if s["bad"]:
            key = getattr(check, "finding_key", lambda b: None)(s["bad"])
            if key is not None and key in known:
                tot["reach"]["known finding " + key] = tot["reach"].get("known finding " + key, 0) + 1
                continue
            bad = (index, s["bad"])
            break
    status = 0
    samples = []
    for i in range(min(3, n)):
        samples.append(brief(check.generate(rng_for(seed, check.PROP, i), tier, i)))
    violation = None
    if bad:
        index, what = bad
        scn = check.generate(rng_for(seed, check.PROP, index), tier, index)
        small, sbad, tried = shrink(check, scn, what, 25 if tier == "quick" else 120)
        path = save_replay(check, seed, index, small, sbad, what, tried)
        again = fresh_replay(path)
        same = again == f"REPLAY property={check.PROP} kind={sbad[0]} {sbad[1]}"
        print(f"seed {seed} run {index}: {what[0]}: {what[1]}")
        print(f"minimised ({tried} attempts): {sbad[0]}: {sbad[1]}")
        print(f"replay in a fresh process: {'identical' if same else again}")
        print(f"VIOLATION property={check.PROP} replay={path}")
        violation = {"index": index, "kind": sbad[0], "what": sbad[1], "replay": path, "replay_identical": same}
        status = 1
    if errors and status == 0:
        for i, e in errors[:2]:
            print(f"HARNESS ERROR in run {i}:\n{e}", file=sys.stderr)
        status = 2
    if status == 0 and done < n:
        print(f"only {done} of {n} runs finished in time", file=sys.stderr)
        if done < max(1, n // 4):
            status = 2
    det = {}
    if status == 0 and getattr(check, "REPEAT", 4):
        step = max(1, done // check.REPEAT) if hasattr(check, "REPEAT") else max(1, done // 6)
        idx = sorted(digests)[::step][:getattr(check, "REPEAT", 6)]
        det = determinism(check, seed, tier, idx, digests)
    wall_s = time.time() - t0
    ev = {
        "property": check.PROP, "tier": tier, "seed": int(seed), "level": check.LEVEL,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(sigs),
            "rule": check.RULE,
            "samples": samples,
            "runs_per_hour": round(done / max(wall_s, 1e-9) * 3600),
            "trivial_runs": trivial,
            "solver_steps": tot["steps"],
            "simulated_seconds": tot["sim_time"],
            "faults_injected": tot["faults"],
            "conditions_reached": tot["reach"],
            "determinism": det,
            "components": check.COMPONENTS,
            "workers": workers,
        },
        "wall_s": round(wall_s, 3),
    }
    if violation:
        ev["coverage"]["violation"] = violation
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{check.PROP}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    if status == 0:
        print(f"OK property={check.PROP} tier={tier} runs={done} distinct={len(sigs)} steps={tot['steps']} "
              f"faults={sum(tot['faults'].values())} wall={wall_s:.1f}s determinism={det}")
    return status


def brief(scn):
    """A sample small enough for the evidence file."""
    s = json.dumps(scn)
    if len(s) < 1500:
        return scn
    return {"ops": scn.get("ops"), "size": len(s), "head": s[:700]} if len(json.dumps(scn.get("ops"))) < 2500 else {"size": len(s), "head": s[:1500]}
