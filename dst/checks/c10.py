"""C10: a step that fails is reported, leaves what was recorded alone, and can be repeated exactly."""
import copy

import numpy as np

from .. import faults, gen, waves
from ..world import Diff, World, check_close, load_src
from . import c02

PROP = "C10"
LEVEL = "exploration"
COUNTS = {"quick": 420, "thorough": 30000}
RULE = ("distinct = different signature (structure, history, kind and place of every fault); trivial when no fault fired")
COMPONENTS = {"real": ["src.mtln.MTLN", "src.mtl.MTL", "src.mtl.MTLD", "src.networks", "src.dispersive", "src.probes"],
              "stub": ["sources that fail at an arbitrary read", "interrupts delivered at an arbitrary executed line of the solver", "clock"],
              "oracle": "a twin of the same world that never meets a fault"}


def generate(rng, tier, index):
    if rng.random() < 0.3:
        b = gen.single(rng, cells=rng.randint(2, 8))
        dt = gen.dt_of(b["nodes"], b["ndiv"], b["levels"][0])
        if rng.random() < 0.3:
            b["levels"][0][0]["lumped"] = []
            gen.lumped(rng, b, dt, set(), 0, b["levels"][0][0]["lumped"].append)
        gen.add_probes(rng, b)
        scn = {"bundles": [b], "nets": [], "dt": dt}
        scn["ops"] = [{"op": "source", "bundle": "line", "end": e, "cond": c, "src": waves.rand(rng, 40 * dt)}
                      for e in (0, -1) for c in range(b["levels"][0][0]["n"]) if rng.random() < 0.6 or (e, c) == (0, 0)]
    else:
        zt = rng.random() < 0.15
        scn = gen.net_world(rng, nb=1 if zt else None, kinds=rng.choice(c02.SWARM[:6]), zt=zt, small=True, T_steps=40)
        scn["ops"] = []
        for b in scn["bundles"]:
            if rng.random() < 0.4:
                a, z = gen.two_pos(rng, b["nodes"], b["ndiv"])
                scn["ops"].append({"op": "drive", "bundle": b["name"], "cond": 0, "a": a, "b": z, "src": waves.rand(rng, 40 * scn["dt"])})
    fs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(["source", "source", "source", "line"])
        f = {"kind": kind, "what": rng.choice(list(faults.KINDS)) if kind == "source" else rng.choice(["interrupt", "memory", "base", "error"]),
             "run": rng.choice([6, 12, 25]), "at": rng.choice([rng.randint(0, 12), rng.randint(0, 60), rng.randint(0, 200)]),
             "via": rng.choice(["run", "step"]), "then": rng.choice(["step", "step", "run"])}
        fs.append(f)
    scn["faults"] = fs
    scn["f"] = rng.choice([1.0, 0.8, 0.5])
    return scn


def state(w):
    return {n: (o.v.copy(), o.i.copy()) for n, o in w.real.items()}


def same(what, a, b, tol=0.0):
    for n in b:
        for k, lab in ((0, "voltage"), (1, "current")):
            s = max(float(np.max(np.abs(b[n][k]))), 1e-12)
            check_close(f"{what}: {lab} on {n}", a[n][k], b[n][k], tol * s)


def recorded(w):
    out = []
    for p in w.probes:
        n = w.real[p["bundle"]].v.shape[0]
        v = np.array(p["real"].val, float)
        out.append((np.array(p["real"].t, float).copy(), v.reshape(-1, n).copy() if v.size else np.zeros((0, n))))
    return out


def execute(scn, ctx):
    src = load_src()
    fuse = faults.Fuse()
    w = World(scn, src, drive="real", hooks={"wave": fuse})
    twin = World(scn, src, drive="real")
    dt = scn["f"] * w.dt_max
    for op in scn["ops"]:
        w.apply(op)
        twin.apply(op)
    ctx.shape([[ln["n"] for lev in x["levels"] for ln in lev] for x in scn["bundles"]], scn["faults"])
    done = 0
    for f in scn["faults"]:
        n = f["run"]
        # fault-free history of this piece
        start(twin, dt, 0)
        hist = [state(twin)]
        for _ in range(n):
            twin.sim.step()
            hist.append(state(twin))
        rec = recorded(twin)
        # the same piece with the fault
        if f["via"] == "step":
            start(w, dt, 0)
        t0 = w.sim.time
        save = copy.deepcopy(w.sim) if f["kind"] == "line" else None
        tracer = None
        caught = None
        fuse.disarm()
        try:
            if f["kind"] == "source":
                fuse.arm(f["at"], f["what"])
                advance(w, f["via"], dt, n)
            else:
                tracer = faults.Tracer(f["at"] * 7, f["what"])
                with tracer:
                    advance(w, f["via"], dt, n)
        except BaseException as e:
            if isinstance(e, Diff) or (fuse.raised is None and (tracer is None or tracer.raised is None)):
                raise
            caught = e
        injected = fuse.raised if f["kind"] == "source" else tracer.raised
        fuse.disarm()
        fuse.raised = None
        if injected is not None:
            ctx.fault(f"{f['kind']}_{f['what']}_in_{f['via']}")
            if caught is None:
                raise Diff("swallowed", f"{type(injected).__name__} raised by a {'source' if f['kind'] == 'source' else 'interrupt'} was swallowed: the run went on as if nothing had happened")
            if caught is not injected and type(caught) is not type(injected):
                raise Diff("swallowed", f"{type(injected).__name__} reached the caller as {type(caught).__name__}: {caught}")
        k = int(round((w.sim.time - t0) / dt))     # steps completed before the fault
        if injected is None:
            if k != n:
                raise Diff("record", f"no fault fired but {k} of {n} steps were made")
            same("no fault fired", state(w), hist[n])
            check_records(w, rec, n, f["via"], n, t0 if False else None)
            ctx.hit("fault_did_not_fire")
            continue
        done += 1
        ctx.hit("steps_before_fault", k)
        if f["kind"] == "source":
            if f["via"] == "run" and injected is not None and k == 0 and fuse.when is None:
                continue
            same(f"after a source failed in step {k + 1}", state(w), hist[k])
            check_records(w, rec, k, f["via"], n, None)
            # the caller carries on
            rest = n - k
            if f["then"] == "step":
                if f["via"] == "run" and not prepared(w, rec, n):
                    start(w, dt, 0)
                for _ in range(rest):
                    w.sim.step()
                same(f"after repeating the failed step {k + 1} and going on", state(w), hist[n])
                check_records(w, rec, n, f["via"], n, None)
            else:
                start(w, dt, rest)
                same(f"after running on from the failed step {k + 1}", state(w), hist[n])
        else:
            check_records(w, rec, max(k - 1, 0), f["via"], n, None)
            # crash: throw the interrupted world away and go on from the copy made before
            adopt(w, scn, save)
            if f["via"] == "run":
                start(w, dt, n)
            else:
                for _ in range(n):
                    w.sim.step()
            same(f"after a crash in {tracer.where[1]} and a restart from a copy", state(w), hist[n])
            check_records(w, rec, n, f["via"], n, None)
            ctx.hit("crash_in_" + tracer.where[1])
        ctx.state(w.real)
        ctx.steps += 2 * n
        ctx.sim_time += 2 * n * dt
    ctx.nontrivial = done > 0


def prepared(w, rec, n):
    """A run that failed before its first step may not have prepared its records yet."""
    return all(np.atleast_1d(p["real"].t).size == n for p in w.probes) if w.probes else True


def start(w, dt, n):
    if w.single:
        w.sim.dt = dt
        w.sim.run_until((n + 0.5) * dt)
    else:
        w.sim.run_until((n + 0.5) * dt, dt)


def advance(w, via, dt, n):
    if via == "run":
        start(w, dt, n)
    else:
        for _ in range(n):
            w.sim.step()


def adopt(w, scn, sim):
    """Continue with the copied simulation in place of the lost one."""
    w.sim = sim
    if w.single:
        objs = {scn["bundles"][0]["name"]: sim}
    else:
        objs = dict(sim.bundles)
    count = {n: 0 for n in objs}
    w.real = objs
    for p in w.probes:
        n = p["bundle"]
        if count[n] >= len(objs[n].probes):
            raise Diff("record", f"the copy of {n} lost a probe")
        p["real"] = objs[n].probes[count[n]]
        count[n] += 1


def adopt_copy(c, w, scn, sim):
    """Make world c drive `sim`, a copy of the single line of world w, probes included."""
    c.probes = [dict(p) for p in w.probes]
    adopt(c, scn, sim)


def check_records(w, rec, k, via, n, _):
    """The first k frames of every probe are exactly those of the undisturbed twin."""
    for q, (p, (t, v)) in enumerate(zip(w.probes, rec)):
        gt = np.atleast_1d(np.array(p["real"].t, float))
        gv = np.array(p["real"].val, float)
        gv = gv.reshape(-1, v.shape[1]) if gv.size else np.zeros((0, v.shape[1]))
        who = f"{p['type']} probe {q} on {p['bundle']}"
        if gt.size < k or gv.shape[0] < k:
            raise Diff("record", f"{who} holds {gt.size} frames after {k} completed steps")
        if k == n and (gt.size != n or gv.shape[0] != n):
            raise Diff("record", f"{who} holds {gt.size} frames after {n} completed steps")
        check_close(f"times of {who} after a failure", gt[:k], t[:k], 1e-12 * (abs(t[k - 1]) if k else 1))
        check_close(f"values of {who} after a failure", gv[:k], v[:k], 1e-12 * max(float(np.max(np.abs(v))) if v.size else 0, 1e-12))
