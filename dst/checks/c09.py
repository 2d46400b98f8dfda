"""C09: every probe records every completed step exactly once, in order, at its own place."""
import numpy as np

from .. import gen, waves
from ..world import Diff, World, check_close, load_src, nearest, pos_xyz
from . import c02

PROP = "C09"
LEVEL = "exploration"
COUNTS = {"quick": 600, "thorough": 40000}
RULE = "distinct = different signature (structure, probe places and kinds, history of runs and single steps); trivial when no frame is ever recorded"
COMPONENTS = {"real": ["src.probes", "src.mtln.MTLN", "src.mtl.MTL", "src.mtl.MTLD", "src.networks"],
              "stub": ["source waveforms", "clock"],
              "oracle": "a twin of the same world advanced one step at a time, its fields read after every step"}


def generate(rng, tier, index):
    if rng.random() < 0.4:
        b = gen.single(rng, cells=rng.randint(1, 10))
        scn = {"bundles": [b], "nets": [], "dt": gen.dt_of(b["nodes"], b["ndiv"], b["levels"][0])}
        n = b["levels"][0][0]["n"]
        scn["ops"] = [{"op": "source", "bundle": "line", "end": e, "cond": c, "src": waves.rand(rng, 40 * scn["dt"])}
                      for e in (0, -1) for c in range(n) if rng.random() < 0.6 or (e, c) == (0, 0)]
    else:
        scn = gen.net_world(rng, kinds=rng.choice(c02.SWARM[:5]), zt=False, small=True, T_steps=40)
        scn["ops"] = []
    for b in scn["bundles"]:
        b["probes"] = []
        gen.add_probes(rng, b, rng.choice([1, 2, 4]))
        if rng.random() < 0.3:           # several probes at one place
            b["probes"] += [dict(p) for p in b["probes"][:2]]
            b["probes"].append({"pos": b["probes"][0]["pos"], "type": "current"})
            b["probes"].append({"pos": b["probes"][0]["pos"], "type": "voltage"})
    first = True
    for _ in range(rng.choice([1, 2, 3, 5, 7])):
        k = "run" if first else rng.choice(["run", "run", "step", "step", "probe", "off", "dt"])
        first = False
        if k == "off":
            b = rng.choice(scn["bundles"])
            scn["ops"].append({"op": "off", "bundle": b["name"], "end": rng.choice([0, -1]), "by": rng.choice([0.02, 0.3, 0.5, 0.9, 1.5, 40]),
                               "type": rng.choice(["voltage", "current"])})
            continue
        if k == "probe":
            b = rng.choice(scn["bundles"])
            scn["ops"].append({"op": "probe", "bundle": b["name"], "pos": gen.a_pos(rng, b["nodes"], b["ndiv"]), "type": rng.choice(["voltage", "current"])})
        elif k == "step":
            scn["ops"].append({"op": "step", "n": rng.randint(1, 9) if rng.random() < 0.96 else rng.choice([70, 140, 300, 1100])})
        else:
            op = {"op": "run", "n": rng.choice([0, 1, 2, 3, 10, 30]) if rng.random() < 0.96 else rng.choice([70, 140, 300, 1100])}
            if k == "dt":
                op["dtf"] = rng.choice([1.0, 0.8, 0.5])
            scn["ops"].append(op)
    return scn


def execute(scn, ctx):
    src = load_src()
    a = World(scn, src, drive="real")
    b = World(scn, src, drive="real")
    for w in (b,):                       # the twin's own probes are not looked at
        pass
    dt = a.dt_max
    now = 0.0
    loss = any(e["k"] == "SS" for n in scn["nets"] for lv in n["levels"] for e in lv["els"])
    node = {}
    for p in a.probes:
        node[id(p)] = None
    frames = {id(p): [] for p in a.probes}
    live = [id(p) for p in a.probes]
    places = {}

    def place(p, spec_pos, bname):
        places[id(p)] = nearest(a.geo(bname)[0], pos_xyz(spec_pos))
    it = iter(a.probes)
    for bs in scn["bundles"]:
        for ps in bs["probes"]:
            place(next(it), ps["pos"], bs["name"])
    total = 0

    def advance(n):
        nonlocal now, total
        for _ in range(n):
            b.sim.step()
            now += dt
            total += 1
            for p in a.probes:
                o = b.real[p["bundle"]]
                k = places[id(p)]
                if p["type"] == "voltage":
                    frames[id(p)].append((now, o.v[:, k].copy()))
                else:
                    frames[id(p)].append((now + dt / 2, o.i[:, min(k, o.i.shape[1] - 1)].copy()))
    ctx.shape([[ln["n"] for lev in x["levels"] for ln in lev] for x in scn["bundles"]], [x["ndiv"] for x in scn["bundles"]],
              [[p["type"], str(p["pos"])] for x in scn["bundles"] for p in x["probes"]])
    for op in scn["ops"]:
        ctx.shape(op["op"], op.get("n"), op.get("dtf"))
        k = op["op"]
        if k == "off":
            off_the_line(a, op, ctx)
            continue
        a.apply(op)
        if k == "probe":
            p = a.probes[-1]
            frames[id(p)] = []
            place(p, op["pos"], op["bundle"])
            ctx.fault("probe_added_between_runs")
        elif k == "run":
            if op.get("dtf"):
                dt = op["dtf"] * a.dt_max
                ctx.fault("time_step_change")
            b.apply({"op": "run", "n": 0, "dtf": op.get("dtf")})
            for p in a.probes:
                frames[id(p)] = []
            ctx.fault("recording_restarted")
            advance(op["n"])
        elif k == "step":
            advance(op["n"])
            ctx.fault("single_steps")
        else:
            b.apply(op)
        if k in ("run", "step"):
            verify(a, frames, dt)
            ctx.event(k, total)
            ctx.state(a.real)
    ctx.steps += 2 * total
    ctx.sim_time += 2 * now
    ctx.nontrivial = total > 0


def off_the_line(a, op, ctx):
    o = a.real[op["bundle"]]
    u = np.array(o.u, float)
    out = u[0] - u[1] if op["end"] == 0 else u[-1] - u[-2]
    pos = u[op["end"]] + op["by"] * out
    if type(o).__name__ == "MTL" and np.all(pos <= u.max(axis=0)) and np.all(pos >= u.min(axis=0)):
        return                           # the line only looks at its bounding box
    if np.min(np.linalg.norm(u - pos, axis=1)) < 0.01 * np.linalg.norm(out):
        return                           # a folded line comes back to this point
    for c in range(len(u) - 1):
        t = np.clip(np.dot(pos - u[c], u[c + 1] - u[c]) / np.dot(u[c + 1] - u[c], u[c + 1] - u[c]), 0, 1)
        if np.linalg.norm(u[c] + t * (u[c + 1] - u[c]) - pos) < 0.01 * np.linalg.norm(out):
            return
    ctx.fault("probe_off_the_line")
    n = len(o.probes)
    try:
        o.add_probe(pos, op["type"])
    except Exception:
        if len(o.probes) != n:
            raise Diff("place", "a refused probe stays in the list")
        return
    raise Diff("place", f"a probe {op['by']} cells beyond the end of {op['bundle']} is accepted")


def verify(a, frames, dt):
    for q, p in enumerate(a.probes):
        fr = frames[id(p)]
        got_t = np.atleast_1d(np.array(p["real"].t, float))
        val = np.array(p["real"].val, float)
        n = a.real[p["bundle"]].v.shape[0]
        got = val.reshape(-1, n) if val.size else np.zeros((0, n))
        who = f"{p['type']} probe {q} on {p['bundle']}"
        if got_t.size != len(fr) or got.shape[0] != len(fr):
            raise Diff("record", f"{who} holds {got_t.size} times and {got.shape[0]} values for {len(fr)} completed steps")
        if not fr:
            continue
        want_t = np.array([f[0] for f in fr])
        want = np.array([f[1] for f in fr])
        check_close(f"times of {who}", got_t, want_t, 1e-5 * dt + 1e-9 * want_t[-1])
        s = max(float(np.max(np.abs(want))), 1e-12)
        check_close(f"values of {who}", got, want, 1e-9 * s)
