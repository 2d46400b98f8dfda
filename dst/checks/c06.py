"""C06: nothing happens before its cause, and nothing travels faster than one cell per step."""
import copy

import numpy as np

from .. import gen, waves
from ..world import Diff, World, load_src, drive_weights
from . import c02

PROP = "C06"
LEVEL = "exploration"
COUNTS = {"quick": 400, "thorough": 30000}
RULE = ("distinct = different signature (structure, disturbed source, instant of the disturbance); trivial when the disturbance "
        "never becomes visible anywhere before the end of the run")
COMPONENTS = {"real": ["src.mtln.MTLN", "src.mtl.MTL", "src.mtl.MTLD", "src.networks", "src.dispersive"],
              "stub": ["source waveforms; a fault makes one of them deviate from an arbitrary instant on", "clock"],
              "oracle": "the same world without the disturbance; hop distance on the grid of the scenario"}


def generate(rng, tier, index):
    kind = rng.choice(["net", "net", "net", "single"])
    if kind == "single":
        b = gen.single(rng, cells=rng.randint(4, 16))
        if rng.random() < 0.3:
            used = set()
            b["levels"][0][0]["lumped"] = []
            gen.lumped(rng, b, gen.dt_of(b["nodes"], b["ndiv"], b["levels"][0]), used, 0, b["levels"][0][0]["lumped"].append)
        scn = {"bundles": [b], "nets": [], "dt": gen.dt_of(b["nodes"], b["ndiv"], b["levels"][0])}
        T = 60 * scn["dt"]
        scn["ops"] = [{"op": "source", "bundle": "line", "end": e, "cond": c, "src": waves.rand(rng, T)}
                      for e in (0, -1) for c in range(b["levels"][0][0]["n"]) if rng.random() < 0.5 or (e, c) == (0, 0)]
    else:
        zt = rng.random() < 0.15
        scn = gen.net_world(rng, nb=1 if zt else rng.choice([1, 2, 2, 3, 3]), kinds=rng.choice(c02.SWARM[:6]), zt=zt,
                            small=zt, T_steps=60)
        scn["ops"] = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            b = rng.choice(scn["bundles"])
            a, z = gen.two_pos(rng, b["nodes"], b["ndiv"])
            scn["ops"].append({"op": "drive", "bundle": b["name"], "cond": rng.randrange(sum(l["n"] for lev in b["levels"] for l in lev)),
                               "a": a, "b": z, "src": waves.rand(rng, 60 * scn["dt"])})
    for b in scn["bundles"]:
        b["probes"] = []
    scn["f"] = rng.choice([1.0, 1.0, 0.8, 0.5])
    scn["steps"] = rng.choice([25, 45, 70])
    targets = sites(scn)
    if not targets:
        scn["ops"] = []
        b = scn["bundles"][0]
        e = next(e for n in scn["nets"] for lv in n["levels"] for e in lv["els"] if e["k"] in ("R", "LC"))
        e["src"] = waves.rand(rng, 60 * scn["dt"])
        targets = sites(scn)
    t = rng.choice(targets)
    at = rng.choice([0.0, 1.0, 2.0, 3.5, rng.uniform(0, 20), rng.uniform(0, 20), float(rng.randint(0, 20))])
    scn["faults"] = [{"kind": "source_deviates", "site": t, "at": at, "amp": rng.choice([1.0, 1e3, -7.0])}]
    return scn


def sites(scn):
    out = []
    for a, n in enumerate(scn["nets"]):
        for b, lv in enumerate(n["levels"]):
            for c, e in enumerate(lv["els"]):
                if e.get("src"):
                    out.append(["net", a, b, c])
    for a, op in enumerate(scn["ops"]):
        out.append(["op", a])
    return out


def disturbed(scn, f, dt):
    s = copy.deepcopy(scn)
    site = f["site"]
    T = f["at"] * dt

    def mod(spec):
        return {"k": "after", "base": spec, "extra": {"k": "ramp", "A": f["amp"], "tr": dt * 1e-3}, "T": T}
    if site[0] == "net":
        e = s["nets"][site[1]]["levels"][site[2]]["els"][site[3]]
        e["src"] = mod(e["src"])
    else:
        s["ops"][site[1]]["src"] = mod(s["ops"][site[1]]["src"])
    return s


def distances(scn, w, f):
    """Steps a disturbance needs to reach every voltage node, counted from the first step that can read it."""
    geo = {b["name"]: w.geo(b["name"]) for b in scn["bundles"]}
    INF = 10 ** 9
    d = {}
    for name, (u, h) in geo.items():
        for k in range(len(u)):
            d[(name, k)] = INF
    joins = []
    for a, n in enumerate(scn["nets"]):
        for b, lv in enumerate(n["levels"]):
            joins.append(((a, b), [(ln["bundle"], 0 if ln["side"] == "S" else len(geo[ln["bundle"]][1])) for ln in lv["lines"]]))
    site = f["site"]
    if site[0] == "net":
        for key, ends in joins:
            if key == (site[1], site[2]):
                for e in ends:
                    d[e] = 0
    else:
        op = scn["ops"][site[1]]
        u, h = geo[op["bundle"]]
        if op["op"] == "source":
            d[(op["bundle"], 0 if op["end"] == 0 else len(h))] = 0
        else:
            for cell in drive_weights(u, h, op["a"], op["b"]):
                d[(op["bundle"], cell)] = 1
                d[(op["bundle"], cell + 1)] = 1
    changed = True
    while changed:
        changed = False
        for name, (u, h) in geo.items():
            for k in list(range(1, len(u))) + list(range(len(u) - 2, -1, -1)):
                for j in (k - 1, k + 1):
                    if 0 <= j < len(u) and d[(name, j)] + 1 < d[(name, k)]:
                        d[(name, k)] = d[(name, j)] + 1
                        changed = True
        for _, ends in joins:
            m = min(d[e] for e in ends)
            for e in ends:
                if d[e] > m:
                    d[e] = m
                    changed = True
    return d


def execute(scn, ctx):
    src = load_src()
    f = scn["faults"][0] if scn["faults"] else None
    a = World(scn, src, drive="real")
    dt = scn["f"] * a.dt_max
    other = disturbed(scn, f, dt) if f else scn
    b = World(other, src, drive="real")
    ctx.shape([[ln["n"] for lev in x["levels"] for ln in lev] for x in scn["bundles"]], [x["ndiv"] for x in scn["bundles"]], scn["faults"])
    for op, op2 in zip(scn["ops"], other["ops"]):
        a.apply(op)
        b.apply(op2)
    d = distances(scn, a, f) if f else None
    for w in (a, b):
        w.op_run({"n": 0, "dtf": scn["f"]})
    # a step that starts at t reads network and end sources up to t, distributed drives up to t + dt/2
    half = 0.5 if f and f["site"][0] == "op" and scn["ops"][f["site"][1]]["op"] == "drive" else 0.0
    first = None
    seen = False
    pv, pi = 1e-12, 1e-14
    for n in range(scn["steps"]):
        a.sim.step()
        b.sim.step()
        if f and first is None and n + half > f["at"] - 1e-6:
            first = n
            ctx.fault("source_deviates")
        for name in a.real:
            va, vb, ia, ib = a.real[name].v, b.real[name].v, a.real[name].i, b.real[name].i
            if not (np.all(np.isfinite(va)) and np.all(np.isfinite(ia))):
                raise Diff("value", f"fields of {name} are not finite after {n + 1} steps")
            pv, pi = max(pv, float(np.max(np.abs(va)))), max(pi, float(np.max(np.abs(ia))))
            dv, di = np.max(np.abs(va - vb), axis=0), np.max(np.abs(ia - ib), axis=0)
            tv, ti = 1e-11 * pv, 1e-11 * pi
            for k in range(len(dv)):
                reach = first is not None and n - first >= d[(name, k)]
                if dv[k] > tv and not reach:
                    raise Diff("causality", f"after {n + 1} steps the voltage at node {k} of {name} already feels a source that deviates "
                               f"from step {f['at'] if f else None} on (first readable in step {first}, {d[(name, k)] if d else None} steps away)")
                seen |= bool(dv[k] > tv)
            for k in range(len(di)):
                reach = first is not None and (n - first >= min(d[(name, k)], d[(name, k + 1)]) or
                                               n - first >= max(d[(name, k)], d[(name, k + 1)]) - 1)
                if di[k] > ti and not reach:
                    raise Diff("causality", f"after {n + 1} steps the current in cell {k} of {name} already feels a source that deviates "
                               f"from step {f['at'] if f else None} on (first readable in step {first})")
        ctx.state(b.real)
    if seen:
        ctx.hit("disturbance_became_visible")
    ctx.nontrivial = seen
    ctx.steps += 2 * scn["steps"]
    ctx.sim_time += 2 * scn["steps"] * dt
