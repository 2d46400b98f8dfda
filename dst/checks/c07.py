"""C07: passive simulations never create energy."""
import numpy as np

from .. import gen, waves
from ..world import Diff, World, load_src
from . import c02

PROP = "C07"
LEVEL = "exploration"
COUNTS = {"quick": 240, "thorough": 30000}
RULE = ("distinct = different signature (structure, element kinds, operations); trivial when no energy is ever stored")
COMPONENTS = {"real": ["src.mtln.MTLN", "src.mtl.MTL", "src.mtl.MTLD", "src.networks", "src.dispersive"],
              "stub": ["source waveforms, switched off at an arbitrary instant", "clock"],
              "oracle": "energy of the staggered grid, computed from the scenario (not from the solver's coefficients)"}


def generate(rng, tier, index):
    exact = rng.random() < 0.7
    if rng.random() < 0.3:
        b = gen.single(rng, cells=rng.randint(2, 12))
        dt = gen.dt_of(b["nodes"], b["ndiv"], b["levels"][0])
        scn = {"bundles": [b], "nets": [], "dt": dt}
        if not exact:
            used = set()
            b["levels"][0][0]["lumped"] = []
            gen.lumped(rng, b, dt, used, 0, b["levels"][0][0]["lumped"].append)
    else:
        kinds = rng.choice([("R",), ("R", "RR"), ("R", "S"), ("R", "RR", "S")]) if exact else rng.choice([("R", "C"), ("R", "LC"), ("R", "RR", "C", "LC", "S")])
        scn = gen.net_world(rng, kinds=kinds, zt=False, small=rng.random() < 0.5)
        dt = scn["dt"]
    scn["exact"] = exact
    off = rng.choice([3, 10, 25, 40])
    Toff = (off - 0.5) * dt
    win = lambda s: {"k": "window", "base": s, "T": Toff} if s else None
    for n in scn["nets"]:
        for lv in n["levels"]:
            for e in lv["els"]:
                if e.get("src"):
                    e["src"] = win(e["src"])
    for b in scn["bundles"]:
        b["probes"] = []
    ops = []
    if not scn["nets"]:
        for e in (0, -1):
            for c in range(scn["bundles"][0]["levels"][0][0]["n"]):
                if rng.random() < 0.6 or (e, c) == (0, 0):
                    ops.append({"op": "source", "bundle": "line", "end": e, "cond": c, "src": win(waves.rand(rng, 50 * dt))})
    else:
        for _ in range(rng.choice([0, 0, 1])):
            b = rng.choice(scn["bundles"])
            a, z = gen.two_pos(rng, b["nodes"], b["ndiv"])
            ops.append({"op": "drive", "bundle": b["name"], "cond": 0, "a": a, "b": z, "src": win(waves.rand(rng, 50 * dt))})
    f = rng.choice([1.0, 0.95, 0.7, 0.4])
    scn["f"] = f
    scn["off"] = off
    ops.append({"op": "cut", "n": 1})
    # free evolution, with live changes that add losses only, and pauses
    left = rng.choice([60, 120, 200])
    while left > 0:
        n = min(left, rng.choice([10, 30, 70, 120]))
        op = {"op": "free", "n": n}
        ops.append(op)
        left -= n
        if rng.random() < 0.4:
            b = rng.choice(scn["bundles"])
            a, z = gen.two_pos(rng, b["nodes"], b["ndiv"])
            k = rng.choice(["setR", "addG"])
            e = {"op": k, "bundle": b["name"], "cond": 0, "a": a, "b": z}
            # a region replaces what was there: only harmless where the change adds a loss
            full = b["levels"][0][0].get("R" if k == "setR" else "G")
            if full is None:
                e["R" if k == "setR" else "G"] = gen.r3(rng.uniform(1, 50)) if k == "setR" else gen.r3(rng.uniform(1e-4, 1e-2))
                ops.append(e)
        if rng.random() < 0.3:
            ops.append({"op": "dt", "dtf": rng.choice([1.0, 0.9, 0.5, 0.3])})
    scn["ops"] = ops
    return scn


def energy(w, dt):
    """Energy stored in the lines, for voltages at t and currents at t + dt/2."""
    tot = 0.0
    scale = 0.0
    for name, rb in w.rb.items():
        b = rb.b
        v, i = w.real[name].v, w.real[name].i
        for k in range(b.N + 1):
            H = b.h[0] / 2 if k == 0 else b.h[-1] / 2 if k == b.N else b.node_len(k)
            tot += 0.5 * H * v[:, k] @ b.C[k] @ v[:, k]
        for k in range(b.N):
            tot += 0.5 * b.h[k] * i[:, k] @ (b.L[k] + b.E[k]) @ i[:, k]
            cross = 0.5 * dt * i[:, k] @ (v[:, k + 1] - v[:, k])
            tot += cross
    return tot


def execute(scn, ctx):
    src = load_src()
    w = World(scn, src)
    exact = scn["exact"]
    dt = scn["f"] * w.dt_max
    ctx.shape([[ln["n"] for lev in x["levels"] for ln in lev] for x in scn["bundles"]], [x["ndiv"] for x in scn["bundles"]],
              [sorted(e["k"] for lv in n["levels"] for e in lv["els"]) for n in scn["nets"]])
    peak = 0.0
    prev = None
    curve = []
    for op in scn["ops"]:
        k = op["op"]
        ctx.shape(k, op.get("n"), op.get("dtf"))
        if k == "cut":
            n = int(scn["off"] / scn["f"]) + 3 + op["n"]       # well past the instant at which every source stops
            sim_run(w, n, dt)
            w.steps += n
            prev = energy(w, dt)
            peak = max(peak, prev)
            curve.append(prev)
            ctx.fault("sources_cut_off")
        elif k == "dt":
            if prev is None:
                continue
            dt = op["dtf"] * w.dt_max
            ctx.fault("time_step_change")
            sim_run(w, 0, dt)
            # the energy of the staggered grid depends on the step: start a new account after one step
            w.sim.step()
            prev = energy(w, dt)
            peak = max(peak, prev)
        elif k == "free":
            if prev is None:
                continue
            sim_run(w, 0, dt)
            for _ in range(op["n"]):
                w.sim.step()
                w.steps += 1
                e = energy(w, dt)
                if not np.isfinite(e):
                    raise Diff("energy", f"the stored energy is {e!r} after {w.steps} steps")
                if prev is not None and exact:
                    if e > prev + 1e-9 * peak + 1e-40:
                        raise Diff("energy", f"with every source off, the stored energy rose from {prev:.9e} to {e:.9e} J in step {w.steps}")
                    if e < -1e-9 * peak:
                        raise Diff("energy", f"stored energy {e:.3e} J is negative")
                prev = e
                curve.append(e)
            ctx.state(w.real)
        else:
            w.apply(op)
            if k in ("setR", "addG"):
                ctx.fault("live_edit_" + k)
    if not exact and prev is not None:
        # lumped capacitors, inductors and dispersive memory hold energy the lines do not show; what
        # they can never do is feed growth: long after, the lines hold no more than twice what they held
        vmax = max(float(np.max(np.abs(o.v))) for o in w.real.values())
        a = 2 * max(curve) + sum(0.5 * e.get("C", 0.0) * (2 * vmax) ** 2 for n in scn["nets"] for lv in n["levels"] for e in lv["els"])
        for _ in range(6):
            sim_run(w, 150, dt)
            w.steps += 150
            e = energy(w, dt)
            if not e <= a + 1e-40:
                raise Diff("energy", f"with every source off, the stored energy keeps growing: {max(curve):.6e} J at most early, {e:.6e} J after {w.steps} steps")
        ctx.state(w.real)
    ctx.nontrivial = peak > 1e-30
    ctx.steps += w.steps
    ctx.sim_time += w.steps * dt


def sim_run(w, n, dt):
    if w.single:
        w.sim.dt = dt
        w.sim.run_until((n + 0.5) * dt)
    else:
        w.sim.run_until((n + 0.5) * dt, dt)
