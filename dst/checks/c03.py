"""C03: one clock - however a simulation is cut into runs and single steps, all parts stay in step."""
import math

import numpy as np

from .. import gen
from ..world import Diff, World, check_close, load_src, RefBundle
from . import c02

PROP = "C03"
LEVEL = "exploration"
COUNTS = {"quick": 420, "thorough": 30000}
RULE = ("distinct = different signature (structure, way the history is cut into runs and steps, time steps chosen); "
        "trivial when nothing is ever driven")
COMPONENTS = {"real": ["src.mtln.MTLN", "src.mtl.MTL", "src.mtl.MTLD", "src.networks", "src.probes"],
              "stub": ["source waveforms, tapped to record the instants at which they are read", "clock"],
              "oracle": "the same world advanced in one piece; arithmetic of the simulated clock"}


def generate(rng, tier, index):
    if rng.random() < 0.35:
        b = gen.single(rng, cells=rng.randint(2, 10))
        gen.add_probes(rng, b)
        scn = {"bundles": [b], "nets": [], "dt": gen.dt_of(b["nodes"], b["ndiv"], b["levels"][0])}
        from .. import waves
        scn["ops"] = [{"op": "source", "bundle": "line", "end": e, "cond": c, "src": waves.rand(rng, 80 * scn["dt"])}
                      for e in (0, -1) for c in range(b["levels"][0][0]["n"]) if rng.random() < 0.6 or (e, c) == (0, 0)]
    else:
        zt = rng.random() < 0.15
        scn = gen.net_world(rng, nb=1 if zt else None, kinds=rng.choice(c02.SWARM), zt=zt, small=True)
        scn["ops"] = []
    # phases with a constant time step; each phase is cut into chunks
    phases = []
    for k in range(rng.choice([1, 1, 2, 3])):
        f = None if k == 0 and rng.random() < 0.5 else rng.choice([1.0, 0.9, 0.6, 0.3])
        chunks = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            if rng.random() < 0.25 and chunks:
                chunks.append({"how": "step", "n": rng.randint(1, 6)})
            else:
                chunks.append({"how": "run", "n": rng.choice([0, 1, 2, 5, 13, 30]) if rng.random() < 0.99 else rng.choice([140, 300, 1100]), "frac": rng.choice([0.05, 0.3, 0.5, 0.95]),
                               "again": rng.random() < 0.5})
        phases.append({"f": f, "chunks": chunks, "how": rng.choice(["run", "set"])})
    scn["schedule"] = phases
    return scn


def variants(scn):
    import copy
    from .. import engine
    for a, ph in enumerate(scn["schedule"]):
        if len(scn["schedule"]) > 1:
            s = copy.deepcopy(scn)
            del s["schedule"][a]
            yield s
        for b, ch in enumerate(ph["chunks"]):
            if len(ph["chunks"]) > 1:
                s = copy.deepcopy(scn)
                del s["schedule"][a]["chunks"][b]
                if s["schedule"][a]["chunks"][0]["how"] == "run":
                    yield s
            if ch["n"] > 1:
                s = copy.deepcopy(scn)
                s["schedule"][a]["chunks"][b]["n"] = ch["n"] // 2
                yield s
    for s in engine.variants(dict(scn, schedule=None)):
        s["schedule"] = scn["schedule"]
        yield s


class Tap:
    """Records the instants at which the solver reads its sources."""

    def __init__(self):
        self.seen = []

    def __call__(self, f):
        seen = self.seen

        def src(t):
            seen.append(float(t))
            return f(t)
        return src


def run(sim, single, n, frac, dt, give):
    T = (n + frac) * dt
    if single:
        sim.run_until(T)
    elif give:
        sim.run_until(T, dt)
    else:
        sim.run_until(T)


def set_dt(w, dt, ph, n):
    if w.single:
        if ph["how"] == "set" and n > 0:
            w.sim.set_time_step(n, n * dt)
        else:
            w.sim.dt = dt


def execute(scn, ctx):
    src = load_src()
    tap = Tap()
    a = World(scn, src, drive="real", hooks={"wave": tap})      # cut into chunks
    b = World(scn, src)                                          # one piece per phase, next to the reference on one clock
    own = {x["name"]: RefBundle(x).dt_max() for x in scn["bundles"]}
    dt = min(own.values())
    if not math.isclose(a.sim.dt, dt, rel_tol=1e-9):
        raise Diff("clock", f"time step before any run is {a.sim.dt!r}, the smallest stable step of the lines is {dt!r}")
    for op in scn["ops"]:
        a.apply(op)
        b.apply(op)
    ctx.shape([[ln["n"] for lev in x["levels"] for ln in lev] for x in scn["bundles"]], [x["ndiv"] for x in scn["bundles"]])
    now = 0.0
    total = 0
    loss = any(e["k"] == "SS" for n in scn["nets"] for lv in n["levels"] for e in lv["els"])
    for ph in scn["schedule"]:
        if ph["f"] is not None:
            dt = ph["f"] * a.dt_max
            ctx.fault("time_step_change")
        frames = []
        start = now
        n_all = sum(c["n"] for c in ph["chunks"])
        # the first chunk of a phase is always a run: it is what makes a new step take effect
        for q, ch in enumerate(ph["chunks"]):
            ctx.shape(ph["f"], ch["how"], ch["n"])
            tap.seen.clear()
            t_from = now
            if ch["how"] == "run" or q == 0:
                give = ph["f"] is not None and (q == 0 or ch.get("again"))
                if give:
                    set_dt(a, dt, ph, ch["n"])
                run(a.sim, a.single, ch["n"], ch.get("frac", 0.5), dt, give)
                frames = []
                ctx.fault("pause_and_resume")
            else:
                for _ in range(ch["n"]):
                    a.sim.step()
                ctx.fault("single_steps")
            for k in range(ch["n"]):
                now += dt
                frames.append(now)
            check_reads(tap.seen, t_from, dt, ch["n"])
            check_probes(a, frames, dt)
            t_sim = a.sim.time
            if not math.isclose(t_sim, now, rel_tol=1e-9, abs_tol=1e-6 * dt):
                raise Diff("clock", f"simulated time is {t_sim!r} after steps that add up to {now!r}")
            ctx.event("chunk", ch["n"], t_sim)
        op = {"op": "run", "n": n_all, "how": "set" if ph["how"] == "set" and n_all else "attr"}
        if ph["f"] is not None:
            op["dtf"] = ph["f"]
        b.apply(op)
        b.compare(c02.tol_of(scn), f"after {total + n_all} steps of all parts on one clock")
        total += n_all
        for name in a.real:
            x, y = a.real[name], b.real[name]
            for what in ("v", "i"):
                g, h = getattr(x, what), getattr(y, what)
                check_close(f"{what} of {name} after {total} steps, cut into pieces against one piece", g, h,
                            (1e-6 if loss else 1e-9) * max(float(np.max(np.abs(h))), 1e-12))
        ctx.state(a.real)
    ctx.steps += 2 * total
    ctx.sim_time += 2 * now
    ctx.nontrivial = total > 0


def check_reads(seen, t0, dt, n):
    """Sources are only ever read at instants of the grid that the steps of this piece may look at."""
    for t in seen:
        x = (t - t0) / dt
        if abs(2 * x - round(2 * x)) > 1e-4 or x < -2.01 or x > n - 1 + 0.51:
            raise Diff("clock", f"a source was read at {t!r}, which is step {x:+.4f} of a piece of {n} steps starting at {t0!r}")
    if n and seen and max(seen) < t0 + (n - 1 - 1e-4) * dt:
        raise Diff("clock", f"no source was read at the start of the last step ({t0 + (n - 1) * dt!r})")


def check_probes(w, frames, dt):
    for p in w.probes:
        want = np.array(frames) + (dt / 2 if p["type"] == "current" else 0.0)
        got = np.array(p["real"].t, float)
        if got.shape != want.shape:
            raise Diff("clock", f"a {p['type']} probe on {p['bundle']} holds {got.size} time stamps after {want.size} steps")
        check_close(f"time stamps of a {p['type']} probe on {p['bundle']}", got, want, 1e-5 * dt + 1e-9 * (want[-1] if want.size else 0))
