"""C05: simulations in one process do not influence each other, nor a copy its original."""
import copy
import random

import numpy as np

from .. import docio, docs, gen, threads, waves
from ..world import Diff, World, check_close, load_src
from . import c02, c10

PROP = "C05"
LEVEL = "exploration"
COUNTS = {"quick": 260, "thorough": 20000}
RULE = ("distinct = different signature (worlds, interleaving mode, schedule seed and quantum); trivial when fewer than two "
        "worlds made progress in between each other")
COMPONENTS = {"real": ["src.mtl", "src.mtln", "src.networks", "src.dispersive", "src.probes"],
              "stub": ["thread scheduler (real threads, parked and released at executed solver lines by a seeded PRNG)",
                       "source waveforms", "clock"],
              "oracle": "each world run alone, from its own inputs"}


class DocWorld:
    """A parsed description, run again and again."""

    def __init__(self, wd):
        self.p = docio.parse_text(docs.text(wd["doc"], wd["perm"]))
        self.dt = min(b.dt for b in self.p.bundles)

    def apply(self, op):
        dt = self.dt * op.get("dtf", 1.0)
        self.p.run((op["n"] + 0.5) * dt, dt if "dtf" in op else 0)


def make(wd, src, hooks=None):
    return DocWorld(wd) if "doc" in wd else World(wd, src, drive="real", hooks=hooks)


def one(rng, small):
    if rng.random() < 0.25:
        rich = rng.random() < 0.3 and not small
        return {"doc": docs.generate(rng, shields=rich, dispersive=rich, steps=20), "perm": rng.choice([None, rng.randrange(10 ** 6)]),
                "ops": [{"op": "run", "n": rng.choice([3, 6] if small else [6, 20])} for _ in range(rng.choice([1, 2]))]}
    if rng.random() < 0.4:
        b = gen.single(rng, cells=rng.randint(2, 5 if small else 8))
        dt = gen.dt_of(b["nodes"], b["ndiv"], b["levels"][0])
        if rng.random() < 0.3:
            b["levels"][0][0]["lumped"] = []
            gen.lumped(rng, b, dt, set(), 0, b["levels"][0][0]["lumped"].append)
        gen.add_probes(rng, b, 2)
        scn = {"bundles": [b], "nets": [], "dt": dt}
        ops = [{"op": "source", "bundle": "line", "end": e, "cond": c, "src": waves.rand(rng, 40 * dt)}
               for e in (0, -1) for c in range(b["levels"][0][0]["n"]) if rng.random() < 0.6 or (e, c) == (0, 0)]
    else:
        scn = gen.net_world(rng, nb=1 if small else rng.choice([1, 2]), kinds=rng.choice(c02.SWARM[:6]), zt=(not small) and rng.random() < 0.15,
                            small=True, T_steps=40)
        ops = []
    steps = rng.choice([6, 12]) if small else rng.choice([20, 40])
    left = steps
    while left > 0:
        n = min(left, rng.choice([2, 5, 15]))
        op = {"op": "run", "n": n}
        if rng.random() < 0.3:
            op["dtf"] = rng.choice([1.0, 0.8, 0.5])
        ops.append(op)
        left -= n
        if rng.random() < 0.4:
            ops.append({"op": "step", "n": rng.randint(1, 3)})
        if rng.random() < 0.3:
            b = rng.choice(scn["bundles"])
            a, z = gen.two_pos(rng, b["nodes"], b["ndiv"])
            k = rng.choice(["setR", "addG", "probe"] + ([] if b["kind"] == "mtl" else ["drive"]))
            if k == "probe":
                ops.append({"op": "probe", "bundle": b["name"], "pos": a, "type": rng.choice(["voltage", "current"])})
            elif k == "drive":
                ops.append({"op": "drive", "bundle": b["name"], "cond": 0, "a": a, "b": z, "src": waves.rand(rng, 40 * scn["dt"])})
            else:
                ops.append({"op": k, "bundle": b["name"], "cond": 0, "a": a, "b": z,
                            "R" if k == "setR" else "G": gen.r3(rng.uniform(1, 50)) if k == "setR" else gen.r3(rng.uniform(1e-3, 1e-2))})
    scn["ops"] = ops
    return scn


def generate(rng, tier, index):
    mode = rng.choice(["turns", "turns", "threads", "copies"])
    n = rng.choice([2, 2, 3])
    worlds = [one(rng, mode == "threads") for _ in range(n)]
    if rng.random() < 0.5:       # the same description twice: inputs, names and probes coincide
        worlds[1] = copy.deepcopy(worlds[0])
        if rng.random() < 0.6:   # ... with another history
            for op in worlds[1]["ops"]:
                if op["op"] == "run":
                    op["n"] = max(1, op["n"] - 1)
    return {"mode": mode, "worlds": worlds, "share": rng.random() < 0.6, "turn_seed": rng.randrange(10 ** 9),
            "quantum": rng.choice([[1, 3], [1, 30], [20, 200]])}


def variants(scn):
    for a in range(len(scn["worlds"])):
        if len(scn["worlds"]) > 2:
            s = copy.deepcopy(scn)
            del s["worlds"][a]
            yield s
    for a, wd in enumerate(scn["worlds"]):
        size = len(wd["ops"])
        chunk = max(1, size // 2)
        while chunk:
            for k in range(0, size, chunk):
                s = copy.deepcopy(scn)
                del s["worlds"][a]["ops"][k:k + chunk]
                if any(o["op"] in ("run", "step") for o in s["worlds"][a]["ops"]):
                    first = next(o for o in s["worlds"][a]["ops"] if o["op"] in ("run", "step"))
                    if first["op"] == "run":
                        yield s
            chunk //= 2
        for k, op in enumerate(wd["ops"]):
            if op.get("n", 0) > 1:
                s = copy.deepcopy(scn)
                s["worlds"][a]["ops"][k]["n"] = op["n"] // 2
                yield s
    if scn["share"]:
        s = copy.deepcopy(scn)
        s["share"] = False
        yield s


class Share:
    """Hands the very same input objects to every world, and checks nobody changes them."""

    def __init__(self):
        self.pool = {}
        self.orig = {}

    def __call__(self, key, x):
        if isinstance(x, float):
            return x
        if key not in self.pool:
            self.pool[key] = x
            self.orig[key] = copy.deepcopy(x)
        return self.pool[key]

    def check(self):
        for k, x in self.pool.items():
            o = self.orig[k]
            same = np.array_equal(x, o) if isinstance(x, np.ndarray) else x == o
            if not same:
                raise Diff("isolation", f"an input handed to the constructors was changed: {k[0]} {k[1][:80]} is now {str(x)[:80]}")


def outcome(w):
    if isinstance(w, DocWorld):
        names = sorted(w.p.probes)
        return ({b.name: (b.v.copy(), b.i.copy()) for b in w.p.bundles},
                [(np.array(w.p.probes[n].t, float), np.array(w.p.probes[n].val, float)) for n in names], names)
    return c10.state(w), c10.recorded(w), None


def units(ops):
    """Operations split into small turns (a run stays whole: it is one call)."""
    return list(ops)


def execute(scn, ctx):
    src = load_src()
    mode = scn["mode"]
    alone = []
    for wd in scn["worlds"]:
        w = make(wd, src)
        for op in wd["ops"]:
            w.apply(op)
        alone.append(outcome(w))
        ctx.steps += 2 * sum(o.get("n", 0) for o in wd["ops"])
    share = Share() if scn["share"] else None
    hooks = {"share": share} if share else None
    rng = random.Random(scn["turn_seed"])
    ctx.shape(mode, scn["turn_seed"], scn["quantum"])
    if mode == "threads":
        got = [None] * len(scn["worlds"])

        def body(k):
            def f():
                wd = scn["worlds"][k]
                w = make(wd, src, hooks)
                for op in wd["ops"]:
                    w.apply(op)
                got[k] = outcome(w)
            return f
        sch = threads.Scheduler(scn["turn_seed"], [body(k) for k in range(len(scn["worlds"]))], scn["quantum"])
        errs = sch.run()
        ctx.fault("thread_switch", sch.switches)
        ctx.event("switches", sch.switches, sch.trace[:50])
        for e in errs:
            if e is not None:
                raise e
        ctx.nontrivial = sch.switches > 1
    else:
        ws = [None] * len(scn["worlds"])
        pos = [0] * len(ws)
        live = list(range(len(ws)))
        last = None
        turns = 0
        while live:
            k = rng.choice(live)
            wd = scn["worlds"][k]
            if ws[k] is None:
                ws[k] = make(wd, src, hooks)
            elif pos[k] < len(wd["ops"]):
                if mode == "copies" and "doc" not in wd and rng.random() < 0.5:
                    copy_event(ws[k], wd, pos[k], rng, ctx)
                ws[k].apply(wd["ops"][pos[k]])
                pos[k] += 1
            if pos[k] >= len(wd["ops"]):
                live.remove(k)
            if last is not None and last != k:
                turns += 1
            last = k
        ctx.fault("turn_switch", turns)
        ctx.nontrivial = turns > 0
        got = [outcome(w) for w in ws]
    if share:
        share.check()
        ctx.hit("shared_inputs")
    for k, ((s0, r0, n0), (s1, r1, n1)) in enumerate(zip(alone, got)):
        who = f"world {k} ({mode})"
        if n0 != n1 or "doc" in scn["worlds"][k] and n1 != sorted(q["name"] for q in docs.render(scn["worlds"][k]["doc"], scn["worlds"][k]["perm"])["model"].get("probes", [])):
            raise Diff("isolation", f"{who} has the probes {n1}, alone it has {n0}")
        c10.same(f"{who} against the same world alone", s1, s0, 1e-12)
        for q, ((t0, v0), (t1, v1)) in enumerate(zip(r0, r1)):
            check_close(f"times of probe {q} of {who}", t1, t0, 1e-12 * (abs(t0[-1]) if len(t0) else 1))
            check_close(f"values of probe {q} of {who}", v1, v0, 1e-12 * max(float(np.max(np.abs(v0))) if v0.size else 0, 1e-12))
        for n in sorted(s1):
            ctx.event(n, s1[n][0], s1[n][1])


def copy_event(w, wd, k, rng, ctx):
    """Copy the running simulation; either go on with the copy, or let the copy run wild and drop it."""
    dup = copy.deepcopy(w.sim)
    if rng.random() < 0.5:
        old = w.sim
        c10.adopt(w, wd, dup)
        # the abandoned original keeps running: the copy must not notice
        wild(old, w.single, rng)
        ctx.fault("restart_from_copy")
    else:
        wild(dup, w.single, rng)
        ctx.fault("copy_runs_wild")


def wild(sim, single, rng):
    n = rng.randint(1, 4)
    sim.run_until((n + 0.5) * sim.dt)
