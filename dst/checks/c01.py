"""C01: a stand-alone line follows the discrete line equations through any history."""
from .. import gen, waves
from ..world import World, load_src

PROP = "C01"
LEVEL = "exploration"
COUNTS = {"quick": 900, "thorough": 60000}
TOL = 1e-7
RULE = ("distinct = different signature (conductors, cells, segments, kind of terminations, sequence of operations with "
        "their targets); a run counts as trivial when no voltage above 1e-9 V ever appears")
COMPONENTS = {"real": ["src.mtl.MTL", "src.dispersive", "src.probes", "src.utils"],
              "stub": ["source waveforms (simulated environment)", "clock (time step chosen by the simulator)"],
              "oracle": "dst/ref.py leapfrog model written from the line equations"}


def random_ops(rng, scn, dt, segs, used):
    b = scn["bundles"][0]
    n = b["levels"][0][0]["n"]
    T = 150 * dt
    ops = []

    def edits(p):
        while rng.random() < p:
            k = rng.choice(["source", "source", "setR", "addG", "probe", "lumped"])
            c = rng.randrange(n)
            at = lambda: gen.a_pos(rng, b["nodes"], b["ndiv"])
            if k == "source":
                ops.append({"op": "source", "bundle": "line", "end": rng.choice([0, -1]), "cond": c, "src": waves.rand(rng, T)})
            elif k in ("setR", "addG"):
                a, z = gen.two_pos(rng, b["nodes"], b["ndiv"])
                op = {"op": k, "bundle": "line", "cond": c, "a": a, "b": z}
                if rng.random() < 0.3:
                    op["point"] = True
                    op["b"] = op["a"]
                if k == "setR":
                    op["R"] = gen.r3(rng.choice([1, 20, 500]) * rng.uniform(0.2, 2))
                else:
                    op["G"] = gen.r3(rng.choice([1e-3, 1e-2]) * rng.uniform(0.2, 2))
                ops.append(op)
            elif k == "probe":
                ops.append({"op": "probe", "bundle": "line", "pos": at(), "type": rng.choice(["voltage", "current"])})
            elif k == "lumped" and scn.get("dispersive"):
                gen.lumped(rng, b, dt, used, c, lambda d: ops.append({"op": "lumped", "bundle": "line", **d}))

    edits(0.5)
    ops.append({"op": "source", "bundle": "line", "end": rng.choice([0, -1]), "cond": rng.randrange(n), "src": waves.rand(rng, T)})
    f = rng.choice([1.0, 0.9, 0.5])
    for s in range(segs):
        op = {"op": "run", "n": rng.choice([0, 1, 2, 7, 20, 40, 60])}
        if rng.random() < 0.02 and not scn.get("dispersive") and sum(b["ndiv"]) * n < 16:
            op["n"] = rng.choice([300, 700, 1100, 2300])             # now and then a long run
        if rng.random() < (0.5 if s == 0 else 0.4):
            f = rng.choice([1.0, 0.98, 0.7, 0.45, 0.2])
            op["dtf"] = f
            op["how"] = rng.choice(["set", "attr"])
            if op["how"] == "set" and op["n"] == 0:
                op["how"] = "attr"
        ops.append(op)
        if rng.random() < 0.3:
            ops.append({"op": "step", "n": rng.randint(1, 5)})
        if s < segs - 1:
            k = len(ops)
            edits(0.35)
            if rng.random() < 0.5 and all(o["op"] != "lumped" for o in ops[k:]):      # an edit counts from the next step on
                ops.append({"op": "step", "n": rng.randint(1, 7)})
    return ops


def generate(rng, tier, index):
    b = gen.single(rng)
    scn = {"bundles": [b], "nets": [], "dispersive": rng.random() < 0.3}
    gen.add_probes(rng, b)
    dt = gen.dt_of(b["nodes"], b["ndiv"], b["levels"][0])
    used = set()
    if scn["dispersive"]:
        ln = b["levels"][0][0]
        ln["lumped"] = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            gen.lumped(rng, b, dt, used, rng.randrange(ln["n"]), ln["lumped"].append)
    scn["ops"] = random_ops(rng, scn, dt, rng.choice([1, 2, 2, 3, 4]), used)
    return scn


def execute(scn, ctx):
    w = World(scn, load_src())
    b = scn["bundles"][0]
    ctx.shape(b["levels"][0][0]["n"], sum(b["ndiv"]), len(b["ndiv"]), str(b["zs"]), str(b["zl"]))
    for op in scn["ops"]:
        w.apply(op)
        ctx.event(op["op"])
        ctx.shape(op["op"], op.get("n"), op.get("dtf"), op.get("cond"), op.get("end"))
        if op["op"] == "run":
            ctx.fault("time_step_change" if op.get("dtf") else "pause_and_resume")
            w.compare_probes(TOL)
        if op["op"] in ("run", "step"):
            w.compare(TOL, f"after {w.steps} steps")
            ctx.state(w.real)
        elif op["op"] != "probe":
            ctx.fault("live_edit_" + op["op"])
    w.finish(ctx)
