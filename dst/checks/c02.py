"""C02: lines joined by junctions and terminations behave as one coupled circuit."""
from .. import gen, waves
from ..world import World, load_src, nearest, pos_xyz

PROP = "C02"
LEVEL = "exploration"
COUNTS = {"quick": 420, "thorough": 30000}
RULE = ("distinct = different signature (bundles, levels, conductors, element kinds per network, sequence of operations); "
        "a run is trivial when no voltage above 1e-9 V ever appears")
COMPONENTS = {"real": ["src.mtln.MTLN", "src.networks", "src.mtl.MTLD", "src.dispersive", "src.probes"],
              "stub": ["source waveforms (simulated environment)", "clock (time step chosen by the simulator)"],
              "oracle": "dst/ref.py: nodal analysis of the lumped circuit joined to leapfrog lines"}


def tol_of(scn):
    """The solver models an ideal connection as a very large conductance; that costs digits."""
    ss = any(e["k"] == "SS" for n in scn["nets"] for lv in n["levels"] for e in lv["els"])
    return 5e-3 if ss else 2e-7


def edit(rng, scn, dt, T):
    b = rng.choice(scn["bundles"])
    n = sum(ln["n"] for lev in b["levels"] for ln in lev)
    k = rng.choice(["drive", "drive", "setR", "addG", "probe"])
    if k == "probe":
        return {"op": "probe", "bundle": b["name"], "pos": gen.a_pos(rng, b["nodes"], b["ndiv"]), "type": rng.choice(["voltage", "current"])}
    a, z = gen.two_pos(rng, b["nodes"], b["ndiv"])
    op = {"op": k, "bundle": b["name"], "cond": rng.randrange(n), "a": a, "b": z}
    if k == "drive":
        op["src"] = waves.rand(rng, T)
    elif k == "setR":
        op["R"] = gen.r3(rng.choice([1, 20, 500]) * rng.uniform(0.2, 2))
    else:
        op["G"] = gen.r3(rng.choice([1e-3, 1e-2]) * rng.uniform(0.2, 2))
    return op


def inner(scn, op):
    """Whether an edit acts at once; leakage added at the ends of a bundle reaches its networks with the next run."""
    if op["op"] != "addG":
        return True
    b = next(b for b in scn["bundles"] if b["name"] == op["bundle"])
    u = gen.geometry(b["nodes"], b["ndiv"])[0]
    return all(0 < nearest(u, pos_xyz(op[k])) < len(u) - 1 for k in "ab")


def history(rng, scn, steps, p_edit=0.3):
    dt = scn["dt"]
    T = 1.2 * steps * dt
    ops = []
    left = steps
    while left > 0:
        while rng.random() < p_edit:
            ops.append(edit(rng, scn, dt, T))
        n = min(left, rng.choice([0, 1, 3, 12, 40, 90]))
        if rng.random() < 0.005 and not any(b.get("zt") for b in scn["bundles"]):
            n = rng.choice([300, 700, 1100])
        op = {"op": "run", "n": n}
        if rng.random() < 0.4:
            op["dtf"] = rng.choice([1.0, 0.97, 0.7, 0.45, 0.2])
        ops.append(op)
        left -= max(n, 4)
        if rng.random() < 0.25:
            if rng.random() < 0.5:
                op = edit(rng, scn, dt, T)
                if inner(scn, op):
                    ops.append(op)
            k = rng.randint(1, 6)
            ops.append({"op": "step", "n": k})
            left -= k
    return ops


SWARM = [("R",), ("R", "RR"), ("R", "C"), ("R", "LC"), ("R", "S"), ("R", "RR", "C", "LC", "S"), ("R", "C", "LC", "S", "RR", "SS")]


def generate(rng, tier, index):
    zt = rng.random() < 0.25
    scn = gen.net_world(rng, nb=1 if zt else None, kinds=rng.choice(SWARM), zt=zt, small=zt)
    scn["ops"] = history(rng, scn, rng.choice([30, 60]) if zt else rng.choice([60, 120, 200]))
    return scn


def execute(scn, ctx):
    w = World(scn, load_src())
    tol = tol_of(scn)
    for b in scn["bundles"]:
        ctx.shape([[ln["n"] for ln in lev] for lev in b["levels"]], b["ndiv"])
    for n in scn["nets"]:
        ctx.shape([sorted(e["k"] for e in lv["els"]) for lv in n["levels"]], [len(lv["lines"]) for lv in n["levels"]])
        for lv in n["levels"]:
            ctx.hit("junctions" if len(lv["lines"]) > 1 else "terminations")
    drive(w, scn, ctx, tol)
    w.finish(ctx)


def drive(w, scn, ctx, tol):
    for op in scn["ops"]:
        w.apply(op)
        ctx.event(op["op"])
        ctx.shape(op["op"], op.get("n"), op.get("dtf"), op.get("bundle"))
        if op["op"] == "run":
            ctx.fault("time_step_change" if op.get("dtf") else "pause_and_resume")
            w.compare_probes(tol)
        if op["op"] in ("run", "step"):
            w.compare(tol, f"after {w.steps} steps")
            ctx.state(w.real)
        elif op["op"] != "probe":
            ctx.fault("live_edit_" + op["op"])
