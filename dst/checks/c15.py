"""C15: an incident field drives each cell and node of the lit stretch with the local value of the field."""
import numpy as np

from .. import docio, docs, fields, gen, waves
from ..world import Diff, World, check_close, load_src
from . import c02, c13

PROP = "C15"
LEVEL = "exploration"
COUNTS = {"quick": 260, "thorough": 12000}
RULE = ("distinct = different signature (mode, structure, form of the fields, lit stretches, history); trivial when no voltage above "
        "1e-9 V ever appears")
COMPONENTS = {"real": ["src.mtl.Field", "src.mtl.MTL.add_external_field", "src.mtl.MTLD.add_external_field", "src.mtln", "src.networks", "src.jsonParser.Parser.runWith*"],
              "stub": ["clock", "source waveforms"],
              "oracle": "the reference model with the field sampled by independent quadrature; nothing at all happens in a static curl-free field"}
TOL = 1e-6


def window(rng, b):
    u = gen.geometry(b["nodes"], b["ndiv"])[0]
    a, z = sorted(rng.sample(range(len(u)), 2))
    return [[float(x) for x in u[a]], [float(x) for x in u[z]]]


def a_field(rng, b, dt, steps, gradient=False, win=None):
    n = sum(ln["n"] for ln in b["levels"][0])
    dist = []
    for _ in range(n):
        h = round(rng.uniform(0.005, 0.08), 4)
        k = rng.random()
        if k < 0.5:
            d = [0.0, 0.0, 0.0]
            d[rng.randrange(3)] = rng.choice([h, -h])
        elif k < 0.95:
            d = [round(rng.uniform(-1, 1) * h, 5) for _ in range(3)]
        else:
            d = [0.0, 0.0, 0.0]
        dist.append(d)
    op = {"op": "field", "bundle": b["name"], "field": fields.rand(rng, dt, steps, gen.r3, gradient), "dist": dist}
    if rng.random() < 0.3 and not gradient:
        op["taper"] = round(rng.uniform(-0.5, 1.0), 2)
    if win if win is not None else rng.random() < 0.4:
        op["window"] = window(rng, b)
    return op


def history(rng, steps):
    ops = []
    left = steps
    while left > 0:
        n = min(left, rng.choice([4, 12, 30]))
        op = {"op": "run", "n": n}
        if rng.random() < 0.3:
            op["dtf"] = rng.choice([1.0, 0.8, 0.5])
        ops.append(op)
        left -= n
        if rng.random() < 0.3:
            ops.append({"op": "step", "n": rng.randint(1, 3)})
    return ops


def generate(rng, tier, index):
    mode = rng.choice(["line", "line", "net", "net", "quiet", "doc"])
    steps = rng.choice([12, 30, 45])
    if mode == "quiet":
        if rng.random() < 0.5:
            b = gen.single(rng, cells=rng.randint(2, 7), nmax=2)
            scn = {"bundles": [b], "nets": [], "dt": gen.dt_of(b["nodes"], b["ndiv"], b["levels"][0])}
        else:
            scn = gen.net_world(rng, kinds=rng.choice(c02.SWARM[:6]), zt=rng.random() < 0.3, small=True, T_steps=steps)
            for n in scn["nets"]:
                for lv in n["levels"]:
                    for e in lv["els"]:
                        e["src"] = None
        ops = []
        for b in scn["bundles"]:
            ops.append(a_field(rng, b, scn["dt"], steps, gradient=True, win=False))
            ops[-1]["field"]["g"] = {"t0": 0.0, "s": 1e6}        # does not change with time
        hist = history(rng, steps)
        return {**scn, "mode": mode, "ops": ops + ([{"op": "run", "n": 0}] if hist[0]["op"] == "step" else []) + hist}
    if mode == "doc":
        doc = docs.generate(rng, shields=rng.random() < 0.4, dispersive=False, steps=30)
        f = rng.choice([None, 1.0, 0.7])
        b = rng.choice(doc["bundles"])
        op = a_field(rng, b, doc["dt"], 30, win=True if len(doc["bundles"]) > 1 else None)
        return {"mode": mode, "doc": doc, "perm": rng.choice([None, rng.randrange(10 ** 6)]), "f": 0.9, "n": rng.choice([10, 30]), "field": op}
    if mode == "line":
        b = gen.single(rng, cells=rng.randint(1, 8), nmax=3)
        scn = {"bundles": [b], "nets": [], "dt": gen.dt_of(b["nodes"], b["ndiv"], b["levels"][0])}
        gen.add_probes(rng, b, 2)
    else:
        scn = gen.net_world(rng, nb=rng.choice([1, 1, 2]), kinds=rng.choice(c02.SWARM[:6]), zt=rng.random() < 0.3, small=True, T_steps=steps)
    dt = scn["dt"]
    ops = []
    for b in scn["bundles"]:
        if rng.random() < 0.8 or not ops:
            ops.append(a_field(rng, b, dt, steps))
            if len(scn["bundles"]) == 1:
                ops[-1]["via"] = rng.choice(["sim", "obj"])
            elif ops[-1].get("window"):
                ops[-1]["via"] = rng.choice(["sim", "obj"])
    if mode == "line" and rng.random() < 0.3:
        ops[0]["field"] = fields.rand_plane(rng, dt, steps, gen.r3)
        ops[0].pop("window", None)
    if mode == "line" and rng.random() < 0.4:
        ops.append({"op": "source", "bundle": "line", "end": rng.choice([0, -1]), "cond": 0, "src": waves.rand(rng, steps * dt)})
    if mode == "net" and rng.random() < 0.3:
        b = rng.choice(scn["bundles"])
        a, z = gen.two_pos(rng, b["nodes"], b["ndiv"])
        ops.append({"op": "drive", "bundle": b["name"], "cond": 0, "a": a, "b": z, "src": waves.rand(rng, steps * dt)})
    hist = history(rng, steps)
    if len(hist) > 2 and rng.random() < 0.3 and mode == "line":       # another field takes over in the middle
        hist.insert(rng.randrange(1, len(hist)), a_field(rng, scn["bundles"][0], dt, steps))
        while hist[-1]["op"] == "field":
            hist.append({"op": "run", "n": 8})
    if hist[0]["op"] == "step":
        hist.insert(0, {"op": "run", "n": 0})
    scn.update({"mode": mode, "ops": ops + hist})
    return scn


def variants(scn):
    from .. import engine
    if scn["mode"] != "doc":
        yield from engine.variants(scn)
        return
    for d in docs.smaller(scn["doc"]):
        yield {**scn, "doc": d}
    if scn["n"] > 2:
        yield {**scn, "n": 2}


def execute(scn, ctx):
    if scn["mode"] == "doc":
        return doc(scn, ctx)
    w = World(scn, load_src())
    ss = any(e["k"] == "SS" for n in scn["nets"] for lv in n["levels"] for e in lv["els"])
    tol = 5e-3 if ss else TOL
    ctx.shape(scn["mode"], [[ln["n"] for lev in b["levels"] for ln in lev] for b in scn["bundles"]], [b["ndiv"] for b in scn["bundles"]])
    lit = 0.0
    for op in scn["ops"]:
        w.apply(op)
        ctx.shape(op["op"], op.get("n"), op.get("dtf"), str(op.get("window")), str(op.get("field")))
        if op["op"] == "field":
            ctx.hit("lit_stretch" if op.get("window") else "lit_whole_line")
            d = np.max(np.linalg.norm(np.array(op["dist"]), axis=1))
            e = fields.value(op["field"], w.geo(op["bundle"])[0], op["field"]["g"]["t0"], 3e8)
            lit = max(lit, d * float(np.max(np.abs(e))))
        if op["op"] == "run":
            ctx.fault("time_step_change" if op.get("dtf") else "pause_and_resume")
        if op["op"] in ("run", "step"):
            if scn["mode"] == "quiet":
                for name, o in w.real.items():
                    check_close(f"current on {name} in a static curl-free field", o.i, 0 * o.i, 1e-7 * max(lit, 1e-3))
                    check_close(f"voltage on {name} in a static curl-free field", o.v, 0 * o.v, 1e-7 * max(lit, 1e-3))
            else:
                w.compare(tol, f"after {w.steps} steps")
                if op["op"] == "run":
                    w.compare_probes(tol)
            ctx.state(w.real)
    w.finish(ctx)
    if scn["mode"] == "quiet":
        ctx.nontrivial = lit > 1e-6


def doc(scn, ctx):
    d = scn["doc"]
    ref = docs.meaning(d)
    w = World(ref, load_src(), drive="ref")
    p = docio.parse_text(docs.text(d, scn["perm"]))
    # the parser adds the field after the sources of the description: the field takes the place of what drove its cells
    order = [o for o in ref["ops"] if o["op"] != "field"]
    for op in order:
        w.apply(op)
    op = scn["field"]
    w.apply(op)
    dt = w.dt = w.dt_max * scn["f"]
    b = w.bundles[op["bundle"]]
    n = sum(ln["n"] for ln in b["levels"][0])
    dist = fields.distances(op, n, len(w.geo(op["bundle"])[0]))
    T = (scn["n"] + 0.5) * dt
    if op.get("window"):
        p.runWithLocalizedExternalField(T, dt, op["bundle"], fields.symbolic(op["field"], load_src()), dist, [np.array(x) for x in op["window"]])
    else:
        p.runWithExternalField(T, dt, fields.symbolic(op["field"], load_src()), dist)
    w.apply({"op": "run", "n": scn["n"]})
    tol = 5e-3 if docs.links(d) else TOL
    sv, si = max(w.peak_v, 1e-12), max(w.peak_i, 1e-14)
    for bb in d["bundles"]:
        obj, cols = c13.column_map(p, d, bb)
        rb = w.rb[bb["name"]].b
        check_close(f"voltage on {bb['name']}", obj.v[cols], rb.v, tol * sv)
        check_close(f"current on {bb['name']}", obj.i[cols], rb.i, tol * si)
        ctx.event(bb["name"], obj.v[cols], obj.i[cols])
    ctx.shape("doc", scn["n"], str(op), [[ln["n"] for lev in x["levels"] for ln in lev] for x in d["bundles"]])
    ctx.hit("lit_stretch" if op.get("window") else "lit_whole_line")
    if scn["perm"] is not None:
        ctx.fault("listing_order_shuffled")
    w.finish(ctx)
