"""C11: a clean copy, and a repeated run of a parsed description, start afresh whatever happened before."""
import copy

import numpy as np

from .. import docio, docs, faults, gen, waves
from ..world import Diff, World, check_close, load_src
from . import c01, c10, c13

PROP = "C11"
LEVEL = "exploration"
COUNTS = {"quick": 420, "thorough": 25000}
RULE = ("distinct = different signature (mode, structure, history before the fresh start, place of the interrupt, history after it); "
        "trivial when nothing had happened before the fresh start")
COMPONENTS = {"real": ["src.mtl.MTL.create_clean_copy", "src.mtl", "src.mtln", "src.networks", "src.dispersive", "src.probes", "src.jsonParser.Parser.run"],
              "stub": ["source waveforms (API mode)", "clock", "interrupts (raised at an executed solver line)"],
              "oracle": "a line newly built with the same edits, or a fresh parse of the same description run once"}


def generate(rng, tier, index):
    if rng.random() < 0.5:
        b = gen.single(rng, cells=rng.randint(2, 10))
        scn = {"bundles": [b], "nets": [], "dispersive": rng.random() < 0.4}
        gen.add_probes(rng, b, rng.choice([0, 1, 2]))
        dt = gen.dt_of(b["nodes"], b["ndiv"], b["levels"][0])
        used = set()
        if scn["dispersive"]:
            ln = b["levels"][0][0]
            ln["lumped"] = []
            for _ in range(rng.choice([1, 2])):
                gen.lumped(rng, b, dt, used, rng.randrange(ln["n"]), ln["lumped"].append)
        before = c01.random_ops(rng, scn, dt, rng.choice([1, 1, 2, 3]), used)
        after = c01.random_ops(rng, scn, dt, rng.choice([1, 2]), used)
        later = c01.random_ops(rng, scn, dt, 1, used) if rng.random() < 0.7 else []
        scn.update({"mode": "copy", "ops": before, "after": after, "later": later, "later_first": rng.random() < 0.5, "generations": rng.choice([1, 1, 2]),
                    "interrupt": {"n": rng.choice([1, 3, 6]), "at": rng.randrange(1, 2500), "what": rng.choice(["interrupt", "memory", "error"])}
                    if rng.random() < 0.4 else None})
        return scn
    rich = rng.random() < 0.7
    doc = docs.generate(rng, shields=rich, dispersive=rich, steps=40)
    runs = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        r = {"n": rng.choice([0, 1, 8, 20, 40]), "f": rng.choice([None, None, 1.0, 0.8, 0.4])}
        if rng.random() < 0.3:
            r["interrupt"] = {"at": rng.randrange(1, 6000), "what": rng.choice(["interrupt", "memory", "error"])}
        runs.append(r)
    return {"mode": "doc", "doc": doc, "perm": rng.choice([None, rng.randrange(10 ** 6)]), "runs": runs}


def variants(scn):
    from .. import engine
    if scn["mode"] == "copy":
        yield from engine.variants(scn)
        for k in range(len(scn["after"])):
            yield {**scn, "after": scn["after"][:k] + scn["after"][k + 1:]}
        for k in range(len(scn["later"])):
            yield {**scn, "later": scn["later"][:k] + scn["later"][k + 1:]}
        if scn["interrupt"]:
            yield {**scn, "interrupt": None}
        if scn["generations"] > 1:
            yield {**scn, "generations": 1}
        return
    for k in range(len(scn["runs"])):
        if len(scn["runs"]) > 2:
            yield {**scn, "runs": scn["runs"][:k] + scn["runs"][k + 1:]}
        if scn["runs"][k].get("interrupt"):
            yield {**scn, "runs": [{q: v for q, v in r.items() if not (j == k and q == "interrupt")} for j, r in enumerate(scn["runs"])]}
    for d in docs.smaller(scn["doc"]):
        yield {**scn, "doc": d}


def broken(act, spec, ctx):
    """Run `act`, interrupted at one executed line of the solver."""
    t = faults.Tracer(spec["at"], spec["what"])
    try:
        with t:
            act()
    except BaseException:
        if t.raised is None:
            raise
    if t.raised is not None:
        ctx.fault(f"{spec['what']}_mid_step")
        ctx.hit("interrupted_in_" + t.where[1])
        return True
    return False


def execute(scn, ctx):
    (copies if scn["mode"] == "copy" else documents)(scn, ctx)


EDITS = ("source", "setR", "addG", "probe", "lumped")


def copies(scn, ctx):
    src = load_src()
    w = World(scn, src, drive="real")
    for op in scn["ops"]:
        w.apply(op)
    ctx.shape("copy", w.sim.v.shape, [(o["op"], o.get("n")) for o in scn["ops"] + scn["after"]], bool(scn["interrupt"]), scn["generations"])
    ran = sum(o.get("n", 0) for o in scn["ops"])
    hit = False
    if scn["interrupt"]:
        dt = w.sim.dt
        hit = broken(lambda: w.sim.run_until((scn["interrupt"]["n"] + 0.5) * dt), scn["interrupt"], ctx)
    edits = [o for o in scn["ops"] if o["op"] in EDITS]
    for g in range(scn["generations"]):
        before = c10.state(w), c10.recorded(w), float(w.sim.time), float(w.sim.dt), len(w.sim.probes)
        c = World(scn, src, drive="real")
        c10.adopt_copy(c, w, scn, w.sim.create_clean_copy())
        later = scn["later"] if g == 0 and not scn["interrupt"] else []
        if scn["later_first"]:           # the original goes on before its copy starts
            for op in later:
                w.apply(op)
            before = c10.state(w), c10.recorded(w), float(w.sim.time), float(w.sim.dt), len(w.sim.probes)
        fresh = World(scn, src, drive="real")
        for o in edits:
            fresh.apply(o)
        fresh.sim.dt = fresh.dt = c.dt = float(c.sim.dt)
        if c.sim.time != 0 or np.any(c.sim.v) or np.any(c.sim.i):
            raise Diff("not clean", f"the copy starts at {c.sim.time} with peak voltage {np.max(np.abs(c.sim.v))}")
        for op in scn["after"]:
            c.apply(op)
            fresh.apply(op)
            if op["op"] in ("run", "step"):
                same(f"clean copy (generation {g + 1})", c, fresh)
                ctx.steps += 2 * op["n"]
                ctx.sim_time += 2 * op["n"] * c.dt
        after = c10.state(w), c10.recorded(w), float(w.sim.time), float(w.sim.dt), len(w.sim.probes)
        c10.same("original after its clean copy ran", after[0], before[0], 0)
        if after[2:] != before[2:]:
            raise Diff("original", f"time, step and number of probes of the original went from {before[2:]} to {after[2:]}")
        for q, ((t0, v0), (t1, v1)) in enumerate(zip(before[1], after[1])):
            check_close(f"times of probe {q} of the original", t1, t0, 0)
            check_close(f"values of probe {q} of the original", v1, v0, 0)
        if g == 0 and not scn["interrupt"]:      # the original goes on as if it had never been copied
            twin = World(scn, src, drive="real")
            for op in scn["ops"] + later:
                twin.apply(op)
            if not scn["later_first"]:
                for op in later:
                    w.apply(op)
            w.apply({"op": "step", "n": 3})
            twin.apply({"op": "step", "n": 3})
            same("original after it was copied", w, twin)
            ctx.fault("original_continued")
        w, edits = c, edits + [o for o in scn["after"] if o["op"] in EDITS]
        if any(o["op"] == "lumped" for o in scn["after"]):
            break                        # the same elements cannot be added twice
    for n, x in w.real.items():
        ctx.event(n, x.v, x.i)
    ctx.fault("clean_copy")
    ctx.nontrivial = ran > 0 or hit


def same(what, a, b):
    c10.same(what, c10.state(a), c10.state(b), 1e-12)
    for q, ((t1, v1), (t0, v0)) in enumerate(zip(c10.recorded(a), c10.recorded(b))):
        check_close(f"times of probe {q} of the {what}", t1, t0, 1e-12 * (abs(t0[-1]) if len(t0) else 1))
        check_close(f"values of probe {q} of the {what}", v1, v0, 1e-12 * max(float(np.max(np.abs(v0))) if v0.size else 0, 1e-12))


def documents(scn, ctx):
    d = scn["doc"]
    text = docs.text(d, scn["perm"])
    p = docio.parse_text(text)
    dt0 = min(b.dt for b in p.bundles)
    info = docs.by_name(d)
    past = 0
    ctx.shape("doc", scn["runs"], [[ln["n"] for lev in b["levels"] for ln in lev] for b in d["bundles"]], scn["perm"] is not None)
    for k, r in enumerate(scn["runs"]):
        dt = dt0 * (r["f"] or 1.0)
        act = lambda q: q.run((r["n"] + 0.5) * dt, dt if r["f"] else 0)
        if r.get("interrupt") and broken(lambda: act(p), r["interrupt"], ctx):
            past += 1
            continue
        if not r.get("interrupt"):
            act(p)
        fresh = docio.parse_text(text)
        act(fresh)
        ctx.steps += 2 * r["n"]
        ctx.sim_time += 2 * r["n"] * dt
        for b, f in zip(p.bundles, fresh.bundles):
            for name, x, y in (("voltage", b.v, f.v), ("current", b.i, f.i)):
                check_close(f"{name} on {b.name} after run {k + 1} of the document", x, y, 1e-12 * max(float(np.max(np.abs(y))), 1e-14))
            ctx.event(b.name, b.v, b.i)
        for name in p.probes:
            t1, v1 = np.array(p.probes[name].t, float), np.array(p.probes[name].val, float)
            t0, v0 = np.array(fresh.probes[name].t, float), np.array(fresh.probes[name].val, float)
            check_close(f"times of probe {name} after run {k + 1} of the document", t1, t0, 1e-12 * dt)
            check_close(f"values of probe {name} after run {k + 1} of the document", v1, v0, 1e-12 * max(float(np.max(np.abs(v0))) if v0.size else 0, 1e-14))
        if past:
            ctx.fault("run_again")
        past += r["n"] > 0
    ctx.nontrivial = past > 1
