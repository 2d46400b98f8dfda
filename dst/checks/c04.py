"""C04: the order in which equivalent parts are listed, and the hash seed of the process, do not matter."""
import copy
import random

import numpy as np

from .. import child, docio, docs, gen, waves
from ..world import Diff, World, check_close, load_src
from . import c02, c13

PROP = "C04"
LEVEL = "exploration"
COUNTS = {"quick": 420, "thorough": 25000}
RULE = ("distinct = different signature (mode, structure, permutation seed, hash seeds); trivial when no voltage above 1e-9 V "
        "ever appears or when the permutation leaves the listing as it was")
COMPONENTS = {"real": ["src.jsonParser", "src.mtln", "src.networks", "src.mtl", "src.dispersive", "src.probes", "the interpreter's string hashing"],
              "stub": ["the file holding the description", "clock", "source waveforms (API mode)"],
              "oracle": "the same system listed in its original order, run in this process or in processes with other hash seeds"}
HASHSEEDS = [1, 2, 3, 5, 8]


def generate(rng, tier, index):
    mode = rng.choice(["api", "api", "doc", "hash"])
    if mode == "api":
        scn = gen.net_world(rng, kinds=rng.choice(c02.SWARM), small=rng.random() < 0.5, T_steps=60)
        for b in scn["bundles"]:
            if rng.random() < 0.3:
                used = set()
                ln = b["levels"][0][0]
                ln["lumped"] = []
                for _ in range(rng.choice([1, 2, 3])):
                    gen.lumped(rng, b, scn["dt"], used, rng.randrange(ln["n"]), ln["lumped"].append)
        ops = []
        for _ in range(rng.choice([0, 1, 2, 4])):
            b = rng.choice(scn["bundles"])
            a, z = gen.two_pos(rng, b["nodes"], b["ndiv"])
            n = sum(ln["n"] for lev in b["levels"] for ln in lev)
            k = rng.choice(["drive", "setR", "addG"])
            op = {"op": k, "bundle": b["name"], "cond": rng.randrange(n), "a": a, "b": z}
            if k == "drive":
                op["src"] = waves.rand(rng, 60 * scn["dt"])
            elif k == "setR":
                op["R"] = gen.r3(rng.uniform(1, 50))
            else:
                op["G"] = gen.r3(rng.uniform(1e-3, 1e-2))
            # two edits of the same conductor are not exchangeable: the later one counts
            if k == "drive" or not any(o["op"] == k and o["bundle"] == b["name"] and o["cond"] == op["cond"] for o in ops):
                ops.append(op)
        cuts = [rng.randint(1, 60) for _ in range(rng.choice([1, 2, 3]))]
        return {"mode": mode, "world": scn, "edits": ops, "cuts": cuts, "perm": rng.randrange(10 ** 6)}
    rich = rng.random() < 0.8
    doc = docs.generate(rng, shields=rich, dispersive=rich, steps=50)
    scn = {"mode": mode, "doc": doc, "n": rng.choice([8, 25, 50]), "f": rng.choice([None, 1.0, 0.8, 0.4]), "perm": rng.randrange(10 ** 6)}
    if mode == "hash":
        scn["hashseeds"] = rng.sample(HASHSEEDS, 3)
    return scn


def variants(scn):
    if scn["mode"] != "api":
        for d in docs.smaller(scn["doc"]):
            yield {**scn, "doc": d}
        for n in (2, 8):
            if n < scn["n"]:
                yield {**scn, "n": n}
        for k in range(len(scn.get("hashseeds", []))):
            if len(scn["hashseeds"]) > 2:
                yield {**scn, "hashseeds": scn["hashseeds"][:k] + scn["hashseeds"][k + 1:]}
        return
    for k in range(len(scn["edits"])):
        yield {**scn, "edits": scn["edits"][:k] + scn["edits"][k + 1:]}
    if len(scn["cuts"]) > 1:
        yield {**scn, "cuts": scn["cuts"][:1]}
    if scn["cuts"][0] > 2:
        yield {**scn, "cuts": [scn["cuts"][0] // 2] + scn["cuts"][1:]}
    from .. import engine
    for w in engine.variants(scn["world"]):
        yield {**scn, "world": w}


def permuted(world, edits, seed):
    """The same world, listed in another order; and where each conductor has gone."""
    rng = random.Random(f"perm:{seed}")
    w = copy.deepcopy(world)
    place = {}
    for b in w["bundles"]:
        old, off = {}, 0
        for lev in b["levels"]:
            for ln in lev:
                old[ln["name"]] = off
                off += ln["n"]
        conds = {}                       # old global index -> new global index
        inlevel = []                     # per level: old index within the level -> new one
        new_off = base_old = base_new = 0
        for lev in b["levels"]:
            size = sum(ln["n"] for ln in lev)
            rng.shuffle(lev)
            m = {}
            q = base_new
            for ln in lev:
                for c in range(ln["n"]):
                    conds[old[ln["name"]] + c] = q + c
                    m[old[ln["name"]] + c - base_old] = q + c - base_new
                q += ln["n"]
                if ln.get("lumped"):
                    rng.shuffle(ln["lumped"])
            inlevel.append(m)
            base_old += size
            base_new += size
        for z in b.get("zt", []):
            z["out"] = [z["out"][0], [inlevel[z["out"][0]][c] for c in z["out"][1]]]
            z["in"] = [z["in"][0], [inlevel[z["in"][0]][c] for c in z["in"][1]]]
            rng.shuffle(z["in"][1])
        if not any("side" in z for z in b.get("zt", [])):     # a connector replaces what its cell had: its place in the order counts
            rng.shuffle(b.get("zt", []))
        place[b["name"]] = [conds[k] for k in range(off)]
    rng.shuffle(w["bundles"])
    for n in w["nets"]:
        for lv in n["levels"]:
            rng.shuffle(lv["lines"])
            for ln in lv["lines"]:
                rng.shuffle(ln["nodes"])
            rng.shuffle(lv["els"])
            for e in lv["els"]:
                if e["k"] in ("RR", "SS") and e.get("src") is None and rng.random() < 0.5:
                    e["a"], e["b"] = e["b"], e["a"]
    rng.shuffle(w["nets"])
    w["assemble"] = rng.choice(["ctor", "add", "adds"])
    ed = copy.deepcopy(edits)
    for op in ed:
        op["cond"] = place[op["bundle"]][op["cond"]]
    rng.shuffle(ed)
    return w, ed, place


def execute(scn, ctx):
    if scn["mode"] == "api":
        api(scn, ctx)
    elif scn["mode"] == "doc":
        doc(scn, ctx)
    else:
        hashes(scn, ctx)


def api(scn, ctx):
    src = load_src()
    A = World(scn["world"], src, drive="real")
    wb, eb, place = permuted(scn["world"], scn["edits"], scn["perm"])
    B = World(wb, src, drive="real")
    ss = any(e["k"] == "SS" for n in scn["world"]["nets"] for lv in n["levels"] for e in lv["els"])
    for op in scn["edits"]:
        A.apply(op)
    for op in eb:
        B.apply(op)
    probes = {}
    for tag, W in (("a", A), ("b", B)):
        seen = {}
        for p in W.probes:
            k = seen[p["bundle"]] = seen.get(p["bundle"], -1) + 1
            probes[(tag, p["bundle"], k)] = p
    worst = 0.0
    sv, si = 1e-12, 1e-14               # the largest fields so far set the scale
    for n in scn["cuts"]:
        A.apply({"op": "run", "n": n})
        B.apply({"op": "run", "n": n})
        ctx.steps += 2 * n
        ctx.sim_time += 2 * n * A.dt
        if not np.isclose(A.sim.dt, B.sim.dt, rtol=1e-14, atol=0):
            raise Diff("time step", f"{A.sim.dt!r} in one order, {B.sim.dt!r} in another")
        sv = max(max(float(np.max(np.abs(o.v))) for o in A.real.values()), sv)
        si = max(max(float(np.max(np.abs(o.i))) for o in A.real.values()), si)
        for p in A.probes:
            if np.size(p["real"].val):
                q = float(np.max(np.abs(p["real"].val)))
                if p["type"] == "voltage":
                    sv = max(sv, q)
                else:
                    si = max(si, q)
        worst = max(worst, sv)
        tol = 5e-3 if ss else 1e-9
        for name, o in A.real.items():
            q = B.real[name]
            check_close(f"voltage on {name}", q.v[place[name]], o.v, tol * sv)
            check_close(f"current on {name}", q.i[place[name]], o.i, tol * si)
            ctx.event(name, o.v, o.i)
        for (tag, name, k), p in probes.items():
            if tag == "b":
                continue
            q = probes[("b", name, k)]
            if np.shape(p["real"].val) != np.shape(q["real"].val):
                raise Diff("probe", f"probe {k} of {name} holds {np.shape(q['real'].val)}, {np.shape(p['real'].val)} in the original order")
            check_close(f"times of probe {k} of {name}", q["real"].t, p["real"].t, 1e-12 * A.dt * max(n, 1) * 10)
            if np.size(p["real"].val):
                check_close(f"values of probe {k} of {name}", np.array(q["real"].val)[:, place[name]], p["real"].val,
                            tol * (sv if p["type"] == "voltage" else si))
    ctx.fault("listing_order_shuffled")
    ctx.hit("edits_exchanged", len(scn["edits"]))
    ctx.shape("api", scn["perm"], [[ln["n"] for lev in b["levels"] for ln in lev] for b in scn["world"]["bundles"]], scn["cuts"],
              [o["op"] for o in scn["edits"]])
    ctx.nontrivial = worst > 1e-9


def records(p, d, scn):
    """State and probe values of a parsed and run document, in the column order of the abstract document."""
    out = {}
    for b in d["bundles"]:
        obj, cols = c13.column_map(p, d, b)
        out[("v", b["name"])], out[("i", b["name"])] = obj.v[cols], obj.i[cols]
    info = docs.by_name(d)
    for x in d["probes"]:
        _, cols = c13.column_map(p, d, info[x["cable"]][0])
        out[("v" if x["type"] == "voltage" else "i", "probe " + x["name"])] = np.array(p.probes[x["name"]].val, float)[:, cols]
    return out


def doc(scn, ctx):
    d = scn["doc"]
    got = []
    for perm in (None, scn["perm"]):
        p = docio.parse_text(docs.text(d, perm))
        dt = min(b.dt for b in p.bundles) * (scn["f"] or 1.0)
        p.run((scn["n"] + 0.5) * dt, dt if scn["f"] else 0)
        got.append((dt, records(p, d, scn)))
        ctx.steps += scn["n"]
        ctx.sim_time += scn["n"] * dt
    (dt0, a), (dt1, b) = got
    if not np.isclose(dt0, dt1, rtol=1e-14, atol=0):
        raise Diff("time step", f"{dt0!r} in one order, {dt1!r} in another")
    tol = 5e-3 if docs.links(d) else 1e-9
    scale = {k: max([float(np.max(np.abs(x))) for (q, _), x in a.items() if q == k and x.size] + [1e-14]) for k in "vi"}
    for key in a:
        check_close(f"{key[1]} ({key[0]}) in another listing order", b[key], a[key], tol * scale[key[0]])
        ctx.event(key, a[key])
    ctx.fault("listing_order_shuffled")
    ctx.shape("doc", scn["perm"], scn["n"], scn["f"], sorted(map(str, a)))
    ctx.nontrivial = scale["v"] > 1e-9


def hashes(scn, ctx):
    text = docs.text(scn["doc"], scn["perm"])
    out = {}
    for h in scn["hashseeds"]:
        r = child.ask(h, {"text": text, "n": scn["n"], "f": scn["f"]})
        if "error" in r:
            raise Diff("crash", f"with hash seed {h}: {r['error']}")
        out[h] = r["ok"]
        ctx.fault("process_with_other_hash_seed")
        ctx.steps += scn["n"]
    first = out[scn["hashseeds"][0]]
    for h, o in out.items():
        for part in ("columns", "state", "probes"):
            if o[part] != first[part]:
                what = [k for k in first[part] if o[part].get(k) != first[part][k]]
                show = f": {first[part][what[0]]} and {o[part].get(what[0])}" if part == "columns" and what else ""
                raise Diff("hash seed", f"{part} of {what} differ between hash seeds {scn['hashseeds'][0]} and {h}{show}")
    ctx.event(first)
    ctx.shape("hash", scn["perm"], scn["n"], scn["f"], sorted(first["columns"].items()))
