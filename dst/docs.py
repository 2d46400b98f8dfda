"""Seeded JSON descriptions: an abstract document, its JSON text in any listing order, and its meaning.

The abstract document ("doc", plain JSON) lists bundles as trees of cables, connectors at every cable end,
terminations and junctions, sources, probes, lumped elements and connector ends of shields.
  render(doc, perm)   -> the description as read by the solver, listed in an order drawn from `perm`
  meaning(doc)        -> a World scenario (see world.py) with the same physics, for the reference model
  columns(doc, order) -> place of every (cable, conductor) among the columns of a probe
"""
import json
import math
import random

from . import gen, waves

OPEN_C = 1e22


# ------------------------------------------------------------------- sources
def magnitude(rng, T):
    k = rng.choice(["trapezoidal", "ramp", "gaussian_2", "gaussian", "sin_sq", "sin", "exp"])
    A = rng.choice([1.0, -4.0, 2.5])
    q = lambda a, b: gen.r3(T * rng.uniform(a, b))
    if k == "trapezoidal":
        tr, tf, tw = q(0.05, 0.2), q(0.05, 0.2), q(0.05, 0.3)
        period = gen.r3(T * rng.choice([0.8, 3.0]) * rng.uniform(1, 1.3))
        f0 = 1 / period
        return {"type": k, "amplitude": A, "rise_time": tr, "fall_time": tf, "f0": f0, "D": (tw + 0.5 * (tr + tf)) * f0}
    if k == "ramp":
        return {"type": k, "amplitude": A, "t0": q(0.02, 0.6)}
    if k == "gaussian_2":
        s = q(0.05, 0.2)
        return {"type": k, "amplitude": A, "x0": 6 * s, "s0": s}
    if k == "gaussian":
        s = q(0.03, 0.1)
        return {"type": k, "x0": 8 * s, "s0": s}
    if k == "sin_sq":
        return {"type": k, "amplitude": A, "frequency": gen.r3(math.pi / (T * rng.uniform(0.2, 0.9)))}
    if k == "sin":
        return {"type": k, "amplitude": A, "frequency": gen.r3(2 * math.pi / (T * rng.uniform(0.1, 0.9)))}
    return {"type": k, "amplitude": A, "t0": q(0.05, 0.5)}


def formula(m):
    k = m["type"]
    A = m.get("amplitude", 1.0)
    if k == "trapezoidal":
        T, tr, tf = 1 / m["f0"], m["rise_time"], m["fall_time"]
        hi = m["D"] * T - 0.5 * (tr + tf)

        def src(t):
            x = t % T
            if x < tr:
                return A * x / tr
            if x < tr + hi:
                return A
            if x < tr + hi + tf:
                return A * (tr + hi + tf - x) / tf
            return 0.0
    elif k == "ramp":
        def src(t):
            return 0.0 if t < 0 else A * min(1.0, t / m["t0"])
    elif k in ("gaussian_2", "gaussian"):
        s = m["s0"] * (1.0 if k == "gaussian_2" else math.sqrt(2.0))

        def src(t):
            return A * math.exp(-((t - m["x0"]) / s) ** 2)
    elif k == "sin_sq":
        w = m["frequency"]

        def src(t):
            return A * math.sin(w * t) ** 2 if 0 <= t < math.pi / w else 0.0
    elif k == "sin":
        w = m["frequency"]

        def src(t):
            return A * math.sin(w * t)
    else:
        def src(t):
            return A * (1 - math.exp(-t / m["t0"]))
    return src


def _wave(ms):
    """A World source made of document magnitudes."""
    return {"k": "doc", "of": ms}


_make = waves.make


def make(spec):
    if spec["k"] == "doc":
        fs = [formula(m) for m in spec["of"]]

        def src(t):
            return sum(f(t) for f in fs)
        return src
    return _make(spec)


waves.make = make


# ----------------------------------------------------------------- generator
def generate(rng, nb=None, poles=True, shields=True, dispersive=True, steps=60):
    nb = nb or rng.choice([1, 1, 2, 2, 3])
    doc = {"bundles": [], "sites": [], "sources": [], "drives": [], "probes": [], "lumped": [], "ends": []}
    count = [0]

    def cable(b, level, parent=None):
        n = rng.choice([1, 1, 2, 3]) if level == 0 else rng.choice([1, 1, 2, 2])
        ln = gen.line(rng, f"c{count[0]}", n, g=False)
        count[0] += 1
        if "R" in ln:
            ln["R"] = [[ln["R"][i][j] if i == j else 0.0 for j in range(n)] for i in range(n)]
        ln["parent"] = parent
        if len(b["levels"]) <= level:
            b["levels"].append([])
        b["levels"][level].append(ln)
        return ln

    where = {}
    for k in range(nb):
        cells = rng.randint(2, 7)
        nodes, ndiv = gen.path(rng, cells)
        b = {"name": f"bundle_{k}", "kind": "mtld", "nodes": nodes, "ndiv": ndiv, "levels": [], "probes": []}
        root = cable(b, 0)
        front = [(root, c) for c in range(root["n"])]
        for level in range(1, rng.choice([1, 1, 2, 3]) if shields else 1):
            nxt = []
            for ln, c in front:
                if rng.random() < 0.6:
                    for _ in range(rng.choice([1, 1, 2])):
                        ch = cable(b, level, [ln["name"], c])
                        nxt += [(ch, q) for q in range(ch["n"])]
            front = nxt
        doc["bundles"].append(b)
    every = [(b, ln) for b in doc["bundles"] for lev in b["levels"] for ln in lev]
    dt = min(gen.dt_of(b["nodes"], b["ndiv"], [ln for lev in b["levels"] for ln in lev]) for b in doc["bundles"])
    doc["dt"] = dt
    T = steps * dt
    parents = {ln["parent"][0] for _, ln in every if ln["parent"]}
    for b, ln in every:
        ln["conn"] = {}
        if ln["name"] in parents and rng.random() < 0.85:
            m = gen.model(rng, dt, rng.choice([0.05, 1.0]), poles=None if poles and rng.random() < 0.5 else 0)
            m["prop"] = min(m["prop"], 2e-8)
            m["direction"] = rng.choice(["in", "out", "both"])
            if rng.random() < 0.3:
                m["factor"] = rng.choice([2.0, 10.0])
            ln["zt"] = m
    # ends that meet
    ends = [(b, s) for b in doc["bundles"] for s in ("S", "L")]
    rng.shuffle(ends)
    while ends:
        site = [ends.pop()]
        k = rng.choice([1, 1, 2, 2, 3])
        for e in list(ends):
            if len(site) < k and all(e[0] is not x[0] for x in site):
                site.append(e)
                ends.remove(e)
        levels = {}
        for b, s in site:
            for lv, lev in enumerate(b["levels"]):
                for ln in lev:
                    levels.setdefault(lv, []).append([b["name"], ln["name"], s, ln["n"]])
        joined = len(site) > 1 and rng.random() < 0.8
        for lv, group in levels.items():
            if joined and len({g[0] for g in group}) > 1:
                doc["sites"].append({"kind": "junction", "lines": [g[:3] for g in group], "pairs": pairs(rng, group)})
            else:
                # cables of one level: one termination for all, or one each
                parts = [group] if rng.random() < 0.5 and len({g[0] for g in group}) == 1 else [[g] for g in group]
                for p in parts:
                    doc["sites"].append({"kind": "termination", "lines": [g[:3] for g in p], "split": rng.random() < 0.3,
                                         "one_group": rng.random() < 0.4})
    # what sits in the connectors
    lines = {ln["name"]: ln for _, ln in every}
    junctions = False
    for site in doc["sites"]:
        for bn, name, s in site["lines"]:
            ln = lines[name]
            kinds = ["Conn_R", "Conn_R", "Conn_sRLC", "Conn_short"] + (["Conn_C", "Conn_LCpRs"] if site["kind"] == "termination" else [])
            vec = []
            for _ in range(ln["n"]):
                k = rng.choice(kinds)
                e = {"k": k, "R": rng.choice([50.0, 5.0, 1e3, 100.0, gen.r3(rng.uniform(0.5, 300))]), "L": 0.0, "C": OPEN_C}
                if k == "Conn_C":
                    e["C"] = gen.r3(rng.choice([1e-12, 1e-11, 1e-10]) * rng.uniform(0.5, 5))
                elif k == "Conn_LCpRs":
                    w, Z = rng.uniform(0.05, 0.6) / dt, rng.uniform(10, 200)
                    e.update(R=gen.r3(rng.uniform(5, 200)), L=gen.r3(Z / w), C=gen.r3(1 / (Z * w)))
                vec.append(e)
            ln["conn"][s] = {"vec": vec, "plain": ln["n"] == 1 and rng.random() < 0.6}
    # sources
    def can_drive(site, name, s, c):
        if site["kind"] == "termination":
            return lines[name]["conn"][s]["vec"][c]["k"] != "Conn_short"
        return all(total(lines, a, z) > 0 for a, z in site["pairs"] if [name, s, c] in (a, z))
    places = [[name, s, c] for site in doc["sites"] for _, name, s in site["lines"] for c in range(lines[name]["n"])
              if can_drive(site, name, s, c)]
    rng.shuffle(places)
    for p in places[:rng.choice([1, 1, 2, 3])]:
        doc["sources"].append({"at": p, "m": magnitude(rng, T)})
        if rng.random() < 0.12:
            doc["sources"].append({"at": p, "m": magnitude(rng, T)})      # two in one place act together
    for _ in range(rng.choice([0, 0, 1, 2]) if places else 1):
        b, ln = rng.choice(every)
        a, z = gen.two_pos(rng, b["nodes"], b["ndiv"])
        doc["drives"].append({"cable": ln["name"], "cond": rng.randrange(ln["n"]), "a": gen.xyz(a), "b": gen.xyz(z), "m": magnitude(rng, T)})
    # lumped elements, connector ends of shields, probes
    if dispersive and rng.random() < 0.4:
        used = set()
        for _ in range(rng.choice([1, 1, 2, 3])):
            b, ln = rng.choice(every)
            tmp = {tuple(c) for n, *c in used if n == ln["name"]}
            before = set(tmp)
            out = []
            gen.lumped(rng, b, dt, tmp, rng.randrange(ln["n"]), out.append)
            used |= {(ln["name"], *c) for c in tmp - before}
            doc["lumped"] += [{"cable": ln["name"], **o} for o in out]
    for b, ln in every:
        if ln["name"] in parents:
            for s in ("S", "L"):
                for c in range(ln["n"]):
                    if rng.random() < 0.25:
                        m = gen.model(rng, dt, rng.choice([0.05, 1.0]), poles=1 if ln.get("zt", {"poles": {"real": []}})["poles"]["real"] else 0)
                        m["prop"] = min(m["prop"], 2e-8)
                        if not m["cte"] and not m["prop"] and not m["poles"]["real"]:
                            m["cte"] = 0.03
                        m["direction"] = ln["zt"]["direction"] if "zt" in ln else "both"
                        doc["ends"].append({"cable": ln["name"], "side": s, "cond": c, "R": gen.r3(rng.uniform(0.001, 30)), "zt": m})
    for k in range(rng.randint(1, 4)):
        b, ln = rng.choice(every)
        end = rng.random() < 0.3
        p = {"name": f"p{k}", "type": rng.choice(["voltage", "current"]), "cable": ln["name"]}
        if end:
            p["end"] = [rng.choice(["S", "L"]), rng.randrange(ln["n"])]
            p["named"] = rng.random() < 0.5
        else:
            p["pos"] = gen.xyz(gen.a_pos(rng, b["nodes"], b["ndiv"]))
        doc["probes"].append(p)
    return doc


def pairs(rng, group):
    """Links that leave no conductor of the junction unconnected."""
    nodes = {g[1]: [[g[1], g[2], c] for c in range(g[3])] for g in group}
    names = list(nodes)
    bundle = {g[1]: g[0] for g in group}
    out = []
    todo = [n for name in names for n in nodes[name]]
    rng.shuffle(todo)
    seen = set()
    for n in todo:
        if tuple(n) in seen:
            continue
        other = [m for name in names if bundle[name] != bundle[n[0]] for m in nodes[name]]
        fresh = [m for m in other if tuple(m) not in seen]
        m = rng.choice(fresh or other)
        out.append([n, m] if rng.random() < 0.5 else [m, n])
        seen |= {tuple(n), tuple(m)}
    if rng.random() < 0.3:
        a = rng.choice(todo)
        other = [m for name in names if bundle[name] != bundle[a[0]] for m in nodes[name]]
        z = rng.choice(other)
        if [a, z] not in out and [z, a] not in out:
            out.append([a, z])
    return out


def total(lines, a, z):
    """Series resistance of a link: what the two connectors contribute."""
    R = 0.0
    for name, s, c in (a, z):
        e = lines[name]["conn"][s]["vec"][c]
        if e["k"] in ("Conn_R", "Conn_sRLC"):
            R += e["R"]
    return R


def by_name(doc):
    return {ln["name"]: (b, lv, ln) for b in doc["bundles"] for lv, lev in enumerate(b["levels"]) for ln in lev}


# ------------------------------------------------------------------- meaning
def meaning(doc):
    """The World scenario (reference model) of a document."""
    info = by_name(doc)
    lines = {n: i[2] for n, i in info.items()}
    off = {}
    for b in doc["bundles"]:
        o = 0
        for lev in b["levels"]:
            for ln in lev:
                off[ln["name"]] = o
                o += ln["n"]
    loff = {}
    for b in doc["bundles"]:
        for lev in b["levels"]:
            o = 0
            for ln in lev:
                loff[ln["name"]] = o
                o += ln["n"]
    nid = {}
    for name, ln in lines.items():
        for s in ("S", "L"):
            for c in range(ln["n"]):
                nid[(name, s, c)] = len(nid)
    src = {}
    for x in doc["sources"]:
        src.setdefault(tuple(x["at"]), []).append(x["m"])
    bundles = []
    for b in doc["bundles"]:
        rb = {"name": b["name"], "kind": "mtld", "nodes": b["nodes"], "ndiv": b["ndiv"], "probes": [], "zt": [], "levels": []}
        for lev in b["levels"]:
            rb["levels"].append([{"name": ln["name"], "n": ln["n"], "L": ln["L"], "C": ln["C"], "R": ln.get("R"),
                                  "lumped": [x for x in doc["lumped"] if x["cable"] == ln["name"]]} for ln in lev])
        edges = []
        for lv, lev in enumerate(b["levels"]):
            for ln in lev:
                if ln["parent"]:
                    pn, pc = ln["parent"]
                    for c in range(ln["n"]):
                        edges.append((pn, pc, {"out": [lv - 1, [loff[pn] + pc]], "in": [lv, [loff[ln["name"]] + c]]}))
        for pn, pc, e in edges:
            if "zt" in lines[pn]:
                rb["zt"].append({**e, "model": lines[pn]["zt"]})
        for x in doc["ends"]:
            for pn, pc, e in edges:
                if (pn, pc) == (x["cable"], x["cond"]):
                    rb["zt"].append({**e, "model": x["zt"], "side": {"S": "initial", "L": "end"}[x["side"]]})
        bundles.append(rb)
    nets = []
    for site in doc["sites"]:
        lv = {"lines": [], "els": []}
        for bn, name, s in site["lines"]:
            lv["lines"].append({"bundle": bn, "line": name, "side": s, "nodes": [[nid[(name, s, c)], c] for c in range(lines[name]["n"])]})
            if site["kind"] == "termination":
                for c, e in enumerate(lines[name]["conn"][s]["vec"]):
                    at = nid[(name, s, c)]
                    f = _wave(src[(name, s, c)]) if (name, s, c) in src else None
                    if e["k"] == "Conn_short":
                        lv["els"].append({"k": "S", "at": at})
                    elif e["k"] == "Conn_C":
                        lv["els"].append({"k": "C", "at": at, "C": e["C"], "src": f})
                    elif e["k"] == "Conn_LCpRs":
                        lv["els"].append({"k": "LC", "at": at, "R": e["R"], "L": e["L"], "C": e["C"], "src": f})
                    else:
                        lv["els"].append({"k": "R", "at": at, "R": e["R"], "src": f})
        if site["kind"] == "junction":
            for a, z in site["pairs"]:
                R = total(lines, a, z)
                ms = [m for x in (a, z) for m in src.get(tuple(x), [])]
                if R == 0:
                    lv["els"].append({"k": "SS", "a": nid[tuple(a)], "b": nid[tuple(z)]})
                else:
                    lv["els"].append({"k": "RR", "a": nid[tuple(a)], "b": nid[tuple(z)], "R": R, "src": _wave(ms) if ms else None})
        nets.append({"levels": [lv]})
    ops = []
    for x in doc["ends"]:
        b = info[x["cable"]][0]
        p = b["nodes"][0 if x["side"] == "S" else -1]
        ops.append({"op": "setR", "bundle": b["name"], "cond": off[x["cable"]] + x["cond"], "a": p, "b": p, "R": x["R"]})
    for x in doc["drives"]:
        b = info[x["cable"]][0]
        ops.append({"op": "drive", "bundle": b["name"], "cond": off[x["cable"]] + x["cond"], "a": x["a"], "b": x["b"], "src": _wave([x["m"]])})
    for x in doc["probes"]:
        b = info[x["cable"]][0]
        pos = x["pos"] if "pos" in x else b["nodes"][0 if x["end"][0] == "S" else -1]
        ops.append({"op": "probe", "bundle": b["name"], "pos": pos, "type": x["type"], "name": x["name"]})
    return {"bundles": bundles, "nets": nets, "ops": ops, "dt": doc["dt"]}


def links(doc):
    """Does the document contain an ideal link (modelled by a very large conductance)?"""
    lines = {n: i[2] for n, i in by_name(doc).items()}
    return any(total(lines, a, z) == 0 for s in doc["sites"] if s["kind"] == "junction" for a, z in s["pairs"])


# -------------------------------------------------------------------- render
def render(doc, perm=None):
    """The description as a JSON value; `perm` (a seed) decides ids and every listing order."""
    rng = random.Random(f"render:{perm}")
    mix = (lambda xs: rng.sample(xs, len(xs))) if perm is not None else (lambda xs: list(xs))
    num = lambda x: repr(float(x))
    coords, elements, nodes, materials, cables = [], [], [], [], []
    cid, eid, mid = iter(mix(range(1, 4000))), iter(mix(range(1, 4000))), iter(mix(range(1, 2000)))

    def coord(p):
        k = next(cid)
        coords.append(f"{k}  {num(p[0])} {num(p[1])} {num(p[2])}")
        return k

    known = {}

    def material(m):
        key = json.dumps(m, sort_keys=True)
        if key in known and perm is not None and perm % 3 == 0:
            return known[key]           # the same material used in several places
        k = known[key] = next(mid)
        materials.append({"materialId": k, **m})
        return k

    end_coord, elem = {}, {}
    polylines, straight = [], []
    for b in doc["bundles"]:
        for lev in b["levels"]:
            for ln in lev:
                ids = []
                for c in range(ln["n"]):
                    cs = [coord(p) for p in b["nodes"]]
                    end_coord[(ln["name"], "S", c)], end_coord[(ln["name"], "L", c)] = cs[0], cs[-1]
                    e = next(eid)
                    (straight if len(cs) == 2 else polylines).append(" ".join(map(str, [e, 0, 1] + cs)))
                    elem[(ln["name"], c)] = e
                    ids.append(e)
                if ln["n"] == 1 and ln.get("scalar"):
                    m = {"name": "w", "materialType": "Wire", "resistance": float(ln["R"][0][0]) if ln.get("R") else 0.0,
                         "inductance": ln["L"][0][0], "capacitance": ln["C"][0][0]}
                else:
                    m = {"name": "w", "materialType": "Multiwire", "inductanceMatrix": ln["L"], "capacitanceMatrix": ln["C"]}
                    if ln.get("R"):
                        m["resistanceVector"] = [ln["R"][i][i] for i in range(ln["n"])]
                if "zt" in ln:
                    m["transferImpedance"] = ln["zt"]
                conn = {}
                for s in ("S", "L"):
                    vec = ln["conn"][s]["vec"]
                    if ln["conn"][s]["plain"]:
                        e = vec[0]
                        conn[s] = material({"name": "t", "materialType": "Connector", "connectorType": e["k"],
                                            "resistance": e["R"] if e["k"] not in ("Conn_short", "Conn_C") else 0.0,
                                            "inductance": e["L"], "capacitance": e["C"]})
                    else:
                        conn[s] = material({"name": "t", "materialType": "Connector", "connectorType": "MultiwireConnector",
                                            "connections": [e["k"] for e in vec],
                                            "resistanceVector": [e["R"] if e["k"] not in ("Conn_short", "Conn_C") else 0.0 for e in vec],
                                            "inductanceVector": [e["L"] for e in vec], "capacitanceVector": [e["C"] for e in vec]})
                cables.append({"name": ln["name"], "materialId": material(m), "initialConnectorId": conn["S"], "endConnectorId": conn["L"],
                               "elemIds": ids, "ndiv": b["ndiv"] if len(b["ndiv"]) > 1 else b["ndiv"][0]})

    def node(c):
        k = next(eid)
        nodes.append(f"{k} 0 1 {c}")
        return k

    bundles = []
    for b in doc["bundles"]:
        def children(name, c):
            return [(ln["name"], q) for lev in b["levels"] for ln in lev if ln["parent"] == [name, c] for q in range(ln["n"])]

        def tree(items):
            items = mix(items)
            if not any(children(*it) for it in items):
                return " ".join(str(elem[it]) for it in items)
            return {str(elem[it]): tree(children(*it)) if children(*it) else "" for it in items}
        root = b["levels"][0][0]
        top = [(root["name"], c) for c in range(root["n"])]
        bundles.append({"name": b["name"], "nestedElemIds": tree(top)})
    sources = []
    for x in doc["sources"]:
        sources.append({"sourceType": "TerminalSource", "type": "voltage", "elemIds": [node(end_coord[tuple(x["at"])])], "magnitude": x["m"]})
    for x in doc["drives"]:
        s = {"sourceType": "DistributedSource", "type": "localized efield drive", "elemIds": [node(coord(x["a"])), node(coord(x["b"]))],
             "cable": x["cable"], "magnitude": x["m"]}
        if x["cond"] or (perm is not None and rng.random() < 0.5):
            s["conductor"] = x["cond"]
        sources.append(s)
    probes = []
    for x in doc["probes"]:
        p = {"name": x["name"], "type": x["type"]}
        if "pos" in x:
            p["elemIds"] = [node(coord(x["pos"]))]
            p["cable"] = x["cable"]
        else:
            p["elemIds"] = [node(end_coord[(x["cable"], *x["end"])])]
            if x["named"]:
                p["cable"] = x["cable"]
        probes.append(p)
    terminations, junctions = [], []
    for k, site in enumerate(doc["sites"]):
        if site["kind"] == "junction":
            junctions.append({"name": f"j{k}", "unitedCoordIds": mix([[end_coord[tuple(a)], end_coord[tuple(z)]] for a, z in site["pairs"]])})
            continue
        groups = []
        for bn, name, s in site["lines"]:
            ids = mix([end_coord[(name, s, c)] for c in range(len([1 for q in end_coord if q[0] == name and q[1] == s]))])
            groups += [[i] for i in ids] if site.get("split") else [ids]
        if site.get("one_group"):
            groups = [[i for g in groups for i in g]]
        terminations.append({"name": f"t{k}", "coordIds": mix(groups)})
    lumped = [{"materialId": material({"name": "l", "materialType": "Connector", "connectorType": "Dispersive", "model": x["model"]}),
               "cable": x["cable"], "coordIds": [coord(x["pos"])], "conductor": x["cond"]} for x in doc["lumped"]]
    ends = [{"name": f"e{k}", "coordIds": [end_coord[(x["cable"], x["side"], x["cond"])]],
             "materialId": material({"name": "e", "materialType": "Connector", "connectorType": "Conn_R", "resistance": x["R"], "transferImpedance": x["zt"]})}
            for k, x in enumerate(doc["ends"])]
    el = {}
    if straight:
        el["line"] = mix(straight)
    if polylines:
        el["polyline"] = mix(polylines)
    if nodes:
        el["node"] = mix(nodes)
    model = {"materials": mix(materials), "layers": [{"id": 1, "name": "layer"}], "coordinates": mix(coords), "elements": el,
             "bundles": mix(bundles), "cables": mix(cables)}
    for key, xs in (("sources", sources), ("probes", probes), ("terminations", terminations), ("junctions", junctions),
                    ("lumpedElements", lumped), ("cableEnds", ends)):
        if xs or (perm is not None and rng.random() < 0.3):
            model[key] = mix(xs)
    model = dict(mix(list(model.items())))
    return {"_format": "Semba Data File in JSON format", "_version": "0.16", "model": model}


def text(doc, perm=None):
    return json.dumps(render(doc, perm), indent=None if perm and perm % 2 else 1)


def smaller(doc):
    """Documents with one part less."""
    import copy
    for key in ("sources", "drives", "lumped", "ends", "probes"):
        for k in range(len(doc[key])):
            d = copy.deepcopy(doc)
            del d[key][k]
            yield d
    for b in range(len(doc["bundles"])):
        for lv, lev in enumerate(doc["bundles"][b]["levels"]):
            for q, ln in enumerate(lev):
                for key in ("zt", "R"):
                    if ln.get(key):
                        d = copy.deepcopy(doc)
                        del d["bundles"][b]["levels"][lv][q][key]
                        yield d
    for k, s in enumerate(doc["sites"]):
        for key in ("split", "one_group"):
            if s.get(key):
                d = copy.deepcopy(doc)
                d["sites"][k][key] = False
                yield d
