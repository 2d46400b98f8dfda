"""C16: the symmetries of transmission-line physics hold for every simulated system."""
import copy

import numpy as np

from .. import engine, gen, waves
from ..world import Diff, World, check_close, geometry, load_src, nearest, pos_xyz
from . import c01, c02

PROP = "C16"
LEVEL = "exploration"
COUNTS = {"quick": 1000, "thorough": 60000}
RULE = ("distinct = different signature (symmetry, single line or network, conductors, cells, element kinds, operations); "
        "trivial when no voltage above 1e-9 V ever appears")
COMPONENTS = {"real": ["src.mtl", "src.mtln", "src.networks", "src.dispersive", "src.probes"],
              "stub": ["source waveforms (simulated environment)", "clock (time step chosen by the simulator)"],
              "oracle": "the same real code run on the transformed system: twins related by linearity, delay, turning round, "
                        "renumbering, merging, change of units or exchange of source and receiver"}
MODES = ["sum", "scale", "delay", "turn", "turn", "renumber", "units", "impedance", "exchange", "exchange", "merge"]


def generate(rng, tier, index):
    mode = rng.choice(MODES)
    single = mode == "merge" or rng.random() < 0.45
    if single:
        b = gen.single(rng)
        scn = {"bundles": [b], "nets": [], "dispersive": rng.random() < 0.4}
        gen.add_probes(rng, b)
        if mode == "merge":
            # two lines of one geometry, once apart and once as one line with blocks
            b.pop("length", None)
            b2 = gen.single(rng, cells=2)
            b2.update(name="line", nodes=b["nodes"], ndiv=b["ndiv"])
            b2.pop("length", None)
            b2["levels"][0][0]["name"] = "line"
            scn["dispersive"] = False
            scn["other"] = {"bundles": [b2], "nets": [], "dispersive": False}
        dt = gen.dt_of(b["nodes"], b["ndiv"], b["levels"][0])
        used = set()
        if scn["dispersive"]:
            ln = b["levels"][0][0]
            ln["lumped"] = []
            for _ in range(rng.choice([0, 1, 1, 2])):
                gen.lumped(rng, b, dt, used, rng.randrange(ln["n"]), ln["lumped"].append)
        scn["ops"] = c01.random_ops(rng, scn, dt, rng.choice([1, 2, 2, 3]), used)
        if mode == "merge":
            scn["other"]["ops"] = [o for o in c01.random_ops(rng, scn["other"], dt, 1, set()) if o["op"] not in ("run", "step")]
    else:
        zt = rng.random() < 0.4
        kinds = rng.choice(c02.SWARM)
        if mode == "impedance" or rng.random() < 0.8:       # ideal links cost digits
            kinds = [k for k in kinds if k != "SS"]
        scn = gen.net_world(rng, nb=1 if zt else None, kinds=kinds, zt=zt, small=zt)
        dt = scn["dt"]
        if zt and rng.random() < 0.5:
            for b in scn["bundles"]:
                for z in b["zt"]:
                    if rng.random() < 0.5:
                        z["side"] = rng.choice(["initial", "end"])
        for b in scn["bundles"]:
            if rng.random() < 0.3:
                used = set()
                ln = b["levels"][0][0]
                ln["lumped"] = []
                for _ in range(rng.choice([1, 2])):
                    gen.lumped(rng, b, dt, used, rng.randrange(ln["n"]), ln["lumped"].append)
        scn["ops"] = c02.history(rng, scn, rng.choice([30, 60, 100]))
    scn["mode"] = mode
    if mode == "sum":
        scn["mask"] = [rng.random() < 0.5 for _ in range(40)]
        scn["apart"] = rng.random() < 0.6
    elif mode == "scale":
        scn["by"] = rng.choice([-1.0, 2.0, 1e-9, 1e-15, 1e9, 1e13, 0.37, -1e4])
    elif mode == "delay":
        scn["k"] = rng.choice([1, 2, 3, 8, 25])
        scn["early"] = rng.random() < 0.5
    elif mode in ("units", "impedance"):
        scn["by"] = 2.0 ** rng.choice([-14, -10, -7, -3, 3, 7, 10])
        if mode == "impedance":
            scn["by"] = 2.0 ** rng.choice([-6, -3, -1, 1, 3, 6])
    elif mode == "renumber":
        scn["perm"] = rng.randrange(10 ** 6)
    elif mode == "exchange":
        reciprocal(rng, scn, single, dt)
    elif mode == "merge":
        for o in scn["ops"] + scn["other"]["ops"]:
            if o.get("how") == "set":
                o["how"] = "attr"
        runs = [o for o in scn["ops"] if o["op"] == "run"]
        if runs[0].get("dtf") is None:
            runs[0]["dtf"] = 0.9
            runs[0]["how"] = "attr"
    if mode in ("delay", "units"):
        for o in scn["ops"]:
            if o.get("how") == "set":
                o["how"] = "attr"
    return scn


def reciprocal(rng, scn, single, dt):
    """Without sources, everything laid out before the first step, one time step throughout."""
    keep = [o for o in scn["ops"] if o["op"] in ("setR", "addG", "lumped")]
    n = rng.choice([40, 80, 150])
    scn["ops"] = keep + [{"op": "run", "n": n, "dtf": rng.choice([1.0, 0.9, 0.6, 0.3]), "how": "attr"}]
    for b in scn["bundles"]:
        b["probes"] = []
        for z in b.get("zt", []):
            z["model"]["direction"] = "both"
    scn["src"] = waves.rand(rng, n * dt)
    ports = []
    if single:
        b = scn["bundles"][0]
        nc = b["levels"][0][0]["n"]
        for key in ("zs", "zl"):
            b[key] = [50.0 if z == 0 else z for z in (b[key] if isinstance(b[key], list) else [b[key]] * nc)]
        ports = [[e, c] for e in (0, -1) for c in range(nc)]
    else:
        for a, net in enumerate(scn["nets"]):
            for k, lv in enumerate(net["levels"]):
                for q, e in enumerate(lv["els"]):
                    e.pop("src", None)
                    if e["k"] in ("R", "RR"):
                        ports.append([a, k, q])
    scn["ports"] = rng.sample(ports, 2) if len(ports) > 1 else ports


# ------------------------------------------------------------------ running
def play(scn, src, hooks=None, lead=None):
    """Run the real code; what every bundle and probe shows after each run or group of steps."""
    w = Marked(scn, src, drive="real", hooks=hooks)
    out = []
    spies = []                       # end probes: only to know how large the fields were on the way
    for name in sorted(w.real):
        u = w.geo(name)[0]
        for k in sorted({0, len(u) // 2, len(u) - 1}):
            for j, kind in enumerate(("voltage", "current")):
                spies.append((j, w.real[name].add_probe(np.array(u[k]), kind)))
    w.peak = [1e-300, 1e-300]
    if lead and lead["early"]:
        w.apply(lead["op"])
    first = True
    for op in scn["ops"]:
        if lead and not lead["early"] and first and op["op"] in ("run", "step"):
            w.apply(lead["op"])
        if op["op"] in ("run", "step"):
            first = False
        w.apply(op)
        if op["op"] in ("run", "step"):
            snap = {}
            for name, o in w.real.items():
                snap[name] = (np.array(o.v, float), np.array(o.i, float))
            pr = []
            for p in w.probes:
                pr.append((p["bundle"], p["type"], np.array(p["real"].t, float), np.array(p["real"].val, float)))
            out.append((op["op"], snap, pr))
            for j, p in spies:
                if np.size(p.val):
                    w.peak[j] = max(w.peak[j], float(np.max(np.abs(p.val))))
            for v in snap.values():
                for j in (0, 1):
                    w.peak[j] = max(w.peak[j], float(np.max(np.abs(v[j]))))
    w.trace = out
    return w


def same(what, got, want, peak, vmap=lambda b, v: v, imap=lambda b, i: i, tmap=lambda t: t, tol=1e-9, cur=True, probes=True, dt=0.0):
    """`want` describes the original; `got` the twin, mapped back by vmap/imap/tmap."""
    if len(got) != len(want):
        raise engine.Harness("traces of different length")
    pv, pi = peak
    pi = max(pi, pv * 1e-6)
    for k, ((op, a, pa), (_, b, pb)) in enumerate(zip(got, want)):
        for name in b:
            check_close(f"{what}: voltage of {name} after piece {k + 1}", vmap(name, a[name][0]), b[name][0], tol * pv)
            check_close(f"{what}: current of {name} after piece {k + 1}", imap(name, a[name][1]), b[name][1], tol * pi)
        if not probes or op != "run":
            continue
        if len(pa) != len(pb):
            raise Diff("probe", f"{what}: {len(pa)} probes against {len(pb)}")
        for q, (x, y) in enumerate(zip(pa, pb)):
            if x[1] == "current" and not cur:
                continue
            t = tmap(x[2])
            check_close(f"{what}: time stamps of probe {q} in piece {k + 1}", t, y[2], 1e-9 * (abs(y[2]).max() if y[2].size else 0) + 1e-6 * dt)
            val = x[3]
            m = vmap if x[1] == "voltage" else imap
            if val.size:
                val = np.stack([m(x[0], f.reshape(-1, 1)).ravel() for f in val])
            check_close(f"{what}: values of probe {q} in piece {k + 1}", val, y[3], tol * (pv if x[1] == "voltage" else pi))
    return pv, pi


def gate(t0):
    """Sources that are exactly silent up to and including the start."""
    def hook(f):
        def src(t):
            return f(t) if t > t0 else 0.0
        return src
    return hook


# ------------------------------------------------------------ transformations
def turned(scn):
    """The same system described from the other end."""
    s = copy.deepcopy(scn)
    geo = {}
    for b in s["bundles"]:
        u, h = geometry(b["nodes"], b["ndiv"])
        geo[b["name"]] = u
        N = len(h)
        b["nodes"] = b["nodes"][::-1]
        b["ndiv"] = b["ndiv"][::-1]
        b.pop("length", None)
        if "zs" in b:
            b["zs"], b["zl"] = b["zl"], b["zs"]
        v, _ = geometry(b["nodes"], b["ndiv"])
        for lev in b["levels"]:
            for ln in lev:
                for lm in ln.get("lumped", []):
                    flip_cell(lm, u, v, N)
        for z in b.get("zt", []):
            flip_side(z)
        for p in b["probes"]:
            p["pos"] = flip(p["pos"], u, v)
    for net in s["nets"]:
        for lv in net["levels"]:
            for ln in lv["lines"]:
                ln["side"] = "L" if ln["side"] == "S" else "S"
    for o in s["ops"]:
        if o["op"] in ("run", "step"):
            continue
        b = next(x for x in s["bundles"] if x["name"] == o["bundle"])
        u = geo[b["name"]]
        v, _ = geometry(b["nodes"], b["ndiv"])
        N = len(u) - 1
        if o["op"] == "source":
            o["end"] = -1 if o["end"] == 0 else 0
        elif o["op"] == "setR":
            k1, k2 = nearest(u, pos_xyz(o["a"])), nearest(u, pos_xyz(o["b"]))
            if k1 == k2:
                k1 = min(k1, N - 1)
                k2 = k1 + 1
            o["a"], o["b"] = [float(x) for x in v[N - k2]], [float(x) for x in v[N - k1]]
            o.pop("point", None)
        elif o["op"] in ("addG", "drive"):
            o["a"], o["b"] = o["b"], o["a"]
            if o["op"] == "drive":
                o["negate"] = True
        elif o["op"] == "probe":
            o["pos"] = flip(o["pos"], u, v)
        elif o["op"] == "lumped":
            flip_cell(o, u, v, N)
        elif o["op"] == "zt":
            flip_side(o)
    return s


def flip(pos, u, v):
    k = nearest(u, pos_xyz(pos))
    return [float(x) for x in v[len(u) - 1 - k]]


def flip_cell(lm, u, v, N):
    """A lumped element sits on a cell: the one behind its node."""
    k = min(nearest(u, pos_xyz(lm["pos"])), N - 1)
    lm["pos"] = [float(x) for x in v[N - 1 - k]]


def flip_side(z):
    if "side" in z:
        z["side"] = "end" if z["side"] == "initial" else "initial"


def renumbered(scn):
    """Another numbering of the conductors inside each line; new position of every old conductor."""
    import random
    rng = random.Random(f"renumber:{scn['perm']}")
    s = copy.deepcopy(scn)
    place, inline = {}, {}
    for b in s["bundles"]:
        m, off = {}, 0
        lv = []
        for lev in b["levels"]:
            base = off
            for ln in lev:
                p = list(range(ln["n"]))
                rng.shuffle(p)                       # old conductor c becomes p[c]
                q = np.argsort(p)
                inline[(b["name"], ln["name"])] = p
                for key in ("L", "C", "R", "G"):
                    if ln.get(key) is not None:
                        ln[key] = [[ln[key][i][j] for j in q] for i in q]
                for lm in ln.get("lumped", []):
                    lm["cond"] = p[lm["cond"]]
                for c in range(ln["n"]):
                    m[off + c] = off + p[c]
                off += ln["n"]
            lv.append({k - base: m[k] - base for k in range(base, off)})
        if b["kind"] == "mtl":
            for key in ("zs", "zl"):
                if isinstance(b[key], list):
                    b[key] = [b[key][i] for i in np.argsort(inline[(b["name"], b["levels"][0][0]["name"])])]
        for z in b.get("zt", []):
            for side in ("out", "in"):
                z[side] = [z[side][0], [lv[z[side][0]][c] for c in z[side][1]]]
        place[b["name"]] = [m[k] for k in range(off)]
    for net in s["nets"]:
        for lvl in net["levels"]:
            for ln in lvl["lines"]:
                p = inline[(ln["bundle"], ln["line"])]
                ln["nodes"] = [[nid, p[c]] for nid, c in ln["nodes"]]
    for o in s["ops"]:
        if "cond" in o:
            o["cond"] = place[o["bundle"]][o["cond"]]
    return s, place


def scaled(scn, kind, a):
    """units: every length and time times a; impedance: every impedance times a."""
    s = copy.deepcopy(scn)
    units = kind == "units"

    def model(m, per_length=False):
        if units:
            m["poles"] = {k: [x / a for x in m["poles"][k]] for k in m["poles"]}
            if per_length:
                m["cte"] /= a
                m["residues"] = {k: [x / a / a for x in m["residues"][k]] for k in m["residues"]}
            else:
                m["prop"] *= a
                m["residues"] = {k: [x / a for x in m["residues"][k]] for k in m["residues"]}
        else:
            m["cte"] *= a
            m["prop"] *= a
            m["residues"] = {k: [x * a for x in m["residues"][k]] for k in m["residues"]}

    def pos(p):
        if not units:
            return p
        return p * a if isinstance(p, float) else [x * a for x in p]

    def M(m, f):
        return None if m is None else [[x * f for x in row] for row in m]
    for b in s["bundles"]:
        if units:
            b["nodes"] = [pos(p) for p in b["nodes"]]
            if b.get("length") is not None:
                b["length"] *= a
        for lev in b["levels"]:
            for ln in lev:
                if units:
                    ln["R"], ln["G"] = M(ln.get("R"), 1 / a), M(ln.get("G"), 1 / a)
                else:
                    ln["R"], ln["G"] = M(ln.get("R"), a), M(ln.get("G"), 1 / a)
                    ln["L"], ln["C"] = M(ln["L"], a), M(ln["C"], 1 / a)
                for lm in ln.get("lumped", []):
                    lm["pos"] = pos(lm["pos"])
                    model(lm["model"])
        for z in b.get("zt", []):
            model(z["model"], True)
        for p in b["probes"]:
            p["pos"] = pos(p["pos"])
        for key in ("zs", "zl"):
            if key in b and not units:
                b[key] = [x * a for x in b[key]] if isinstance(b[key], list) else b[key] * a
    for net in s["nets"]:
        for lv in net["levels"]:
            for e in lv["els"]:
                for key, fu, fi in (("R", 1, a), ("L", a, a), ("C", a, 1 / a)):
                    if key in e:
                        e[key] *= fu if units else fi
    for o in s["ops"]:
        for key in ("a", "b", "pos"):
            if key in o:
                o[key] = pos(o[key])
        if o["op"] == "lumped":
            model(o["model"])
        elif o["op"] == "zt":
            model(o["model"], True)
        elif not units and o["op"] == "setR":
            o["R"] *= a
        elif not units and o["op"] == "addG":
            o["G"] /= a
        # a distributed source is given in volts per metre
        if units and o["op"] == "drive":
            o["gain"] = 1 / a
    return s


# an ideal link is a very large but fixed conductance: it does not scale with the other impedances


class Marked(World):
    """Distributed sources may carry a sign or a gain."""

    def op_drive(self, op):
        g = (-1.0 if op.get("negate") else 1.0) * op.get("gain", 1.0)
        old = self.hooks
        if "off" in op:                 # this source is there or not, as a whole
            if op["off"]:
                return
            self.hooks = {k: f for k, f in old.items() if k != "wave"}
        if g != 1.0:
            w = self.hooks.get("wave") or (lambda f: f)

            def wave(f):
                f = w(f)

                def src(t):
                    return g * f(t)
                return src
            self.hooks = dict(self.hooks, wave=wave)
        try:
            super().op_drive(op)
        finally:
            self.hooks = old


def merged(scn):
    a, b = scn["bundles"][0], scn["other"]["bundles"][0]
    la, lb = a["levels"][0][0], b["levels"][0][0]
    n, m = la["n"], lb["n"]
    out = copy.deepcopy(a)
    ln = out["levels"][0][0]
    ln["n"] = n + m
    ln.pop("scalar", None)
    for key in ("L", "C", "R", "G"):
        X, Y = la.get(key), lb.get(key)
        if X is None and Y is None:
            continue
        Z = np.zeros((n + m, n + m))
        if X is not None:
            Z[:n, :n] = X
        if Y is not None:
            Z[n:, n:] = Y
        ln[key] = Z.tolist()
    for key in ("zs", "zl"):
        out[key] = (a[key] if isinstance(a[key], list) else [a[key]] * n) + (b[key] if isinstance(b[key], list) else [b[key]] * m)
    return {"bundles": [out], "nets": []}, n


# ------------------------------------------------------------------- verdicts
def execute(scn, ctx):
    src = load_src()
    mode = scn["mode"]
    ctx.shape(mode, [[ln["n"] for lev in b["levels"] for ln in lev] for b in scn["bundles"]], [b["ndiv"] for b in scn["bundles"]],
              sorted(e["k"] for n in scn["nets"] for lv in n["levels"] for e in lv["els"]),
              [(o["op"], o.get("n"), o.get("dtf")) for o in scn["ops"]])
    ctx.hit("symmetry " + mode)
    loss = any(e["k"] == "SS" for n in scn["nets"] for lv in n["levels"] for e in lv["els"])
    tol = c02.tol_of(scn) if loss else 1e-8
    worlds = []
    peaks = (0.0, 0.0)

    def go(s, **kw):
        w = play(s, src, **kw)
        worlds.append(w)
        for _, snap, pr in w.trace:
            for name in sorted(snap):
                ctx.event(name, *snap[name])
        return w

    if mode == "sum":
        def masked(keep):
            n = [0]

            def hook(f):
                on = scn["mask"][n[0] % 40] == keep
                n[0] += 1

                def src(t):
                    return f(t) if on else 0.0
                return src
            return hook
        full = go(scn)

        def part(keep):
            if not scn.get("apart"):
                return scn
            return {**scn, "ops": [{**o, "off": scn["mask"][-1 - j % 40] != keep} if o["op"] == "drive" else o for j, o in enumerate(scn["ops"])]}
        one, two = go(part(True), hooks={"wave": masked(True)}), go(part(False), hooks={"wave": masked(False)})
        both = []
        for (op, a, pa), (_, b, pb) in zip(one.trace, two.trace):
            both.append((op, {k: (a[k][0] + b[k][0], a[k][1] + b[k][1]) for k in a},
                         [(x[0], x[1], x[2], x[3] + y[3]) for x, y in zip(pa, pb)]))
        peaks = same("sum of two sets of sources", both, full.trace, [max(x.peak[j] for x in (full, one, two)) for j in (0, 1)], tol=tol)
    elif mode == "scale":
        by = scn["by"]

        def times(f):
            def src(t):
                return by * f(t)
            return src
        full, twin = go(scn), go(scn, hooks={"wave": times})
        peaks = same(f"all sources times {by}", twin.trace, full.trace, full.peak, lambda b, v: v / by, lambda b, i: i / by, tol=tol)
    elif mode == "delay":
        w0 = World({**scn, "ops": []}, src, drive="real")
        dtf = next((o.get("dtf") for o in scn["ops"] if o["op"] == "run"), None) if scn["ops"] else None
        dt = (dtf or 1.0) * w0.dt_max
        D = scn["k"] * dt
        g = gate(0.25 * dt)

        def late(f):
            f = g(f)

            def src(t):
                return f(t - D)
            return src
        lead = {"op": {"op": "run", "n": scn["k"], "dtf": dtf, "how": "attr"}, "early": scn["early"]}
        full, twin = go(scn, hooks={"wave": g}), go(scn, hooks={"wave": late}, lead=lead)
        ctx.fault("late_start")
        peaks = same(f"everything {scn['k']} steps later", twin.trace, full.trace, full.peak, tmap=lambda t: t - D, tol=tol, dt=10 * dt)
    elif mode == "turn":
        full, twin = go(scn), go(turned(scn))
        peaks = same("described from the other end", twin.trace, full.trace, full.peak, lambda b, v: v[:, ::-1] if v.shape[1] > 1 else v,
                     lambda b, i: -i[:, ::-1], tol=tol, cur=False)
    elif mode == "renumber":
        s, place = renumbered(scn)
        full, twin = go(scn), go(s)
        peaks = same("conductors renumbered", twin.trace, full.trace, full.peak, lambda b, v: v[place[b]], lambda b, i: i[place[b]], tol=tol)
        if s["bundles"] == scn["bundles"]:
            ctx.hit("numbering unchanged by chance")
    elif mode in ("units", "impedance"):
        a = scn["by"]

        def slow(f):
            def src(t):
                return f(t / a)
            return src
        s = scaled(scn, mode, a)
        full = go(scn)
        if mode == "units":
            twin = go(s, hooks={"wave": slow})
            peaks = same(f"lengths and times {a} times as large", twin.trace, full.trace, full.peak, tmap=lambda t: t / a, tol=10 * tol)
        else:
            twin = go(s)
            peaks = same(f"impedances {a} times as large", twin.trace, full.trace, full.peak, imap=lambda b, i: i * a, tol=10 * tol)
    elif mode == "exchange":
        peaks = exchange(scn, go, tol)
    elif mode == "merge":
        peaks = merge(scn, go, tol)
    for w in worlds[:1]:
        ctx.sim_time += len(worlds) * float(w.sim.time)
    ctx.steps += len(worlds) * sum(o.get("n", 0) for o in scn["ops"] if o["op"] in ("run", "step"))
    for o in scn["ops"]:
        if o["op"] == "run":
            ctx.fault("time_step_change" if o.get("dtf") else "pause_and_resume")
        elif o["op"] not in ("probe", "step"):
            ctx.fault("live_edit_" + o["op"])
    if peaks is None or peaks[0] < 1e-9 * abs(scn.get("by", 1.0) if mode == "scale" else 1.0):
        ctx.nontrivial = False


def exchange(scn, go, tol):
    """The current that a source drives through a distant resistor is the current it would get back from there."""
    if len(scn["ports"]) < 2:
        return None
    seen = []
    for k in (0, 1):
        s = copy.deepcopy(scn)
        here, there = scn["ports"][k], scn["ports"][1 - k]
        if not scn["nets"]:
            b = s["bundles"][0]
            s["ops"].insert(0, {"op": "source", "bundle": "line", "end": here[0], "cond": here[1], "src": scn["src"]})
            R = (b["zs"] if there[0] == 0 else b["zl"])[there[1]]
            look = [("line", there[0], there[1], 1.0)]
        else:
            s["nets"][here[0]]["levels"][here[1]]["els"][here[2]]["src"] = scn["src"]
            lv = s["nets"][there[0]]["levels"][there[1]]
            e = lv["els"][there[2]]
            R = e["R"]
            look = [where(s, lv, e["at"], 1.0)] if e["k"] == "R" else [where(s, lv, e["a"], 1.0), where(s, lv, e["b"], -1.0)]
        for name, end, c, _ in look:
            b = next(x for x in s["bundles"] if x["name"] == name)
            b["probes"].append({"pos": [float(x) for x in geometry(b["nodes"], b["ndiv"])[0][end]], "type": "voltage"})
        # probes come bundle by bundle
        order = [name for b in s["bundles"] for name in [b["name"]] * len(b["probes"])]
        w = go(s)
        pr = w.trace[-1][2]
        total = 0.0
        left = list(range(len(pr)))
        for name, end, c, sign in look:
            q = next(x for x in left if order[x] == name)
            left.remove(q)
            total = total + sign * pr[q][3][:, c] / R
        seen.append(total)
        seen.append((R, w.peak[0]))
    i12, (R2, p1), i21, (R1, p2) = seen
    bound = max(p1 / R2, p2 / R1, float(np.max(np.abs(i12))), float(np.max(np.abs(i21))))
    check_close("source and receiver exchanged: current through the other port at each step", i12, i21, 30 * tol * max(bound, 1e-300))
    return max(p1, p2), bound


def where(s, lv, nid, sign):
    for ln in lv["lines"]:
        for k, c in ln["nodes"]:
            if k == nid:
                b = next(x for x in s["bundles"] if x["name"] == ln["bundle"])
                off = 0
                for lev in b["levels"]:
                    for l2 in lev:
                        if l2["name"] == ln["line"]:
                            return (b["name"], 0 if ln["side"] == "S" else -1, off + c, sign)
                        off += l2["n"]
    raise engine.Harness(f"node {nid} not found")


def merge(scn, go, tol):
    """Two lines that do not touch, simulated apart and as one line of two blocks."""
    m, n = merged(scn)
    extra = copy.deepcopy(scn["other"]["ops"])
    one = {"bundles": scn["bundles"], "nets": [], "ops": copy.deepcopy(scn["ops"])}
    two = {"bundles": copy.deepcopy(scn["other"]["bundles"]), "nets": [], "ops": extra + [o for o in copy.deepcopy(scn["ops"]) if o["op"] in ("run", "step")]}
    two["bundles"][0]["probes"] = []
    moved = copy.deepcopy(extra)
    for o in moved:
        if "cond" in o:
            o["cond"] += n
    # a numeric probe count that is the same for both: only the fields are compared
    m["ops"] = [o for o in moved if o["op"] != "probe"] + copy.deepcopy(scn["ops"])
    two["ops"] = [o for o in two["ops"] if o["op"] != "probe"]
    # all three with the time step of the merged line
    dt = min(RefDt(one), RefDt(two))
    for s in (one, two, m):
        ref = RefDt(s)
        for o in s["ops"]:
            if o.get("dtf") is not None:
                o["dtf"] = o["dtf"] * dt / ref
    a, b, c = go(one), go(two), go(m)
    glued = []
    for (op, x, px), (_, y, _) in zip(a.trace, b.trace):
        glued.append((op, {k: (np.vstack([x[k][0], y[k][0]]), np.vstack([x[k][1], y[k][1]])) for k in x}, []))
    return same("two lines as one", c.trace, glued, [max(x.peak[j] for x in (a, b)) for j in (0, 1)], tol=tol, probes=False)


def RefDt(s):
    from ..world import RefBundle
    return min(RefBundle(b).dt_max() for b in s["bundles"])
