"""C18: a request that cannot be met is refused, and the simulation is as if it had never been made."""
import copy

import numpy as np

from .. import fields, gen
from ..world import Diff, World, load_src
from . import c01, c02

PROP = "C18"
LEVEL = "exploration"
COUNTS = {"quick": 900, "thorough": 30000}
RULE = ("distinct = different signature (structure, history, kinds and places of the refused requests); trivial when no request was "
        "refused or no voltage above 1e-9 V ever appears")
COMPONENTS = {"real": ["src.mtl", "src.mtln", "src.networks", "src.dispersive", "src.probes"],
              "stub": ["source waveforms", "clock", "a caller who asks for things that cannot be (simulated environment)"],
              "oracle": "a twin of the same simulation in which the refused requests were never made, compared to the last bit"}

LINE = ["probe_off", "probe_type", "setR_reversed", "addG_reversed", "setR_cond", "addG_cond", "field_shape", "field_window", "source_cond",
        "lumped_off", "lumped_lists", "lumped_taken", "lumped_cond", "port_terminal", "run_endless"]
BUNDLE = ["probe_off", "probe_type", "setR_reversed", "addG_reversed", "setR_cond", "addG_cond", "field_shape", "drive_off", "drive_cond", "drive_what",
          "zt_levels", "zt_lists", "zt_cond", "zt_side", "zt_direction"]
NETWORK = ["net_node", "net_node", "net_zero", "net_state", "net_foreign", "net_place", "net_place", "sim_bundle", "sim_field", "sim_field_name", "run_endless"]
BUILD = ["mtl_LC", "mtl_R", "mtl_G", "mtl_Z", "mtl_path", "mtld_two", "mtld_path", "mtld_type", "net_twice", "net_side", "net_negative"]


def bad_op(rng, scn, line):
    k = rng.random()
    if k < 0.2:
        what = rng.choice(BUILD if not line else BUILD[:8])
    elif line:
        what = rng.choice(LINE)
    else:
        what = rng.choice(BUNDLE if k < 0.65 else NETWORK)
    b = rng.choice(scn["bundles"])
    return {"op": "bad", "what": what, "bundle": b["name"], "x": [rng.random() for _ in range(6)], "n": rng.randrange(4)}


def generate(rng, tier, index):
    line = rng.random() < 0.4
    if line:
        b = gen.single(rng, cells=rng.randint(2, 9))
        scn = {"bundles": [b], "nets": [], "dispersive": rng.random() < 0.5}
        gen.add_probes(rng, b)
        dt = gen.dt_of(b["nodes"], b["ndiv"], b["levels"][0])
        used = set()
        if scn["dispersive"]:
            ln = b["levels"][0][0]
            ln["lumped"] = []
            for _ in range(rng.choice([1, 2])):
                gen.lumped(rng, b, dt, used, rng.randrange(ln["n"]), ln["lumped"].append)
        scn["ops"] = c01.random_ops(rng, scn, dt, rng.choice([1, 2, 2]), used)
    else:
        zt = rng.random() < 0.4
        scn = gen.net_world(rng, nb=1 if zt else None, kinds=rng.choice(c02.SWARM[:6]), zt=zt, small=True, T_steps=60)
        scn["ops"] = c02.history(rng, scn, rng.choice([20, 40, 60]))
    ops = scn["ops"]
    for op in list(ops):                     # cut long runs: refused requests strike between their pieces as well
        if op["op"] == "run" and op["n"] > 6 and rng.random() < 0.5:
            k = rng.randrange(1, op["n"])
            at = next(j for j, o in enumerate(ops) if o is op)
            ops[at] = {**op, "n": k}
            ops.insert(at + 1, {"op": "step", "n": min(op["n"] - k, 40)})
    for _ in range(rng.choice([1, 2, 4, 8])):
        ops.insert(rng.randrange(len(ops) + 1), bad_op(rng, scn, line))
    return scn


class Skip(Exception):
    """This world has nothing to make the request of."""


def off_point(u, x):
    """A point well away from the line, outside the box around it."""
    lo, hi = u.min(axis=0), u.max(axis=0)
    size = max(float(np.linalg.norm(hi - lo)), 1e-3)
    p = u[int(x[0] * len(u))].copy()
    ax = int(x[1] * 3)
    far = (0.05 + 3 * x[2]) * size
    p[ax] = hi[ax] + far if x[3] < 0.5 else lo[ax] - far
    return p


def two_nodes(u, x):
    """Two different nodes, the farther one first."""
    a = 1 + int(x[0] * (len(u) - 1))
    return u[a].copy(), u[int(x[1] * a)].copy()


def uneven(n):
    """Pole and residue lists that do not belong together."""
    m = {"cte": 1.0, "prop": 0.0, "poles": {"real": [-1e9], "imag": [0.0]}, "residues": {"real": [1e9], "imag": [0.0]}, "direction": "both"}
    part, half = [("poles", "real"), ("poles", "imag"), ("residues", "real"), ("residues", "imag")][n]
    m[part][half] = m[part][half] * 2
    return m


def sound():
    return {"cte": 3.0, "prop": 0.0, "poles": {"real": [], "imag": []}, "residues": {"real": [], "imag": []}, "direction": "both"}


def a_field(src):
    return fields.symbolic({"form": "linear", "E": [[1.0, 0, 0, 0]] * 3, "g": {"t0": 1e-9, "s": 1e-9}}, src)


def request(w, op):
    """Make the request of the simulation `w`; it has to raise."""
    src, x, n, what = w.src, op["x"], op["n"], op["what"]
    mtl, nw = src["mtl"], src["nw"]
    b = w.bundles[op["bundle"]]
    o = w.real[op["bundle"]]
    u = w.geo(op["bundle"])[0]
    cond = sum(ln["n"] for lev in b["levels"] for ln in lev)
    top = sum(ln["n"] for ln in b["levels"][0])
    level0 = [ln["n"] for ln in b["levels"][0]]
    beyond = cond + int(x[4] * 3)
    wave = lambda t: 5.0
    late = lambda t: float("nan")                 # must never be asked for a value
    kind = ["voltage", "current"][n % 2]
    if what == "probe_off":
        return o.add_probe(off_point(u, x), kind)
    if what == "probe_type":
        return o.add_probe(u[int(x[0] * len(u))].copy(), ["volts", "Voltage", "power", None][n])
    if what in ("setR_reversed", "addG_reversed"):
        if len(u) < 3:
            raise Skip
        a, z = two_nodes(u, x)
        f = o.set_resistance_in_region if what[0] == "s" else o.add_conductance_in_region
        return f(a, z, int(x[2] * cond), 10.0)
    if what == "setR_cond":
        return o.set_resistance_in_region(u[0].copy(), u[-1].copy(), beyond, 10.0)
    if what == "addG_cond":
        return o.add_conductance_in_region(u[0].copy(), u[-1].copy(), beyond, 1e-2)
    if what == "field_shape":
        shape = [(top + 1, len(u), 3), (top, len(u) + 1, 3), (top, len(u), 2), (top, len(u) - 1, 3)][n]
        return o.add_external_field(a_field(src), np.full(shape, 0.01))
    if what == "field_window":                    # a stretch without an end
        return o.add_external_field(a_field(src), np.full((top, len(u), 3), 0.01), [u[0].copy()])
    if what == "source_cond":
        return o.add_voltage_source(u[0].copy(), beyond, wave)
    if what == "lumped_off":
        return o.add_dispersive_connector(off_point(u, x), int(x[4] * cond), sound())
    if what == "lumped_lists":
        return o.add_dispersive_connector(u[0].copy(), int(x[4] * cond), uneven(n))
    if what == "lumped_cond":
        return o.add_dispersive_connector(u[0].copy(), beyond, sound())
    if what == "lumped_taken":
        have = b["levels"][0][0].get("lumped") or []
        if not have:
            raise Skip
        q = have[int(x[0] * len(have))]
        return o.add_dispersive_connector(np.array(q["pos"], float), q["cond"], sound())
    if what == "port_terminal":
        return o.add_port_probe(2 + n)
    if what == "run_endless":
        return w.sim.run_until([float("nan"), float("inf")][n % 2])
    if what == "drive_off":
        p = off_point(u, x)
        return o.add_localized_longitudinal_field(*([u[0].copy(), p] if n % 2 else [p, u[-1].copy()]), int(x[4] * cond), wave, "")
    if what == "drive_cond":
        return o.add_localized_longitudinal_field(u[0].copy(), u[-1].copy(), beyond, wave, "")
    if what == "drive_what":                      # a source that does not depend on time
        return o.add_localized_longitudinal_field(u[0].copy(), u[-1].copy(), int(x[4] * cond), [lambda q: 5.0, 5.0, "5", None][n], "")
    if what == "zt_levels":
        pair = [(0, 0), (0, 2), (2, 0), (1, 3)][n]
        return o.add_transfer_impedance(pair[0], [0], pair[1], [0], sound())
    if what == "zt_lists":
        if len(b["levels"]) < 2:
            raise Skip
        if x[0] < 0.5:
            return o.add_transfer_impedance(0, [0], 1, [0], uneven(n))
        return o.set_connector_transfer_impedance(["initial", "end"][int(x[1] * 2)], 0, [0], 1, [0], uneven(n))
    if what == "zt_cond":
        if len(b["levels"]) < 2:
            raise Skip
        k = int(x[5] * (len(b["levels"]) - 1))
        sizes = [sum(ln["n"] for ln in lev) for lev in b["levels"]]
        outs, ins = ([0, sizes[k]], [0]) if n % 2 else ([0], [0, sizes[k + 1]])
        if x[0] < 0.5:
            return o.add_transfer_impedance(k, outs, k + 1, ins, sound())
        return o.set_connector_transfer_impedance(["initial", "end"][int(x[1] * 2)], k, outs, k + 1, ins, sound())
    if what == "zt_direction":
        if len(b["levels"]) < 2:
            raise Skip
        m = {**sound(), "direction": ["inward", "", None, "In"][n]}
        if x[0] < 0.5:
            return o.add_transfer_impedance(0, [0], 1, [0], m)
        return o.set_connector_transfer_impedance(["initial", "end"][int(x[1] * 2)], 0, [0], 1, [0], m)
    if what == "zt_side":
        if len(b["levels"]) < 2:
            raise Skip
        return o.set_connector_transfer_impedance(["start", "S", "", None][n], 0, [0], 1, [0], sound())
    if what in ("net_node", "net_zero", "net_state"):
        nets = [lv for d in w.nets for lv in d.levels.values()]
        k = int(x[0] * len(nets))
        net = nets[k]
        lv = [lv for d in w.scn["nets"] for lv in d["levels"]][k]
        nodes = [q[0] for ln in lv["lines"] for q in ln["nodes"]]
        here = nodes[int(x[1] * len(nodes))]
        gone = max(nodes) + 1 + int(x[2] * 3)
        while gone in nodes:
            gone += 1
        if what == "net_node":
            return [lambda: net.connect_to_ground_R(gone, 50.0, wave), lambda: net.connect_nodes(here, gone, 50.0, wave),
                    lambda: net.short_nodes(here, gone) if x[3] < 0.5 else net.short_to_ground(gone),
                    lambda: net.connect_to_ground_C(gone, 1e-12, wave) if x[3] < 0.5 else net.connect_to_ground(gone, 50.0, wave)][n]()
        if what == "net_zero":
            return [lambda: net.connect_to_ground_R(here, 0, late), lambda: net.connect_to_ground(here, 0, late),
                    lambda: net.connect_nodes(here, nodes[-1], 0), lambda: net.connect_nodes(here, nodes[-1], 0, late)][n]()
        plain = [q for q in nodes if not any(e["k"] in ("LC", "C") and e["at"] == q for e in lv["els"])]
        lc = [e["at"] for e in lv["els"] if e["k"] == "LC"]
        if x[3] < 0.5:
            if not plain:
                raise Skip
            return net.connect_to_ground_LCpRs(plain[0], 50.0, 1e-9, 1e-12, wave)     # no element of that kind was foreseen there
        if not lc:
            raise Skip
        return net.connect_to_ground_LCpRs(lc[0], *[(-5.0, 1e-9, 1e-12), (5.0, -1e-9, 1e-12), (5.0, 1e-9, 1e23), (5.0, 0, 1e-12)][n], wave)
    if what == "net_foreign":
        other = copy.deepcopy(o)
        other.name = "elsewhere"
        line = other.levels[0][0]
        desc = {line: {"side": "SL"[n % 2], "bundle": other, "connections": [[10 ** 6 + q, q, {"connectorType": "Conn_R"}] for q in range(level0[0])]}}
        return w.sim.add_network(nw.NetworkD({0: nw.Network(desc)}))
    if what == "net_place":                       # where another network is already, or twice in one place
        line, sim = o.levels[0][0], w.sim
        have = [[10 ** 6 + q, q, {"connectorType": "Conn_R"}] for q in range(level0[0])]
        if n == 3 and level0[0] > 1:
            line = mtl.MTL(l=np.eye(2) * 2.5e-7, c=np.eye(2) * 1e-10, ndiv=[3], name="fresh")
            o = mtl.MTLD({0: [line]}, name="fresh")
            have = [[10 ** 6, 1, {"connectorType": "Conn_R"}], [10 ** 6 + 1, 1, {"connectorType": "Conn_R"}]]
            sim = src["mtln"].MTLN([o], [])
        net = nw.Network({line: {"side": "SL"[n % 2], "bundle": o, "connections": have}})
        net.connect_to_ground(10 ** 6, 50.0, late)
        return sim.add_network(nw.NetworkD({0: net})) if x[0] < 0.5 else sim.add_networks([nw.NetworkD({0: net})])
    if what == "sim_bundle":
        return w.sim.add_bundle(copy.deepcopy(o))
    if what == "sim_field":
        order = list(w.real.values())
        last = order[-1]
        shape = (last.levels[0][0].number_of_conductors, last.u.shape[0], 3)
        first = (order[0].levels[0][0].number_of_conductors, order[0].u.shape[0], 3)
        if len(order) > 1 and shape != first:     # fits some of the bundles
            return w.sim.add_external_field(a_field(src), np.full(first, 0.01))
        return w.sim.add_external_field(a_field(src), np.full((shape[0], shape[1] + 2, 3), 0.01))
    if what == "sim_field_name":
        return w.sim.add_localized_external_field("elsewhere", a_field(src), np.full((top, len(u), 3), 0.01), [u[0].copy(), u[-1].copy()])
    return build(w, op, src)


def build(w, op, src):
    """Parts that cannot exist."""
    mtl, nw = src["mtl"], src["nw"]
    x, n, what = op["x"], op["n"], op["what"]
    I2, I3 = np.eye(2), np.eye(3)
    L, C = 2.5e-7, 1e-10
    path = np.array([[0.0, 0, 0], [0, 0, 1.0]])
    if what == "mtl_LC":
        l, c = [(L * I2, C * I3), (L * np.ones((2, 3)), C * np.ones((2, 3))), (L * I2, C), ([[L]], [[C]])][n]
        return mtl.MTL(l=l, c=c, ndiv=[4], node_positions=path)
    if what in ("mtl_R", "mtl_G"):
        v = [np.eye(3), np.ones((2, 3)), 5.0, [[5.0, 0.0], [0.0, 5.0]]][n]
        return mtl.MTL(l=L * I2, c=C * I2, ndiv=[4], node_positions=path, **{what[-1].lower(): v})
    if what == "mtl_Z":
        zs, zl = [(np.array([50.0]), np.array([50.0])), (np.array([50.0, 50.0]), 50.0), (np.array([50.0, 50.0]), np.array([50.0])),
                  (np.full((2, 3), 50.0), np.full((2, 3), 50.0))][n]
        return mtl.MTL(l=L * I2, c=C * I2, ndiv=[4], node_positions=path, Zs=zs, Zl=zl)
    if what == "mtl_path":
        return mtl.MTL(l=L, c=C, ndiv=[[4, 2], [4, 2, 3], [4], [2, 2, 2]][n], node_positions=path if n != 2 else np.array([[0.0, 0, 0], [0, 0, 1], [0, 1, 1]]))
    line = next(iter(w.real_lines.values()))
    if what == "mtld_two":
        return mtl.MTLD({0: [line, copy.deepcopy(line)]} if n % 2 else {0: []}, name="two")
    if what == "mtld_path":
        moved = mtl.MTL(l=L, c=C, node_positions=path + [0.0, 0.0, 77.0], ndiv=[len(line.u) - 1 + n % 2])
        return mtl.MTLD({0: [line], 1: [moved]}, name="apart")
    if what == "mtld_type":
        return mtl.MTLD({0: [line], 1: ["line"]}, name="odd")
    lv = w.scn["nets"][int(x[0] * len(w.scn["nets"]))]["levels"][0]
    ln = lv["lines"][0]
    obj = w.real_lines[(ln["bundle"], ln["line"])]
    conns = [[nid, c, {"connectorType": "Conn_R"}] for nid, c in ln["nodes"]]
    side = ln["side"]
    if what == "net_twice":
        if len(conns) < 2:
            raise Skip
        conns[1][0] = conns[0][0]
    elif what == "net_side":
        side = ["s", "initial", "", None][n]
    else:
        conns[-1][0] = -1 - n
    return nw.Network({obj: {"side": side, "bundle": w.real[ln["bundle"]], "connections": conns}})


def look(w):
    """Everything a user sees of a simulation."""
    out = {"time": w.sim.time, "dt": w.sim.dt}
    for name, o in w.real.items():
        out["voltage on " + name] = o.v.copy()
        out["current on " + name] = o.i.copy()
        out["number of probes on " + name] = len(o.probes)
        for k, p in enumerate(o.probes):
            out[f"stamps of probe {k} on {name}"] = np.array(p.t, float)
            out[f"record of probe {k} on {name}"] = np.array(p.val, float)
    if not w.single:
        out["bundles"] = list(w.sim.bundles)
        out["number of networks"] = len(w.sim.networks)
    return out


def same(what, a, b):
    if a.keys() != b.keys():
        raise Diff("trace", f"{what}: {sorted(set(a) ^ set(b))[0]} differs from the twin's")
    for k in b:
        x, y = a[k], b[k]
        if isinstance(y, np.ndarray):
            ok = x.shape == y.shape and np.array_equal(x, y, equal_nan=True)
        else:
            ok = x == y
        if not ok:
            raise Diff("trace", f"{what}: {k} is not what it is without the refused requests")


def execute(scn, ctx):
    src = load_src()
    a = World(scn, src, drive="real")
    b = World(scn, src, drive="real")
    ctx.shape([[ln["n"] for lev in x["levels"] for ln in lev] for x in scn["bundles"]], [x["ndiv"] for x in scn["bundles"]])
    refused = []
    peak = 0.0
    ran = False
    for op in scn["ops"]:
        if op["op"] == "bad":
            try:
                request(a, op)
            except Skip:
                continue
            except Exception:
                pass
            else:
                raise Diff("accepted", f"a request that cannot be met ({op['what']}, variant {op['n']}) was accepted without a word")
            refused.append(op["what"])
            ctx.fault("refused_" + op["what"].split("_")[0])
            ctx.hit(op["what"])
            ctx.shape("bad", op["what"], op["n"], a.sim.time > 0)
            same(f"right after the refused {op['what']}", look(a), look(b))
            continue
        if op["op"] == "step" and not ran:
            a.apply({"op": "run", "n": 0})
            b.apply({"op": "run", "n": 0})
        ran |= op["op"] in ("run", "step")
        a.apply(op)
        b.apply(op)
        ctx.event(op["op"])
        ctx.shape(op["op"], op.get("n"), op.get("dtf"))
        if op["op"] in ("run", "step"):
            same(f"after {op['op']} {op['n']}, {refused[-1] if refused else 'nothing'} refused before", look(a), look(b))
            ctx.steps += op["n"]
            ctx.state(a.real)
            peak = max([peak] + [float(np.max(np.abs(o.v))) for o in a.real.values()])
    ctx.sim_time += a.sim.time
    ctx.nontrivial = bool(refused) and peak > 1e-9
