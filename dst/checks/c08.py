"""C08: once the sources hold still, a lossy network settles to its direct-current solution in bounded time."""
import numpy as np

from .. import gen, waves
from ..world import Diff, World, load_src, drive_weights
from . import c02

PROP = "C08"
LEVEL = "exploration"
COUNTS = {"quick": 200, "thorough": 12000}
RULE = "distinct = different signature (structure, elements, final source values, disturbances); trivial when the final state is zero everywhere"
COMPONENTS = {"real": ["src.mtln.MTLN", "src.mtl.MTL", "src.mtl.MTLD", "src.networks"],
              "stub": ["source waveforms that move and then hold a level", "clock"],
              "oracle": "independent direct-current circuit solution (resistances, leakage and sources only)"}
CAP = 14000


def hold(rng, T):
    A = rng.choice([1.0, -2.0, 5.0])
    if rng.random() < 0.5:
        return {"k": "ramp", "A": A, "tr": T * rng.uniform(0.1, 1)}
    n = rng.randint(3, 6)
    return {"k": "pwl", "ys": [0.0] + [round(A * rng.uniform(-1, 1), 3) for _ in range(n)], "h": T / n}


def generate(rng, tier, index):
    R = lambda: gen.r3(rng.uniform(20, 200))
    if rng.random() < 0.3:
        b = gen.single(rng, cells=rng.randint(2, 6), nmax=3)
        n = b["levels"][0][0]["n"]
        b["zs"], b["zl"] = [R() for _ in range(n)], [R() for _ in range(n)]
        dt = gen.dt_of(b["nodes"], b["ndiv"], b["levels"][0])
        scn = {"bundles": [b], "nets": [], "dt": dt}
        T = 60 * dt
        ops = [{"op": "source", "bundle": "line", "end": e, "cond": c, "src": hold(rng, T)}
               for e in (0, -1) for c in range(n) if rng.random() < 0.6 or (e, c) == (0, 0)]
    else:
        scn = gen.net_world(rng, nb=rng.choice([1, 1, 2]), kinds=("R", "R", "RR", "C", "LC", "S"), zt=False, small=True, T_steps=60)
        dt = scn["dt"]
        T = 60 * dt
        any_src = False
        for n in scn["nets"]:
            for lv in n["levels"]:
                grounded = set()
                for e in lv["els"]:
                    if "R" in e:
                        e["R"] = R()
                    if e["k"] == "C":
                        e["C"] = gen.r3(rng.uniform(0.2, 2) * dt / 50)
                    if e["k"] == "LC":
                        e["L"], e["C"] = gen.r3(50 * dt * rng.uniform(1, 5)), gen.r3(dt / 50 * rng.uniform(1, 5))
                    if e.get("src"):
                        e["src"] = hold(rng, T)
                    if e["k"] in ("R", "S", "LC"):
                        grounded.add(e["at"])
                # every node gets a resistive path to ground, or it would settle arbitrarily slowly
                for ln in lv["lines"]:
                    for nid, _ in ln["nodes"]:
                        if nid not in grounded and rng.random() < 0.8:
                            lv["els"].append({"k": "R", "at": nid, "R": R(), "src": hold(rng, T) if rng.random() < 0.3 else None})
        ops = []
        for _ in range(rng.choice([0, 0, 1])):
            b = rng.choice(scn["bundles"])
            a, z = gen.two_pos(rng, b["nodes"], b["ndiv"])
            ops.append({"op": "drive", "bundle": b["name"], "cond": 0, "a": a, "b": z, "src": hold(rng, T)})
    for b in scn["bundles"]:
        b["probes"] = []
        for lev in b["levels"]:
            for ln in lev:      # losses along the line damp what the ends reflect
                ln["R"] = gen.spd(rng, ln["n"], 20, 100)
                ln["G"] = gen.spd(rng, ln["n"], 1e-3, 1e-2)
                if rng.random() < 0.3:
                    ln["R" if rng.random() < 0.5 else "G"] = None
    # a loop without any resistance keeps its current for ever
    bare = {(b["name"], ln["name"]) for b in scn["bundles"] for lev in b["levels"] for ln in lev if ln["R"] is None}
    for n in scn.get("nets", []):
        for lv in n["levels"]:
            at = {q for ln in lv["lines"] if (ln["bundle"], ln["line"]) in bare for q, _ in ln["nodes"]}
            lv["els"] = [{"k": "R", "at": e["at"], "R": R(), "src": None} if e["k"] == "S" and e["at"] in at else e for e in lv["els"]]
    ops.append({"op": "run", "n": rng.choice([5, 30, 90]), "dtf": rng.choice([0.95, 0.9, 0.7])})
    # disturbances on the way: the final state must not depend on them
    for _ in range(rng.choice([0, 1, 2])):
        k = rng.choice(["run", "setR", "addG", "dt"])
        b = rng.choice(scn["bundles"])
        if k == "run":
            ops.append({"op": "run", "n": rng.choice([0, 3, 40])})
        elif k == "dt":
            ops.append({"op": "run", "n": rng.choice([0, 3, 40]), "dtf": rng.choice([0.95, 0.8, 0.6])})
        else:
            a, z = gen.two_pos(rng, b["nodes"], b["ndiv"])
            e = {"op": k, "bundle": b["name"], "cond": 0, "a": a, "b": z}
            e["R" if k == "setR" else "G"] = gen.r3(rng.uniform(5, 50)) if k == "setR" else gen.r3(rng.uniform(1e-3, 1e-2))
            ops.append(e)
    scn["ops"] = ops
    return scn


def dc(w, t):
    """Solve the circuit at rest: unknowns are all node voltages and all cell currents."""
    ix = {}
    for name, rb in w.rb.items():
        for c in range(rb.b.n):
            for k in range(rb.b.N + 1):
                ix[("v", name, c, k)] = len(ix)
    for name, rb in w.rb.items():
        for c in range(rb.b.n):
            for k in range(rb.b.N):
                ix[("i", name, c, k)] = len(ix)
    m = len(ix)
    A, y = np.zeros((m, m)), np.zeros(m)
    for name, rb in w.rb.items():
        b = rb.b
        EL = b.field_L(t)
        for k in range(b.N):
            for c in range(b.n):
                r = ix[("i", name, c, k)]
                A[r, ix[("v", name, c, k + 1)]] += 1
                A[r, ix[("v", name, c, k)]] -= 1
                for c2 in range(b.n):
                    A[r, ix[("i", name, c2, k)]] += b.h[k] * (b.R[k][c, c2] + b.D[k][c, c2])
                y[r] += b.h[k] * EL[c, k]
        for k in range(b.N + 1):
            H = b.h[0] / 2 if k == 0 else b.h[-1] / 2 if k == b.N else b.node_len(k)
            for c in range(b.n):
                r = ix[("v", name, c, k)]
                if k < b.N:
                    A[r, ix[("i", name, c, k)]] += 1
                if k > 0:
                    A[r, ix[("i", name, c, k - 1)]] -= 1
                for c2 in range(b.n):
                    A[r, ix[("v", name, c2, k)]] += H * b.G[k][c, c2]
        for side, (Z, srcs) in b.term.items():
            k = 0 if side == 0 else b.N
            for c in range(b.n):
                r = ix[("v", name, c, k)]
                g = 1 / Z[c, c]
                A[r, r] += g
                y[r] += g * (srcs[c](t) if c in srcs else 0.0)
    s = lambda e: 0.0 if not e.get("src") else waves.make(e["src"])(t)
    for n in w.scn["nets"]:
        for lv in n["levels"]:
            node = {}
            for ln in lv["lines"]:
                rb = w.rb[ln["bundle"]]
                for nid, cond in ln["nodes"]:
                    node[nid] = ix[("v", ln["bundle"], rb.offset[ln["line"]] + cond, 0 if ln["side"] == "S" else rb.b.N)]
            for e in lv["els"]:
                if e["k"] in ("R", "LC"):
                    A[node[e["at"]], node[e["at"]]] += 1 / e["R"]
                    y[node[e["at"]]] += s(e) / e["R"]
                elif e["k"] == "S":
                    A[node[e["at"]], node[e["at"]]] += 1e10
                elif e["k"] == "RR":
                    p, q = node[e["a"]], node[e["b"]]
                    A[p, p] += 1 / e["R"]
                    A[q, q] += 1 / e["R"]
                    A[p, q] -= 1 / e["R"]
                    A[q, p] -= 1 / e["R"]
                    y[p] += s(e) / e["R"]
                    y[q] -= s(e) / e["R"]
    # scale the rows: shorts and leakages differ by many decades
    sc = np.max(np.abs(A), axis=1)
    x = np.linalg.solve(A / sc[:, None], y / sc)
    out = {}
    for name, rb in w.rb.items():
        v = np.array([[x[ix[("v", name, c, k)]] for k in range(rb.b.N + 1)] for c in range(rb.b.n)])
        i = np.array([[x[ix[("i", name, c, k)]] for k in range(rb.b.N)] for c in range(rb.b.n)])
        out[name] = (v, i)
    return out


def execute(scn, ctx):
    src = load_src()
    w = World(scn, src)
    ctx.shape([[ln["n"] for lev in x["levels"] for ln in lev] for x in scn["bundles"]], [x["ndiv"] for x in scn["bundles"]],
              [sorted(e["k"] for lv in n["levels"] for e in lv["els"]) for n in scn["nets"]])
    # only the book-keeping of the reference is used here, not its time stepping
    w.ref_steps = lambda n: None
    dt = w.dt_max
    now = 0.0
    for op in scn["ops"]:
        if op["op"] == "run":
            if op.get("dtf"):
                dt = op["dtf"] * w.dt_max
                ctx.fault("time_step_change")
            now += op["n"] * dt
            w.steps += op["n"]
        elif op["op"] in ("setR", "addG"):
            ctx.fault("live_edit_" + op["op"])
        w.apply(op)
        ctx.shape(op["op"], op.get("n"))
    want = dc(w, 1e3)
    sv = max(max(float(np.max(np.abs(v))) for v, _ in want.values()), 1e-9)
    si = max(max(float(np.max(np.abs(i))) for _, i in want.values()), 1e-9)
    w.sim.dt = dt
    worst = None
    hold = 0
    while w.steps < CAP:
        w.sim.run_until(100.5 * dt)
        w.steps += 100
        worst = None
        for name, (v, i) in want.items():
            o = w.real[name]
            ev, ei = float(np.max(np.abs(o.v - v))) / sv, float(np.max(np.abs(o.i - i))) / si
            if not (ev < 2e-3 and ei < 5e-3):
                worst = (name, ev, ei)
        hold = 0 if worst else hold + 1
        if hold >= 3:
            break
    ctx.state(w.real)
    ctx.hit("settled_within_%d" % (2000 if w.steps <= 2000 else 6000 if w.steps <= 6000 else CAP))
    if hold < 3:
        name, ev, ei = worst or ("?", 0, 0)
        raise Diff("settling", f"after {w.steps} steps with constant sources {name} is still {ev:.3%} of the largest voltage and {ei:.3%} of the "
                   f"largest current away from the direct-current solution")
    ctx.nontrivial = sv > 1e-6
    ctx.steps += w.steps
    ctx.sim_time += now + (w.steps) * dt
