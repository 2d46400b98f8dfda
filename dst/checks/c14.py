"""C14: under steady sinusoidal sources a simulation reaches the phasors of the continuous circuit."""
import copy

import numpy as np
from scipy.linalg import expm

from .. import gen
from ..world import Diff, World, load_src
from . import c02

PROP = "C14"
LEVEL = "exploration"
COUNTS = {"quick": 300, "thorough": 20000}
RULE = ("distinct = different signature (bundles, conductors, cells, element kinds, edits, period); trivial when the system does not "
        "settle within the steps allowed or its cells are too coarse for the continuous theory to decide anything")
COMPONENTS = {"real": ["src.mtl", "src.mtln", "src.networks", "src.dispersive", "src.probes"],
              "stub": ["source waveforms (simulated environment)", "clock (time step chosen by the simulator)"],
              "oracle": "frequency-domain solution of the continuous line equations (matrix exponential of every cell) joined to the "
                        "admittances of the lumped elements; its own difference from the discrete ladder bounds what is allowed"}


def generate(rng, tier, index):
    single = rng.random() < 0.4
    R = lambda: rng.choice([50.0, 100.0, 20.0, gen.r3(rng.uniform(15, 400))])
    if single:
        b = gen.single(rng, cells=rng.randint(3, 14))
        n = b["levels"][0][0]["n"]
        b["zs"], b["zl"] = [R() for _ in range(n)], [R() for _ in range(n)]
        if rng.random() < 0.2:
            b[rng.choice(["zs", "zl"])][rng.randrange(n)] = rng.choice([0.0, 1e6])
        scn = {"bundles": [b], "nets": []}
        dt = gen.dt_of(b["nodes"], b["ndiv"], b["levels"][0])
    else:
        zt = rng.random() < 0.5
        kinds = [k for k in rng.choice(c02.SWARM) if k != "SS" or rng.random() < 0.3]
        scn = gen.net_world(rng, nb=1 if zt else rng.choice([1, 2]), kinds=kinds, zt=zt, small=True)
        dt = scn["dt"]
        for b in scn["bundles"]:
            for z in b.get("zt", []):
                if rng.random() < 0.3:
                    z["side"] = rng.choice(["initial", "end"])
        for net in scn["nets"]:
            for lv in net["levels"]:
                for e in lv["els"]:
                    if "R" in e and e["R"] > 1e3:
                        e["R"] = R()
    for b in scn["bundles"]:
        b["probes"] = []
        if rng.random() < 0.4:
            used = set()
            ln = rng.choice(b["levels"][0])
            ln["lumped"] = []
            for _ in range(rng.choice([1, 2, 3])):
                gen.lumped(rng, b, dt, used, rng.randrange(ln["n"]), ln["lumped"].append)
    hs = [x for b in scn["bundles"] for x in cell_times(b)]
    ratio = max(hs) / min(hs)
    f = rng.choice([1.0, 0.9, 0.6])
    period = int(rng.uniform(25, 60) * max(ratio, 1.0) / f)
    period = min(max(period, 25), 700)
    w = 2 * np.pi / (period * f * dt)

    def sine():
        return {"k": "sin", "A": rng.choice([1.0, -2.0, 0.5]), "w": w}
    ops = []
    if single:
        ops.append({"op": "source", "bundle": "line", "end": rng.choice([0, -1]), "cond": rng.randrange(n), "src": sine()})
        for _ in range(rng.choice([0, 0, 1])):
            ops.append({"op": "source", "bundle": "line", "end": rng.choice([0, -1]), "cond": rng.randrange(n), "src": sine()})
    else:
        for net in scn["nets"]:
            for lv in net["levels"]:
                for e in lv["els"]:
                    if e.get("src"):
                        e["src"] = sine()
    for _ in range(rng.choice([0, 0, 1, 2])):
        b = rng.choice(scn["bundles"])
        a, z = gen.two_pos(rng, b["nodes"], b["ndiv"])
        k = rng.choice(["setR", "addG"] if single else ["drive", "drive", "setR", "addG"])
        op = {"op": k, "bundle": b["name"], "cond": rng.randrange(sum(ln["n"] for lev in b["levels"] for ln in lev)), "a": a, "b": z}
        op.update({"setR": {"R": gen.r3(rng.uniform(1, 100))}, "addG": {"G": gen.r3(rng.uniform(1e-4, 1e-2))}, "drive": {"src": sine()}}[k])
        ops.append(op)
    rng.shuffle(ops)
    scn.update(ops=ops, period=period, dtf=f, w=w, chunks=[rng.choice([1, 5, 30, 80, 200]) for _ in range(rng.choice([1, 2, 4]))],
               gap=rng.choice([1, 2, 3]))
    return scn


def cell_times(b):
    """Transit times of the cells (slowest mode)."""
    from ..world import geometry
    _, h = geometry(b["nodes"], b["ndiv"])
    slow = max(np.sqrt(max(np.linalg.eigvals(np.array(ln["L"]) @ np.array(ln["C"])).real)) for lev in b["levels"] for ln in lev)
    fast = min(np.sqrt(min(np.linalg.eigvals(np.array(ln["L"]) @ np.array(ln["C"])).real)) for lev in b["levels"] for ln in lev)
    return [float(x * slow) for x in h] + [float(min(h) * fast)]


class Phasors:
    """Nodal analysis of the whole system at one complex frequency."""

    def __init__(self, scn, ref, w, exact, lag=0.0):
        self.s = s = 1j * w
        # first-order terms of the scheme: half a step in the elements with memory
        self.s_el = s * (1 - s * lag)
        self.late = np.exp(s * lag)
        self.off = {}
        m = 0
        for b in scn["bundles"]:
            self.off[b["name"]] = m
            m += (sum(b["ndiv"]) + 1) * sum(ln["n"] for lev in b["levels"] for ln in lev)
        self.Y = np.zeros((m, m), complex)
        self.I = np.zeros(m, complex)
        self.cur = {}
        emf = {}
        for o in scn["ops"]:
            if o["op"] == "drive":
                rb = ref.rb[o["bundle"]]
                from ..world import drive_weights
                for cell, wt in drive_weights(rb.u, rb.h, o["a"], o["b"]).items():
                    key = (o["bundle"], cell)
                    emf.setdefault(key, np.zeros(rb.b.n, complex))[o["cond"]] += wt * amp(o["src"])
        for b in scn["bundles"]:
            self.bundle(b, ref.rb[b["name"]].b, emf, exact)
        if not scn["nets"]:
            b = scn["bundles"][0]
            n = ref.rb["line"].b.n
            src = {}
            for o in scn["ops"]:
                if o["op"] == "source":
                    src[(o["end"], o["cond"])] = amp(o["src"])
            for end, key in ((0, "zs"), (-1, "zl")):
                z = b[key] if isinstance(b[key], list) else [b[key]] * n
                for c in range(n):
                    self.branch(self.node("line", end, c, ref), None, 1 / max(z[c], 1e-7), src.get((end, c), 0))
        for net in scn["nets"]:
            for lv in net["levels"]:
                at = {}
                for ln in lv["lines"]:
                    for nid, c in ln["nodes"]:
                        at[nid] = self.node(ln["bundle"], 0 if ln["side"] == "S" else -1, ref.rb[ln["bundle"]].offset[ln["line"]] + c, ref)
                se = self.s_el
                for e in lv["els"]:
                    a = amp(e["src"]) if e.get("src") else 0
                    k = e["k"]
                    if k == "R":
                        self.branch(at[e["at"]], None, 1 / e["R"], a)
                    elif k == "RR":
                        self.branch(at[e["a"]], at[e["b"]], 1 / e["R"], a)
                    elif k == "C":
                        self.branch(at[e["at"]], None, se * e["C"], a)
                    elif k == "LC":
                        self.branch(at[e["at"]], None, 1 / (e["R"] + 1 / (se * e["C"] + 1 / (se * e["L"]))), a)
                    elif k == "S":
                        self.branch(at[e["at"]], None, 1e7, 0)
                    elif k == "SS":
                        self.branch(at[e["a"]], at[e["b"]], 1e7, 0)
        V = np.linalg.solve(self.Y, self.I)
        self.v, self.i = {}, {}
        for b in scn["bundles"]:
            rb = ref.rb[b["name"]].b
            o = self.off[b["name"]]
            v = V[o:o + (rb.N + 1) * rb.n].reshape(rb.N + 1, rb.n)
            self.v[b["name"]] = v.T
            self.i[b["name"]] = np.array([P @ v[k] + Q @ v[k + 1] + r for k, (P, Q, r) in enumerate(self.cur[b["name"]])]).T

    def node(self, name, end, c, ref):
        rb = ref.rb[name].b
        return self.off[name] + (0 if end == 0 else rb.N) * rb.n + c

    def branch(self, a, b, y, e):
        """Admittance y in series with a source that raises node a (against node b or ground)."""
        self.Y[a, a] += y
        self.I[a] += y * e
        if b is not None:
            self.Y[b, b] += y
            self.Y[a, b] -= y
            self.Y[b, a] -= y
            self.I[b] -= y * e

    def bundle(self, b, rb, emf, exact):
        n, s = rb.n, self.s
        G0 = np.zeros((n, n))
        o = 0
        for lev in b["levels"]:
            for ln in lev:
                if ln.get("G") is not None:
                    G0[o:o + ln["n"], o:o + ln["n"]] = ln["G"]
                o += ln["n"]
        cur = self.cur[b["name"]] = []
        eye = np.eye(n)
        for k in range(rb.N):
            h = rb.h[k]
            Z = (rb.R[k] + rb.D[k] + s * (rb.L[k] + rb.E[k])).astype(complex)
            for cell, i, j, p, r, _ in rb.poles:
                if cell == k:
                    Z[i, j] += r / (s - p) * self.late
            Y = G0 + s * rb.C[k]
            E = emf.get((b["name"], k), np.zeros(n)) * h
            if exact:
                T = expm(np.block([[np.zeros((n, n)), -Z], [-Y, np.zeros((n, n))]]) * h / 2)
                a, c, d, e = T[:n, :n], T[:n, n:], T[n:, :n], T[n:, n:]
                F = T @ T
                A, B, C, D = F[:n, :n], F[:n, n:], F[n:, :n], F[n:, n:]
                Bi = np.linalg.inv(B)
                vo, io = a @ E, d @ E                      # the source sits in the middle of the cell
                # I1 = Bi (V2 - vo - A V1);  I2 = C V1 + D I1 + io
                P1, Q1, r1 = -Bi @ A, Bi, -Bi @ vo
                P2, Q2, r2 = C + D @ P1, D @ Q1, D @ r1 + io
                cur.append((d + e @ P1, e @ Q1, e @ r1))
            else:
                W = np.linalg.inv(Z * h)
                half = Y * h / 2
                P1, Q1, r1 = W + half, -W, W @ E
                P2, Q2, r2 = W, -W - half, W @ E
                cur.append((W, -W, W @ E))
            x = self.off[b["name"]] + k * n
            u, v = slice(x, x + n), slice(x + n, x + 2 * n)
            self.Y[u, u] += P1
            self.Y[u, v] += Q1
            self.I[u] -= r1
            self.Y[v, u] -= P2
            self.Y[v, v] -= Q2
            self.I[v] += r2
        for k in range(rb.N + 1):
            own = 0.5 * ((rb.h[k - 1] if k else 0.0) + (rb.h[k] if k < rb.N else 0.0))
            x = self.off[b["name"]] + k * n
            self.Y[x:x + n, x:x + n] += (rb.G[k] - G0) * own


def amp(spec):
    """A sin(wt) as the phasor of Re(X exp(jwt))."""
    return -1j * spec["A"]


def execute(scn, ctx):
    src = load_src()
    real = World(scn, src, drive="real")
    ref = World(scn, src, drive="ref")              # only its bookkeeping of what sits where
    for op in scn["ops"]:
        real.apply(op)
        ref.apply(op)
    M, w = scn["period"], scn["w"]
    dt = 2 * np.pi / w / M
    ctx.shape([[ln["n"] for lev in b["levels"] for ln in lev] for b in scn["bundles"]], [b["ndiv"] for b in scn["bundles"]],
              sorted(e["k"] for n in scn["nets"] for lv in n["levels"] for e in lv["els"]), [o["op"] for o in scn["ops"]], M)
    taps = []
    for b in scn["bundles"]:
        u = real.geo(b["name"])[0]
        for k in range(len(u)):
            taps.append((b["name"], "voltage", k, real.real[b["name"]].add_probe(np.array(u[k]), "voltage")))
            if k < len(u) - 1:
                taps.append((b["name"], "current", k, real.real[b["name"]].add_probe(np.array(u[k]), "current")))

    def run(n):
        if real.single:
            real.sim.dt = dt
            real.sim.run_until((n + 0.5) * dt)
        else:
            real.sim.run_until((n + 0.5) * dt, dt)
        ctx.steps += n

    def window():
        """Complex amplitudes over one period; every stamp is one step after the instants of the sources it answers to."""
        run(M)
        v = {name: np.zeros((o.v.shape), complex) for name, o in real.real.items()}
        i = {name: np.zeros((o.i.shape), complex) for name, o in real.real.items()}
        for name, kind, k, p in taps:
            e = np.exp(-1j * w * (np.array(p.t, float) - dt))
            x = 2 / M * (np.array(p.val, float).T @ e)
            (v if kind == "voltage" else i)[name][:, k] = x
        return v, i
    for n in scn["chunks"]:
        run(n)
        ctx.fault("pause_and_resume")
    cap = 6000
    seen = [window()]
    settled = None
    while ctx.steps < cap:
        run(scn["gap"] * M)
        ctx.fault("pause_and_resume")
        seen.append(window())
        if len(seen) >= 3:
            pk = [max(float(np.max(np.abs(x))) for x in seen[-1][j].values()) for j in (0, 1)]
            if not np.all(np.isfinite(pk)):
                break
            d1, d0 = ([max(float(np.max(np.abs(a[j][b] - c[j][b]))) for b in a[j]) / max(pk[j], 1e-300) for j in (0, 1)]
                      for a, c in ((seen[-1], seen[-2]), (seen[-2], seen[-3])))
            rest = 0.0
            for x, y in zip(d1, d0):
                q = x / y if y > 0 else 0.0
                rest = max(rest, x if x < 1e-9 else (x * q / (1 - q) if q < 0.95 else np.inf))
            if rest < 5e-4:
                settled = rest
                break
    ctx.fault("sustained_excitation")
    ctx.sim_time += float(real.sim.time)
    ctx.state(real.real)
    if settled is None:
        ctx.hit("not settled within the steps allowed")
        ctx.nontrivial = False
        return
    v, i = seen[-1]
    truth = Phasors(scn, ref, w, True)
    ladder = Phasors(scn, ref, w, False)
    slow = Phasors(scn, ref, 2 / dt * np.sin(w * dt / 2), False)
    lag = Phasors(scn, ref, w, True, lag=dt / 2)
    names = [b["name"] for b in scn["bundles"]]

    def gap(a, b, what):
        return max(float(np.max(np.abs(getattr(a, what)[n] - getattr(b, what)[n]))) for n in names)
    worst = []
    for what, got in (("v", v), ("i", i)):
        peak = max(float(np.max(np.abs(getattr(truth, what)[n]))) for n in names)
        tol = 3 * (gap(truth, ladder, what) + gap(slow, ladder, what) + gap(truth, lag, what)) + (2e-3 + 5 * settled) * peak
        worst.append((what, got, peak, tol))
    if any(tol > 0.15 * peak for _, _, peak, tol in worst) or worst[0][2] < 1e-9:
        ctx.hit("too coarse for the continuous theory")
        ctx.nontrivial = False
        return
    for what, got, peak, tol in worst:
        for n in names:
            d = np.abs(got[n] - getattr(truth, what)[n])
            k = np.unravel_index(int(np.argmax(d)), d.shape)
            if not d[k] <= tol:
                raise Diff("phasor", f"steady {'voltage' if what == 'v' else 'current'} of {n} at {tuple(int(x) for x in k)}: amplitude "
                                     f"{complex(got[n][k]):.6g}, the continuous circuit gives {complex(getattr(truth, what)[n][k]):.6g} (allowed {tol:.3g})")
    ctx.hit("settled and compared")


def variants(scn):
    from .. import engine
    yield from engine.variants(scn)
    for k in range(len(scn["chunks"])):
        if len(scn["chunks"]) > 1:
            s = copy.deepcopy(scn)
            del s["chunks"][k]
            yield s
