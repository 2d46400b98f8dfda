"""C17: ports show the waves that enter and leave the line, whatever was run before."""
import numpy as np

from .. import gen, waves
from ..world import Diff, World, check_close, load_src
from . import c01

PROP = "C17"
LEVEL = "exploration"
COUNTS = {"quick": 1200, "thorough": 60000}
TOL = 1e-6
RULE = ("distinct = different signature (mode, conductors, cells, terminations, operations); trivial when no voltage above 1e-9 V "
        "ever appears or the last run is too short to have a spectrum")
COMPONENTS = {"real": ["src.mtl.MTL", "src.probes.Port", "src.networkExtraction", "src.dispersive"],
              "stub": ["source waveforms (simulated environment)", "clock (time step chosen by the simulator)"],
              "oracle": "dst/ref.py leapfrog model; spectra of its fields at the middle of the end cells by the definition of power waves"}
FINDING = "extract-network"


def generate(rng, tier, index):
    b = gen.single(rng)
    n = b["levels"][0][0]["n"]
    zero = rng.random() < 0.08
    for key in ("zs", "zl"):
        z = b[key] if isinstance(b[key], list) else [b[key]] * n
        b[key] = [50.0 if x == 0 and not zero else x for x in z]
    scn = {"bundles": [b], "nets": [], "dispersive": rng.random() < 0.3}
    dt = gen.dt_of(b["nodes"], b["ndiv"], b["levels"][0])
    used = set()
    if scn["dispersive"]:
        ln = b["levels"][0][0]
        ln["lumped"] = []
        for _ in range(rng.choice([1, 2])):
            gen.lumped(rng, b, dt, used, rng.randrange(ln["n"]), ln["lumped"].append)
    scn["mode"] = rng.choice(["waves", "waves", "waves", "matrix", "network"])
    gen.add_probes(rng, b, rng.choice([0, 1]))
    if scn["mode"] == "waves":
        scn["ops"] = c01.random_ops(rng, scn, dt, rng.choice([1, 2, 3]), used)
        slots = [k for k, o in enumerate(scn["ops"]) if o["op"] == "run"]
        at = rng.choice([0] + slots)
        for _ in range(rng.choice([1, 1, 2])):
            scn["ops"].insert(at, {"op": "port", "end": rng.choice(["both", "both", 0, 1])})
        if sum(o["n"] for o in scn["ops"][at:] if o["op"] in ("run", "step")) < 2:
            scn["ops"].append({"op": "run", "n": 20})
        return scn
    keep = [o for o in c01.random_ops(rng, scn, dt, 1, used) if o["op"] in ("setR", "addG", "lumped")]
    m = rng.choice([40, 100, 200])
    scn["p1"] = [rng.choice(["S", "L"]), rng.randrange(n)]
    while True:
        scn["p2"] = [rng.choice(["S", "L"]), rng.randrange(n)]
        if scn["p2"] != scn["p1"]:
            break
    f = rng.choice([1.0, 0.8, 0.5]) if scn["mode"] == "matrix" else None
    first = {"op": "run", "n": m, "how": "attr"}
    if f:
        first["dtf"] = f
    scn["src"] = waves.rand(rng, m * dt)
    scn["ops"] = keep + [first]
    scn["fmax"] = gen.r3(rng.uniform(0.02, 0.1) / dt)
    return scn


class Ports(World):
    def __init__(self, scn, src, **kw):
        self.ports = []
        super().__init__(scn, src, **kw)

    def op_port(self, op):
        o = self.real["line"]
        if op["end"] == "both":
            self.ports += [[p, k, None] for k, p in enumerate(o.add_port_probes())]
        else:
            self.ports.append([o.add_port_probe(op["end"]), op["end"], None])

    def op_run(self, op):
        super().op_run(op)
        for p in self.ports:
            p[2] = self.mark


def spectrum(w, end, start):
    """Frequencies, mid-cell voltages and currents of an end cell over the frames since `start`."""
    h = w.hist["line"][start:]
    n = len(h)
    N = w.rb["line"].b.N
    cell = 0 if end == 0 else N - 1
    v = np.array([(x[2][:, cell] + x[2][:, cell + 1]) / 2 for x in h])
    i = np.array([x[3][:, cell] for x in h])
    before = np.vstack([i[:1], i[:-1]])              # brought to the instants of the voltages
    i = (i + before) / 2
    f = np.array([k if k < (n + 1) // 2 else k - n for k in range(n)]) / (n * h[1][1])
    order = np.argsort(f)
    t = np.arange(n)
    ker = np.exp(-2j * np.pi * np.outer(t, t) / n)   # written out: n is small
    return f[order], (ker @ v)[order], (ker @ i)[order], n


def wave_pair(w, end, start, c):
    b = w.bundles["line"]
    z = (b["zs"] if end == 0 else b["zl"])[c]
    f, v, i, n = spectrum(w, end, start)
    s = 1.0 if end == 0 else -1.0
    return f, (v[:, c] + s * z * i[:, c]) / (2 * np.sqrt(z)), (v[:, c] - s * z * i[:, c]) / (2 * np.sqrt(z))


def complex_close(what, got, want, atol):
    got = np.asarray(got, complex)
    if got.shape != want.shape:
        raise Diff("shape", f"{what}: shape {got.shape}, expected {want.shape}")
    check_close(what + " (real part)", got.real, want.real, atol)
    check_close(what + " (imaginary part)", got.imag, want.imag, atol)


def check_ports(w, ctx, tol):
    b = w.bundles["line"]
    nc = b["levels"][0][0]["n"]
    for q, (p, end, start) in enumerate(w.ports):
        if start is None or len(w.hist["line"]) - start < 2:
            continue
        name = "S" if end == 0 else "L"
        if p.getTerminal() != name:
            raise Diff("port", f"port {q} at end {name} calls itself {p.getTerminal()}")
        for c in range(nc):
            z = (b["zs"] if end == 0 else b["zl"])[c]
            if z == 0:
                try:
                    p.get_incident_and_reflected_power_wave(c)
                except AssertionError:
                    ctx.hit("waves refused without a reference impedance")
                    continue
                raise Diff("port", f"port {q} returns power waves for a reference impedance of zero")
            f, A, B = wave_pair(w, end, start, c)
            g, x, y = p.get_incident_and_reflected_power_wave(c)
            check_close(f"frequencies of port {q}", g, f, 1e-6 * abs(f[0]))
            scale = len(f) * (w.peak_v / np.sqrt(z) + w.peak_i * np.sqrt(z)) / 2
            complex_close(f"incident wave of port {q} at {name}, conductor {c}", x, A, tol * scale)
            complex_close(f"reflected wave of port {q} at {name}, conductor {c}", y, B, tol * scale)
            ctx.hit("port spectra compared")


def execute(scn, ctx):
    src = load_src()
    b = scn["bundles"][0]
    ctx.shape(scn["mode"], b["levels"][0][0]["n"], b["ndiv"], str(b["zs"]), str(b["zl"]), [(o["op"], o.get("n"), o.get("dtf"), o.get("end")) for o in scn["ops"]])
    if scn["mode"] == "waves":
        w = Ports(scn, src)
        for op in scn["ops"]:
            w.apply(op)
            ctx.event(op["op"])
            if op["op"] == "run":
                ctx.fault("time_step_change" if op.get("dtf") else "pause_and_resume")
            if op["op"] in ("run", "step"):
                check_ports(w, ctx, TOL)
                ctx.state(w.real)
            elif op["op"] not in ("probe", "port"):
                ctx.fault("live_edit_" + op["op"])
        w.finish(ctx)
        return
    z = [x for p in (scn["p1"], scn["p2"]) for x in [(b["zs"] if p[0] == "S" else b["zl"])[p[1]]]]
    if 0 in z:
        ctx.nontrivial = False
        return
    if scn["mode"] == "matrix":
        matrix(scn, src, ctx)
    else:
        network(scn, src, ctx)


def driven(scn, src, p, wave, drive="both"):
    """A fresh system with one source in port p, run to the end."""
    w = Ports(scn, src, drive=drive)
    for op in scn["ops"]:
        if op["op"] == "run":
            s = {"op": "source", "bundle": "line", "end": 0 if p[0] == "S" else -1, "cond": p[1]}
            if callable(wave):
                w.rb["line"].b.term[s["end"]][1][p[1]] = wave
            else:
                w.apply({**s, "src": wave})
            if w.has_real:
                w.apply({"op": "port", "end": "both"})
        w.apply(op)
    return w


def matrix(scn, src, ctx):
    """Scattering parameters by the definition, from two ports of one driven line."""
    ex = __import__("src.networkExtraction", fromlist=["x"])
    w = driven(scn, src, scn["p1"], scn["src"])
    n = len(w.hist["line"])
    pick = {p: w.ports[0 if p[0] == "S" else 1][0] for p in (tuple(scn["p1"]), tuple(scn["p2"]))}
    f, s = ex.extract_s_reciprocal((pick[tuple(scn["p1"])], scn["p1"][1]), (pick[tuple(scn["p2"])], scn["p2"][1]))
    ctx.event(s)
    g, a1, b1 = wave_pair(w, 0 if scn["p1"][0] == "S" else -1, 0, scn["p1"][1])
    _, a2, b2 = wave_pair(w, 0 if scn["p2"][0] == "S" else -1, 0, scn["p2"][1])
    check_close("frequencies of the scattering matrix", f, g, 1e-6 * abs(g[0]))
    for (r, c), num, den in (((0, 0), b1, a1), ((1, 0), b2, a1), ((0, 1), b1, a2), ((1, 1), b2, a2)):
        ok = np.abs(den) > 1e-3 * np.max(np.abs(a1))
        complex_close(f"element {r + 1}{c + 1} of the scattering matrix", s[ok, r, c], (num / np.where(ok, den, 1))[ok],
                      1e-6 * (1 + np.max(np.abs(num)) / np.max(np.abs(a1))))
        ctx.hit("matrix elements compared", int(ok.sum()))
    w.finish(ctx)


def network(scn, src, ctx):
    """The extraction that runs the line by itself: a Gaussian in each port in turn."""
    ex = __import__("src.networkExtraction", fromlist=["x"])
    w = Ports({**scn, "ops": []}, src)
    for op in scn["ops"]:
        if op["op"] != "run":
            w.apply(op)
    n = scn["ops"][-1]["n"]
    T = (n + 0.5) * w.dt
    spread = 1 / scn["fmax"] / 2
    before = [w.sim.v.copy(), w.sim.i.copy(), w.sim.time]
    ctx.hit("extraction asked for")
    ctx.nontrivial = False
    net = ex.extract_2p_network(w.sim, 0.0, scn["fmax"], T, p1=tuple(scn["p1"]), p2=tuple(scn["p2"]))
    if any(not np.array_equal(x, y) for x, y in zip(before, [w.sim.v, w.sim.i, w.sim.time])):
        raise Diff("extraction", "extracting a network changed the line it was taken from")

    def gauss(t):
        return np.exp(-(t - 8 * spread) ** 2 / (2 * spread ** 2))
    want = []
    for p, q in ((scn["p1"], scn["p2"]), (scn["p2"], scn["p1"])):
        r = driven({**scn, "ops": [{**o, "dtf": None} if o["op"] == "run" else o for o in scn["ops"]]}, src, p, gauss, drive="ref")
        f, a1, b1 = wave_pair(r, 0 if p[0] == "S" else -1, 0, p[1])
        _, a2, b2 = wave_pair(r, 0 if q[0] == "S" else -1, 0, q[1])
        want.append((a1, b1, b2))
    keep = (f >= 0) & (f < scn["fmax"])
    for c in (0, 1):
        a1, b1, b2 = want[c]
        ok = np.abs(a1[keep]) > 1e-3 * np.max(np.abs(a1))
        for r, num in ((c, b1), (1 - c, b2)):
            complex_close(f"element {r + 1}{c + 1} of the extracted network", net.s[ok, r, c], (num[keep] / np.where(ok, a1[keep], 1))[ok],
                          1e-6 * (1 + np.max(np.abs(num)) / np.max(np.abs(a1))))
    ctx.steps += 2 * n
    ctx.nontrivial = True


def finding_key(bad):
    """The one defect on record: the line has no attribute `x`."""
    if bad[0] == "crash:AttributeError" and "attribute 'x'" in bad[1] and "getSolvedProbesFromLine" in bad[1]:
        return FINDING
    return None
