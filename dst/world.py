"""Builds one simulated world twice from a JSON scenario: with the real solver
(public API only) and with the reference model, and drives both in lock step.

Scenario (all plain JSON):
  bundles: [{name, nodes, ndiv, kind: "mtl"|"mtld", zs, zl, src (mtl only),
             levels: [[line,...],...], zt: [...], probes: [...]}]
     line: {name, n, L, C, R, G, lumped: [...]}
  nets:   [{levels: [{lines: [{bundle, line, side, nodes: [[id, cond], ...]}], els: [...]}]}]
  ops:    see World.apply
"""
import copy
import math

import numpy as np

from . import fields, ref, waves


class Diff(Exception):
    """The real system and the specification disagree."""

    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


def geometry(nodes, ndiv):
    """Node positions and cell lengths of a polyline split per segment."""
    u = []
    h = []
    for a, b, d in zip(nodes[:-1], nodes[1:], ndiv):
        a, b = np.array(a, float), np.array(b, float)
        for k in range(d):
            u.append(a + (b - a) * k / d)
            h.append(np.linalg.norm(b - a) / d)
    u.append(np.array(nodes[-1], float))
    return np.array(u), np.array(h)


def nearest(u, p):
    return int(np.argmin(np.linalg.norm(u - np.array(p, float), axis=1)))


def scalar_or_matrix(m, line):
    m = np.array(m, float)
    if line.get("scalar") and m.shape == (1, 1):
        return float(m[0, 0])
    return m


def pos_arg(p):
    """Positions on the z axis may be given as plain floats."""
    if isinstance(p, (int, float)):
        return float(p)
    return np.array(p, float)


def pos_xyz(p):
    if isinstance(p, (int, float)):
        return np.array([0.0, 0.0, float(p)])
    return np.array(p, float)


def wave(spec):
    return 0 if spec is None else waves.make(spec)


def poles_of(model):
    p = [a + 1j * b for a, b in zip(model["poles"]["real"], model["poles"]["imag"])]
    r = [a + 1j * b for a, b in zip(model["residues"]["real"], model["residues"]["imag"])]
    return p, r


CONN = {
    "R": {"materialType": "Connector", "connectorType": "Conn_R", "resistance": 0.0},
    "C": {"materialType": "Connector", "connectorType": "Conn_C", "capacitance": 0.0},
    "LC": {"materialType": "Connector", "connectorType": "Conn_LCpRs",
           "resistance": 0.0, "inductance": 0.0, "capacitance": 0.0},
}


class RefBundle:
    """Bookkeeping around ref.Bundle: levels, lines, offsets, probes."""

    def __init__(self, spec):
        self.spec = spec
        self.u, self.h = geometry(spec["nodes"], spec["ndiv"])
        mats = {"L": [], "C": [], "R": [], "G": []}
        self.offset = {}
        self.level_offset = []
        off = 0
        for lev in spec["levels"]:
            self.level_offset.append(off)
            for ln in lev:
                self.offset[ln["name"]] = off
                off += ln["n"]
                for key in mats:
                    m = ln.get(key)
                    mats[key].append(np.zeros((ln["n"], ln["n"])) if m is None else np.array(m, float))
        full = {k: _blk(v) for k, v in mats.items()}
        self.b = ref.Bundle(spec["name"], self.h, full["L"], full["C"], full["R"], full["G"])
        if spec["kind"] == "mtl":
            n = self.b.n
            zs, zl = np.array(spec["zs"], float) * np.ones(n), np.array(spec["zl"], float) * np.ones(n)
            self.b.term = {0: (np.diag(zs), {}), -1: (np.diag(zl), {})}
        for lev in spec["levels"]:
            for ln in lev:
                for lm in ln.get("lumped", []):
                    self.lumped(ln["name"], lm)
        for zt in spec.get("zt", []):
            self.transfer(zt)
        self.probes = []

    def speed(self):
        """Fastest phase velocity of the bundle."""
        return float(1 / np.sqrt(np.min(np.linalg.eigvals(self.b.L[0] @ self.b.C[0]).real)))

    def dt_max(self):
        """Largest stable step of every line, the smallest over the lines."""
        best = math.inf
        for lev in self.spec["levels"]:
            for ln in lev:
                lc = np.array(ln["L"], float) @ np.array(ln["C"], float)
                v = 1 / math.sqrt(min(np.linalg.eigvals(lc).real))
                best = min(best, float(min(self.h)) / v)
        return best

    def lumped(self, line, lm):
        cell = min(nearest(self.u, pos_xyz(lm["pos"])), self.b.N - 1)
        h = self.h[cell]
        i = self.offset[line] + lm["cond"]
        m = lm["model"]
        self.b.D[cell, i, i] += m["cte"] / h
        self.b.E[cell, i, i] += m["prop"] / h
        for p, r in zip(*poles_of(m)):
            self.b.poles.append((cell, i, i, p, r / h, len(self.b.conv)))

    def transfer(self, zt):
        m = zt["model"]
        f = m.get("factor", 1)
        cells = range(self.b.N)
        if "side" in zt:
            cells = [0 if zt["side"] == "initial" else self.b.N - 1]
        outs = [self.level_offset[zt["out"][0]] + c for c in zt["out"][1]]
        ins = [self.level_offset[zt["in"][0]] + c for c in zt["in"][1]]
        pairs = []
        for o in outs:
            for j in ins:
                if m["direction"] in ("in", "both"):
                    pairs.append((j, o))
                if m["direction"] in ("out", "both"):
                    pairs.append((o, j))
        p, r = poles_of(m)
        if m["cte"] == 0 and m["prop"] == 0 and not p:
            return
        for cell in cells:
            for (i, j) in pairs:
                if "side" in zt:          # a connector replaces the distributed coupling of its cell
                    self.b.D[cell, i, j] = 0.0
                    self.b.E[cell, i, j] = 0.0
                    if p:
                        self.b.poles = [q for q in self.b.poles if q[:3] != (cell, i, j)]
                self.b.D[cell, i, j] -= m["cte"] / f
                self.b.E[cell, i, j] -= m["prop"] / f
                for a, c in zip(p, r):
                    self.b.poles.append((cell, i, j, a, -c / f, len(self.b.conv)))


def _blk(ms):
    n = sum(m.shape[0] for m in ms)
    out = np.zeros((n, n))
    o = 0
    for m in ms:
        k = m.shape[0]
        out[o:o + k, o:o + k] = m
        o += k
    return out


class World:
    """drive='both' runs real and reference; 'real' / 'ref' only one of them."""

    def __init__(self, scn, src, drive="both", hooks=None, order=None):
        self.scn = scn
        self.src = src
        self.has_real = drive in ("both", "real")
        self.same_fn = {}
        self.has_ref = drive in ("both", "ref")
        self.hooks = hooks or {}
        self.order = order or {}
        self.single = not scn.get("nets") and len(scn["bundles"]) == 1 and scn["bundles"][0]["kind"] == "mtl"
        self.steps = 0
        self.faults = {}
        self.probes = []
        self.log = []
        self.bundles = {b["name"]: b for b in scn["bundles"]}
        if self.has_real:
            self._build_real()
        if self.has_ref:
            self._build_ref()
        dts = [RefBundle(b).dt_max() for b in scn["bundles"]] if not self.has_ref else \
            [rb.dt_max() for rb in self.rb.values()]
        self.dt_max = min(dts)
        self.dt = self.dt_max
        self.peak_v = 0.0
        self.peak_i = 0.0
        self.hist = {name: [] for name in self.bundles}     # (t, v, i) of every reference step
        self.mark = 0                                       # first step of the current run
        for b in scn["bundles"]:
            for p in b.get("probes", []):
                self.add_probe(b["name"], p)

    # ---------------------------------------------------------------- real
    def wave(self, spec):
        if spec is None:
            return 0
        key = str(spec) if self.scn.get("one_fn") else None       # sources that look alike are one function object
        if key in self.same_fn:
            return self.same_fn[key]
        f = waves.make(spec)
        w = self.hooks.get("wave")
        f = w(f) if w else f
        if key:
            self.same_fn[key] = f
        return f

    def real_line(self, b, ln):
        mtl = self.src["mtl"]
        kw = {}
        share = self.hooks.get("share") or (lambda key, x: x)
        if ln.get("R") is not None:
            kw["r"] = share(("R", str(ln["R"])), scalar_or_matrix(ln["R"], ln))
        if ln.get("G") is not None:
            kw["g"] = share(("G", str(ln["G"])), scalar_or_matrix(ln["G"], ln))
        if b["kind"] == "mtl":
            shape = {"row": (1, -1), "column": (-1, 1)}.get(b.get("zform"), (-1,))
            kw["Zs"] = np.array(b["zs"], float).reshape(shape) if isinstance(b["zs"], list) else b["zs"]
            kw["Zl"] = np.array(b["zl"], float).reshape(shape) if isinstance(b["zl"], list) else b["zl"]
        nodes = b["nodes"]
        ndiv = list(b["ndiv"])
        if b.get("length") is not None:
            kw["length"] = b["length"]
            kw["ndiv"] = ndiv[0]
        else:
            kw["node_positions"] = share(("nodes", str(nodes)), np.array(nodes, float))
            kw["ndiv"] = share(("ndiv", str(ndiv)), ndiv)
        line = mtl.MTL(l=share(("L", str(ln["L"])), scalar_or_matrix(ln["L"], ln)),
                       c=share(("C", str(ln["C"])), scalar_or_matrix(ln["C"], ln)),
                       name=ln["name"], **kw)
        for lm in ln.get("lumped", []):
            line.add_dispersive_connector(pos_xyz(lm["pos"]), lm["cond"], share(("model", str(lm["model"])), copy.deepcopy(lm["model"])))
        return line

    def _build_real(self):
        mtl, mtln, nw = self.src["mtl"], self.src["mtln"], self.src["nw"]
        self.real = {}
        self.real_lines = {}
        bl = [self.scn["bundles"][i] for i in self.order.get("bundles", range(len(self.scn["bundles"])))]
        for b in bl:
            if b["kind"] == "mtl":
                ln = b["levels"][0][0]
                obj = self.real_line(b, ln)
                self.real_lines[(b["name"], ln["name"])] = obj
            else:
                levels = {}
                for k, lev in enumerate(b["levels"]):
                    levels[k] = []
                    for ln in lev:
                        o = self.real_line(b, ln)
                        self.real_lines[(b["name"], ln["name"])] = o
                        levels[k].append(o)
                obj = mtl.MTLD(levels, name=b["name"])
                for zt in b.get("zt", []):
                    self._real_zt(obj, zt)
            self.real[b["name"]] = obj
        if self.single:
            self.sim = self.real[bl[0]["name"]]
            self.nets = []
            return
        nets = []
        nl = self.scn.get("nets", [])
        nl = [nl[i] for i in self.order.get("nets", range(len(nl)))]
        for n in nl:
            nets.append(nw.NetworkD({k: self._real_net(lv) for k, lv in enumerate(n["levels"])}))
        self.nets = nets
        how = self.scn.get("assemble", "ctor")
        if how == "ctor":
            self.sim = mtln.MTLN([self.real[b["name"]] for b in bl], nets)
        else:
            self.sim = mtln.MTLN()
            for b in bl:
                self.sim.add_bundle(self.real[b["name"]])
            if how == "add":
                for n in nets:
                    self.sim.add_network(n)
            else:
                self.sim.add_networks(nets)

    def _real_zt(self, obj, zt):
        share = self.hooks.get("share") or (lambda key, x: x)
        m = share(("model", str(zt["model"])), copy.deepcopy(zt["model"]))
        if "side" in zt:
            obj.set_connector_transfer_impedance(zt["side"], zt["out"][0], zt["out"][1],
                                                 zt["in"][0], zt["in"][1], m)
        else:
            obj.add_transfer_impedance(zt["out"][0], zt["out"][1], zt["in"][0], zt["in"][1], m)

    def _real_net(self, lv):
        nw = self.src["nw"]
        kinds = {}
        for e in lv["els"]:
            if e["k"] == "LC":
                kinds[e["at"]] = "LC"
            elif e["k"] == "C":
                kinds.setdefault(e["at"], "C")
        desc = {}
        for ln in lv["lines"]:
            line = self.real_lines[(ln["bundle"], ln["line"])]
            conns = [[nid, cond, dict(CONN[kinds.get(nid, "R")])] for nid, cond in ln["nodes"]]
            desc[line] = {"side": ln["side"], "bundle": self.real[ln["bundle"]], "connections": conns}
        net = nw.Network(desc)
        for e in lv["els"]:
            k = e["k"]
            if k == "R":
                f = net.connect_to_ground if e.get("alias") else net.connect_to_ground_R
                f(e["at"], e["R"], self.wave(e.get("src")))
            elif k == "S":
                net.short_to_ground(e["at"])
            elif k == "C":
                net.connect_to_ground_C(e["at"], e["C"], self.wave(e.get("src")))
            elif k == "LC":
                net.connect_to_ground_LCpRs(e["at"], e["R"], e["L"], e["C"], self.wave(e.get("src")))
            elif k == "RR":
                net.connect_nodes(e["a"], e["b"], e["R"], self.wave(e.get("src")))
            elif k == "SS":
                net.short_nodes(e["a"], e["b"])
            else:
                raise KeyError(k)
        return net

    # ----------------------------------------------------------------- ref
    def _build_ref(self):
        self.rb = {}
        self.sys = ref.System()
        for b in self.scn["bundles"]:
            rb = RefBundle(b)
            self.rb[b["name"]] = rb
            self.sys.bundles.append(rb.b)
        for n in self.scn.get("nets", []):
            for lv in n["levels"]:
                self.sys.nets.append(self._ref_net(lv))

    def _ref_net(self, lv):
        nodes = []
        for g, ln in enumerate(lv["lines"]):
            rb = self.rb[ln["bundle"]]
            side = 0 if ln["side"] == "S" else -1
            for nid, cond in ln["nodes"]:
                nodes.append((rb.b, rb.offset[ln["line"]] + cond, side, nid, g))
        net = ref.Network(nodes)
        for e in lv["els"]:
            k = e["k"]
            f = None if e.get("src") is None else waves.make(e["src"])
            if k == "R":
                net.ground_R(e["at"], e["R"], f)
            elif k == "S":
                net.short(e["at"])
            elif k == "C":
                net.ground_C(e["at"], e["C"], f)
            elif k == "LC":
                net.ground_LCpRs(e["at"], e["R"], e["L"], e["C"], f)
            elif k == "RR":
                net.between(e["a"], e["b"], e["R"], f)
            elif k == "SS":
                net.join(e["a"], e["b"])
        return net

    # ------------------------------------------------------------- drive it
    def add_probe(self, bname, p):
        """p: {pos, type, slot?}; the reference knows node/cell from geometry."""
        rec = {"bundle": bname, "type": p["type"], "slot": p.get("slot")}
        if self.has_real:
            rec["real"] = self.real[bname].add_probe(pos_arg(p["pos"]), p["type"])
        if self.has_ref:
            rb = self.rb[bname]
            k = nearest(rb.u, pos_xyz(p["pos"]))
            rec["node"] = k
        rec["from"] = None
        self.probes.append(rec)

    def ref_steps(self, n):
        for _ in range(n):
            self.sys.step(self.dt)
            self.steps += 1
            for name, rb in self.rb.items():
                v, i = rb.b.v.copy(), rb.b.i.copy()
                self.peak_v = max(self.peak_v, float(np.max(np.abs(v))))
                self.peak_i = max(self.peak_i, float(np.max(np.abs(i))))
                self.hist[name].append((self.sys.time, self.dt, v, i))

    def apply(self, op):
        k = op["op"]
        getattr(self, "op_" + k)(op)
        self.log.append(k)

    def op_run(self, op):
        """Run n steps; optionally with a new time step given to the run itself."""
        n = op["n"]
        if op.get("dtf") is not None:
            self.dt = op["dtf"] * self.dt_max
        T = (n + 0.5) * self.dt
        if self.has_real:
            if self.single:
                if op.get("dtf") is not None:
                    # the single-line interface sets its step through set_time_step or the attribute
                    if op.get("how") == "set":
                        self.sim.set_time_step(n, n * self.dt)
                    else:
                        self.sim.dt = self.dt
                self.sim.run_until(T)
            else:
                if op.get("dtf") is not None:
                    self.sim.run_until(T, self.dt)
                else:
                    self.sim.run_until(T)
        if self.has_ref:
            self.mark = len(next(iter(self.hist.values())))
            for p in self.probes:
                p["from"] = self.mark
            self.ref_steps(n)

    def op_step(self, op):
        if self.has_real:
            for _ in range(op["n"]):
                self.sim.step()
        if self.has_ref:
            self.ref_steps(op["n"])

    def op_setR(self, op):
        """Spread a resistance over the cells between two positions."""
        b = self.bundles[op["bundle"]]
        if self.has_real:
            o = self.real[op["bundle"]]
            if op.get("point"):
                o.set_resistance_at_point(pos_arg(op["a"]), op["cond"], op["R"])
            else:
                o.set_resistance_in_region(pos_arg(op["a"]), pos_arg(op["b"]), op["cond"], op["R"])
        if self.has_ref:
            rb = self.rb[op["bundle"]]
            N = rb.b.N
            k1 = nearest(rb.u, pos_xyz(op["a"]))
            k2 = nearest(rb.u, pos_xyz(op["b"]))
            c = op["cond"]
            if k1 == k2:
                k1 = min(k1, N - 1)
                k2 = k1 + 1
            length = float(np.sum(rb.h[k1:k2]))
            for k in range(k1, k2):
                rb.b.R[k, c, c] = op["R"] / length

    def op_addG(self, op):
        if self.has_real:
            o = self.real[op["bundle"]]
            if op.get("point"):
                o.add_conductance_at_point(pos_arg(op["a"]), op["cond"], op["G"])
            else:
                o.add_conductance_in_region(pos_arg(op["a"]), pos_arg(op["b"]), op["cond"], op["G"])
        if self.has_ref:
            rb = self.rb[op["bundle"]]
            k1 = nearest(rb.u, pos_xyz(op["a"]))
            k2 = nearest(rb.u, pos_xyz(op["b"]))
            c = op["cond"]
            own = [0.5 * ((rb.h[k - 1] if k else 0.0) + (rb.h[k] if k < rb.b.N else 0.0)) for k in range(rb.b.N + 1)]
            rb.b.G[k1:k2 + 1, c, c] = op["G"] / sum(own[k1:k2 + 1])

    def op_probe(self, op):
        self.add_probe(op["bundle"], op)

    def op_source(self, op):
        """Series source at one end of a stand-alone line (replaces the previous one)."""
        if self.has_real:
            o = self.real[op["bundle"]]
            u = self.geo(op["bundle"])[0]
            o.add_voltage_source(u[0] if op["end"] == 0 else u[-1], op["cond"], self.wave(op["src"]))
        if self.has_ref:
            rb = self.rb[op["bundle"]]
            rb.b.term[op["end"]][1][op["cond"]] = waves.make(op["src"])

    def op_drive(self, op):
        """Distributed source along part of a line: {bundle, cond, a, b, src, kind}."""
        if self.has_real:
            self.real[op["bundle"]].add_localized_longitudinal_field(
                pos_arg(op["a"]), pos_arg(op["b"]), op["cond"], self.wave(op["src"]), op.get("kind", "localized efield drive"))
        if self.has_ref:
            rb = self.rb[op["bundle"]]
            for cell, w in drive_weights(rb.u, rb.h, op["a"], op["b"]).items():
                f = waves.make(op["src"])
                rb.b.eL.setdefault((op["cond"], cell), []).append(lambda t, f=f, w=w: w * f(t))

    def op_field(self, op):
        """Incident field on the outermost level of a bundle: {bundle, field, dist, taper?, window?, via?}."""
        b = self.bundles[op["bundle"]]
        n = sum(ln["n"] for ln in b["levels"][0])
        u = self.geo(op["bundle"])[0]
        if self.has_real:
            f = fields.symbolic(op["field"], self.src)
            d = fields.distances(op, n, len(u))
            win = [np.array(p, float) for p in op["window"]] if op.get("window") else None
            if op["field"]["form"] == "plane":
                self.real[op["bundle"]].add_planewave(f, d)
            elif op.get("via") == "sim" and not self.single:
                if win is None:
                    self.sim.add_external_field(f, d)
                else:
                    self.sim.add_localized_external_field(op["bundle"], f, d, win)
            elif win is None:
                self.real[op["bundle"]].add_external_field(f, d)
            else:
                self.real[op["bundle"]].add_external_field(f, d, win)
        if self.has_ref:
            fields.attach(self.rb[op["bundle"]].b, u, op, n, self.rb[op["bundle"]].speed())

    def op_lumped(self, op):
        if self.has_real:
            self.real[op["bundle"]].add_dispersive_connector(pos_xyz(op["pos"]), op["cond"], copy.deepcopy(op["model"]))
        if self.has_ref:
            b = self.bundles[op["bundle"]]
            self.rb[op["bundle"]].lumped(b["levels"][0][0]["name"], op)

    def op_zt(self, op):
        if self.has_real:
            self._real_zt(self.real[op["bundle"]], op)
        if self.has_ref:
            self.rb[op["bundle"]].transfer(op)

    def finish(self, ctx):
        """Totals of the run for the evidence file."""
        ctx.steps += self.steps
        ctx.sim_time += self.sys.time if self.has_ref else 0.0
        if self.has_ref and self.peak_v < 1e-9:
            ctx.nontrivial = False

    def geo(self, bname):
        b = self.bundles[bname]
        return geometry(b["nodes"], b["ndiv"])

    # -------------------------------------------------------------- compare
    def compare(self, tol, what="state"):
        """Final fields of every bundle against the reference."""
        sv, si = max(self.peak_v, 1e-12), max(self.peak_i, 1e-14)
        for name, rb in self.rb.items():
            o = self.real[name]
            check_close(f"{what}: voltage on {name}", o.v, rb.b.v, tol * sv)
            check_close(f"{what}: current on {name}", o.i, rb.b.i, tol * si)

    def compare_probes(self, tol):
        sv, si = max(self.peak_v, 1e-12), max(self.peak_i, 1e-14)
        for q, p in enumerate(self.probes):
            if p["from"] is None:
                continue
            h = self.hist[p["bundle"]][p["from"]:]
            rb = self.rb[p["bundle"]]
            if p["type"] == "voltage":
                want = np.array([x[2][:, p["node"]] for x in h]).reshape(-1, rb.b.n)
                tw = np.array([x[0] for x in h])
                scale = sv
            else:
                k = min(p["node"], rb.b.N - 1)
                want = np.array([x[3][:, k] for x in h]).reshape(-1, rb.b.n)
                tw = np.array([x[0] + x[1] / 2 for x in h])
                scale = si
            got = np.array(p["real"].val, float).reshape(-1, rb.b.n) if len(np.shape(p["real"].val)) else np.zeros((0, rb.b.n))
            if got.shape != want.shape:
                raise Diff("probe", f"probe {q} ({p['type']}) holds {got.shape[0]} frames, {want.shape[0]} steps completed")
            check_close(f"probe {q} ({p['type']} on {p['bundle']}) values", got, want, tol * scale)
            check_close(f"probe {q} ({p['type']} on {p['bundle']}) time stamps", np.array(p["real"].t, float), tw,
                        1e-9 * max(abs(tw)) + 1e-6 * self.dt if len(tw) else 1.0)


def drive_weights(u, h, a, b):
    """Fraction of every cell covered by the stretch from a to b (arc length)."""
    sa, sb = arc(u, h, pos_xyz(a)), arc(u, h, pos_xyz(b))
    out = {}
    s = 0.0
    for k, hk in enumerate(h):
        lo, hi = max(s, sa), min(s + hk, sb)
        if hi - lo > 1e-9 * hk:
            out[k] = (hi - lo) / hk
        s += hk
    return out


def arc(u, h, p):
    """Arc-length coordinate of a point on the polyline."""
    best = None
    s = 0.0
    for k, hk in enumerate(h):
        d = (u[k + 1] - u[k]) / hk
        x = float(np.clip(np.dot(p - u[k], d), 0, hk))
        dist = float(np.linalg.norm(p - (u[k] + x * d)))
        if best is None or dist < best[0] - 1e-12:
            best = (dist, s + x)
        s += hk
    return best[1]


def check_close(what, got, want, atol):
    got = np.asarray(got, float)
    want = np.asarray(want, float)
    if got.shape != want.shape:
        raise Diff("shape", f"{what}: shape {got.shape}, expected {want.shape}")
    if got.size == 0:
        return
    if not np.all(np.isfinite(got)):
        raise Diff("value", f"{what}: not finite")
    d = np.abs(got - want)
    k = np.unravel_index(int(np.argmax(d)), d.shape)
    if d[k] > atol:
        raise Diff("value", f"{what}: at {tuple(int(x) for x in k)} got {got[k]!r}, expected {want[k]!r} (allowed {atol:.3g})")


def load_src():
    import src.mtl as mtl
    import src.mtln as mtln
    import src.networks as nw
    return {"mtl": mtl, "mtln": mtln, "nw": nw}
