"""Seeded scenario generators.  Everything returned is plain JSON."""
import numpy as np

from . import waves
from .world import geometry

LVL_NAMES = "abcdefgh"


def r3(x):
    return float(f"{x:.3e}")


def mat(a):
    return [[float(f"{x:.6e}") for x in row] for row in np.asarray(a)]


def lc(rng, n, homogeneous=None):
    """Inductance and capacitance matrices of n coupled conductors."""
    c0 = rng.uniform(20e-12, 150e-12)
    C = np.zeros((n, n))
    for i in range(n):
        for j in range(i):
            m = -c0 * rng.uniform(0.02, 0.3)
            C[i, j] = C[j, i] = m
    for i in range(n):
        C[i, i] = c0 * rng.uniform(0.8, 1.5) - C[i].sum()
    v = rng.choice([3e8, 2e8, 1.3e8])
    C = np.array(mat(C))
    L = np.linalg.inv(C) / v ** 2
    if homogeneous is None:
        homogeneous = rng.random() < 0.4
    if not homogeneous and n > 0:
        d = np.diag([rng.uniform(1.0, 1.6) for _ in range(n)])
        L = d @ L @ d
    L = (L + L.T) / 2
    return mat(L), mat(C)


def spd(rng, n, lo, hi, full=False):
    """Diagonal, or diagonally dominant symmetric, positive matrix."""
    d = [rng.uniform(lo, hi) for _ in range(n)]
    M = np.diag(d)
    if full:
        for i in range(n):
            for j in range(i):
                M[i, j] = M[j, i] = 0.2 * min(d[i], d[j]) * rng.uniform(-1, 1) / n
    return mat(M)


def line(rng, name, n, loss=0.5, g=True):
    L, C = lc(rng, n)
    ln = {"name": name, "n": n, "L": L, "C": C}
    if rng.random() < loss:
        ln["R"] = spd(rng, n, 0.1, rng.choice([5.0, 60.0]), rng.random() < 0.3)
    if g and rng.random() < loss:
        ln["G"] = spd(rng, n, 1e-5, rng.choice([1e-3, 1e-2]), rng.random() < 0.3)
    if n == 1 and rng.random() < 0.5:
        ln["scalar"] = True
    return ln


def path(rng, cells, straight=None, segs=None):
    """Polyline nodes and divisions with about `cells` cells."""
    if straight is None:
        straight = rng.random() < 0.5
    ns = segs or rng.choice([1, 1, 2, 3])
    ns = min(ns, cells)
    ndiv = [1] * ns
    for _ in range(cells - ns):
        ndiv[rng.randrange(ns)] += 1
    p = [round(rng.uniform(-1, 1), 2) for _ in range(3)] if not straight else [0.0, 0.0, 0.0]
    nodes = [list(p)]
    for s in range(ns):
        ell = ndiv[s] * rng.uniform(0.05, 0.12) if rng.random() < 0.7 else rng.uniform(0.2, 1.0)
        if straight:
            d = [0.0, 0.0, 1.0]
        else:
            ax = rng.randrange(3)
            if s and ax == last:
                ax = (ax + 1) % 3
            last = ax
            d = [0.0, 0.0, 0.0]
            d[ax] = 1.0
        p = [round(a + ell * b, 4) for a, b in zip(p, d)]
        nodes.append(list(p))
    return nodes, ndiv


def model(rng, dt, scale, poles=None, real_only=False):
    """Rational impedance  cte + prop*s + sum r/(s-p)  with passive poles."""
    m = {"cte": 0.0, "prop": 0.0, "poles": {"real": [], "imag": []}, "residues": {"real": [], "imag": []}}
    if rng.random() < 0.7:
        m["cte"] = r3(scale * rng.uniform(0.1, 1.0))
    if rng.random() < 0.4:
        m["prop"] = r3(scale * dt * rng.uniform(0.5, 5))
    k = poles if poles is not None else rng.choice([0, 1, 1, 2, 3])
    for _ in range(k):
        w = rng.uniform(0.005, 0.3) / dt
        if not real_only and rng.random() < 0.4:
            a, b = -w * rng.uniform(0.2, 1), w * rng.uniform(0.3, 1.5)
            r = scale * w * rng.uniform(0.2, 1)
            m["poles"]["real"] += [r3(a), r3(a)]
            m["poles"]["imag"] += [r3(b), -r3(b)]
            m["residues"]["real"] += [r3(r), r3(r)]
            q = r3(0.8 * r * a / b * rng.uniform(-1, 1)) if rng.random() < 0.5 else 0.0     # |q| b <= r |a| keeps it passive
            m["residues"]["imag"] += [q, -q]
        else:
            m["poles"]["real"].append(r3(-w))
            m["poles"]["imag"].append(0.0)
            m["residues"]["real"].append(r3(scale * w * rng.uniform(0.2, 1)))
            m["residues"]["imag"].append(0.0)
    if not m["cte"] and not m["prop"] and not m["poles"]["real"]:
        m["cte"] = r3(scale)
    return m


def dt_of(nodes, ndiv, lines):
    _, h = geometry(nodes, ndiv)
    v = 0.0
    for ln in lines:
        ev = np.linalg.eigvals(np.array(ln["L"]) @ np.array(ln["C"])).real
        v = max(v, 1 / np.sqrt(ev.min()))
    return float(h.min() / v)


def a_pos(rng, nodes, ndiv, straight_float=True):
    """A position on the line: mostly at nodes, sometimes between them or at the ends."""
    u, h = geometry(nodes, ndiv)
    r = rng.random()
    if r < 0.15:
        p = u[0]
    elif r < 0.3:
        p = u[-1]
    elif r < 0.65:
        p = u[rng.randrange(len(u))]
    else:
        k = rng.randrange(len(h))
        f = rng.choice([0.2, 0.35, 0.7, 0.8])
        p = u[k] + f * (u[k + 1] - u[k])
    p = [float(round(x, 9)) for x in p]
    on_axis = p[0] == 0 and p[1] == 0 and nodes[0][:2] == [0.0, 0.0]
    if straight_float and on_axis and rng.random() < 0.5:
        return p[2]
    return p


def lumped(rng, b, dt, used, cond, put):
    """One dispersive lumped element; at most one per cell and conductor (more are refused by the solver)."""
    from .world import nearest
    u, h = geometry(b["nodes"], b["ndiv"])
    pos = xyz(a_pos(rng, b["nodes"], b["ndiv"]))
    cell = min(nearest(u, pos), len(h) - 1)
    if (cell, cond) in used:
        return
    used.add((cell, cond))
    put({"pos": pos, "cond": cond, "model": model(rng, dt, rng.choice([5.0, 50.0, 300.0]))})


def xyz(p):
    return [0.0, 0.0, p] if isinstance(p, float) else p


def two_pos(rng, nodes, ndiv):
    """Two positions in order along the line."""
    from .world import arc, nearest
    import numpy as _np
    u, h = geometry(nodes, ndiv)
    while True:
        a, b = a_pos(rng, nodes, ndiv), a_pos(rng, nodes, ndiv)
        if rng.random() < 0.08:
            b = a
        pa, pb = _np.array(xyz(a)), _np.array(xyz(b))
        sa, sb = arc(u, h, pa), arc(u, h, pb)
        if sa > sb:
            a, b, pa, pb = b, a, pb, pa
        if nearest(u, pa) <= nearest(u, pb):
            return a, b


def single(rng, cells=None, nmax=4, g=True):
    """A stand-alone line with series terminations at both ends."""
    n = rng.choice([1, 1, 2, 2, 3, nmax])
    if cells is None and rng.random() < 0.03:            # now and then a large one
        n, cells = rng.choice([1, 5, 6, 7]), rng.randint(17, 45)
    cells = cells or rng.randint(2, 16)
    nodes, ndiv = path(rng, cells)
    b = {"name": "line", "kind": "mtl", "nodes": nodes, "ndiv": ndiv,
         "levels": [[line(rng, "line", n, g=g)]], "probes": []}
    if len(ndiv) == 1 and nodes[0] == [0.0, 0.0, 0.0] and nodes[1][:2] == [0.0, 0.0] and rng.random() < 0.7:
        b["length"] = nodes[1][2]
    zs = lambda: rng.choice([50.0, 100.0, 5.0, 300.0, 1e3, 0.0, 1e6]) if rng.random() < 0.8 else r3(rng.uniform(1, 500))
    if rng.random() < 0.4:
        b["zs"], b["zl"] = zs(), zs()
    else:
        b["zs"], b["zl"] = [zs() for _ in range(n)], [zs() for _ in range(n)]
        if rng.random() < 0.4:
            b["zform"] = rng.choice(["row", "column"])
    return b


def bundle(rng, name, g=True, max_levels=3, cells=None, small=False):
    big = not small and cells is None and rng.random() < 0.03
    cells = cells or (rng.randint(13, 30) if big else rng.randint(2, 8 if small else 12))
    nodes, ndiv = path(rng, cells)
    nlev = 4 if big else rng.choice([1, 1, 2, max_levels])
    levels = []
    for k in range(nlev):
        cnt = 1 if k == 0 else rng.choice([1, 1, 2, 3])
        lev = []
        for q in range(cnt):
            nc = rng.choice([1, 1, 2, 3]) if k == 0 or rng.random() < 0.7 else 1
            lev.append(line(rng, f"{name}.{k}{LVL_NAMES[q]}", nc, g=g))
        levels.append(lev)
    b = {"name": name, "kind": "mtld", "nodes": nodes, "ndiv": ndiv, "levels": levels, "probes": []}
    return b


def add_probes(rng, b, n=None, distinct=False):
    for _ in range(n if n is not None else rng.randint(1, 3)):
        b["probes"].append({"pos": a_pos(rng, b["nodes"], b["ndiv"]), "type": rng.choice(["voltage", "current"])})


def transfer(rng, b, dt, poles=True):
    """Couple neighbouring levels of a bundle through transfer impedances."""
    out = []
    sizes = [sum(ln["n"] for ln in lev) for lev in b["levels"]]
    for k in range(len(sizes) - 1):
        free_out = list(range(sizes[k]))
        pairs = set()
        for _ in range(rng.choice([0, 1, 1, 2])):
            o = [rng.choice(free_out)]
            again = rng.random() < 0.35              # a second coupling of the same pair adds to the first
            cand = [c for c in range(sizes[k + 1]) if again or (o[0], c) not in pairs]
            if not cand:
                continue
            ins = sorted(rng.sample(cand, rng.randint(1, len(cand))))
            pairs |= {(o[0], c) for c in ins}
            m = model(rng, dt, rng.choice([0.05, 1.0, 4.0]), poles=None if poles else 0)
            m["prop"] = min(m["prop"], 2e-8)
            m["direction"] = rng.choice(["in", "out", "both"])
            if rng.random() < 0.3:
                m["factor"] = rng.choice([2.0, 10.0])
            z = {"out": [k, o], "in": [k + 1, ins], "model": m}
            out.append(z)
        for side in ("initial", "end"):          # connectors: they replace the coupling of the first or the last cell
            if rng.random() < 0.2:
                m = model(rng, dt, rng.choice([0.05, 1.0, 4.0]), poles=None if poles else 0)
                if not m["cte"] and not m["prop"] and not m["poles"]["real"]:
                    m["cte"] = 2.0
                if not m["poles"]["real"] and any(z["model"]["poles"]["real"] for z in out if z["out"][0] == k):
                    continue                     # unclear whether the memory of the line ends with it
                m["prop"] = min(m["prop"], 2e-8)
                m["direction"] = rng.choice(["in", "out", "both"])
                if rng.random() < 0.4:
                    m["factor"] = rng.choice([2.0, 10.0, 0.5])
                ins = sorted(rng.sample(range(sizes[k + 1]), rng.randint(1, sizes[k + 1])))
                out.append({"out": [k, [rng.choice(free_out)]], "in": [k + 1, ins], "model": m, "side": side})
    return out


def networks(rng, bundles, T, kinds=("R", "C", "LC", "S", "RR", "SS"), sources=True, mix_levels=False, dt=None):
    """Terminate and join every bundle end: one site holds one or more ends."""
    ends = [(b, side) for b in bundles for side in ("S", "L")]
    rng.shuffle(ends)
    sites = []
    while ends:
        k = rng.choice([1, 1, 1, 2, 2, 3])
        site = [ends.pop()]
        for e in list(ends):            # a network takes at most one end of a given line
            if len(site) < k and all(e[0] is not x[0] for x in site):
                site.append(e)
                ends.remove(e)
        sites.append(site)
    nid = [0]
    nets = []
    any_src = False
    for site in sites:
        groups = {}
        for b, side in site:
            for k, lev in enumerate(b["levels"]):
                for ln in lev:
                    key = 0 if mix_levels else k
                    groups.setdefault(key, []).append((b, side, ln))
        levels = []
        for key in sorted(groups):
            lines = []
            ids = []
            for b, side, ln in groups[key]:
                nodes = []
                for c in range(ln["n"]):
                    nodes.append([nid[0], c])
                    ids.append(nid[0])
                    nid[0] += 1
                if rng.random() < 0.3:
                    rng.shuffle(nodes)
                lines.append({"bundle": b["name"], "line": ln["name"], "side": side, "nodes": nodes})
            els, s = elements(rng, ids, T, kinds, sources, dt)
            any_src |= s
            levels.append({"lines": lines, "els": els})
        nets.append({"levels": levels})
    if sources and not any_src:
        lv = nets[0]["levels"][0]
        first = lv["lines"][0]["nodes"][0][0]
        for e in lv["els"]:
            if e["k"] in ("R", "LC") and e["at"] == first:
                e["src"] = waves.rand(rng, T)
                break
        else:
            lv["els"] = [e for e in lv["els"] if not (e["k"] in ("S", "C") and e["at"] == first)]
            lv["els"].append({"k": "R", "at": first, "R": 50.0, "src": waves.rand(rng, T)})
    return nets


def elements(rng, ids, T, kinds, sources, dt=None):
    els = []
    any_src = False

    def src(p=0.4):
        nonlocal any_src
        if sources and rng.random() < p:
            any_src = True
            return waves.rand(rng, T)
        return None
    R = lambda: rng.choice([50.0, 5.0, 1e3, 100.0, r3(rng.uniform(0.5, 300)), 1e6])
    todo = list(ids)
    rng.shuffle(todo)
    while todo:
        a = todo.pop()
        k = rng.choice(kinds)
        if k in ("RR", "SS") and todo:
            b = todo.pop() if rng.random() < 0.7 else rng.choice(todo)
            if k == "RR":
                els.append({"k": "RR", "a": a, "b": b, "R": R(), "src": src(0.25)})
            else:
                els.append({"k": "SS", "a": a, "b": b})
            if rng.random() < 0.35 and "R" in kinds:
                els.append({"k": "R", "at": rng.choice([a, b]), "R": R(), "src": src()})
        elif k == "C":
            els.append({"k": "C", "at": a, "C": r3(rng.choice([1e-12, 1e-11, 1e-10]) * rng.uniform(0.5, 5)), "src": src(0.3)})
            if rng.random() < 0.3:
                els.append({"k": "R", "at": a, "R": R(), "src": None})
        elif k == "LC":
            d = dt or 1e-10
            w = rng.uniform(0.05, 0.6) / d
            Z = rng.uniform(10, 200)
            els.append({"k": "LC", "at": a, "R": r3(rng.uniform(5, 200)), "L": r3(Z / w), "C": r3(1 / (Z * w)), "src": src()})
        elif k == "S":
            els.append({"k": "S", "at": a})
        elif k == "R" or k in ("RR", "SS"):
            if "R" not in kinds and k not in ("RR", "SS"):
                continue
            els.append({"k": "R", "at": a, "R": R(), "src": src(), "alias": rng.random() < 0.3})
            if rng.random() < 0.1:
                els.append({"k": "R", "at": a, "R": R(), "src": None})
    if ids and rng.random() < 0.25:           # several elements on one node, in any order
        taken = {e["at"] for e in els if e["k"] == "LC"}
        for _ in range(rng.choice([1, 1, 2, 3])):
            a = rng.choice([q for q in ids if not any(e["k"] == "S" and e["at"] == q for e in els)] or [None])
            if a is None:
                break
            k = rng.choice([k for k in kinds if k in ("R", "C", "LC", "RR")] or [None])
            given = [e["src"] for e in els if e.get("src") and a in (e.get("at"), e.get("a"), e.get("b"))]
            e = None
            if k == "R":
                e = {"k": "R", "at": a, "R": R(), "src": src(), "alias": rng.random() < 0.3}
            elif k == "C":
                e = {"k": "C", "at": a, "C": r3(rng.choice([1e-12, 1e-11]) * rng.uniform(0.5, 5)), "src": src(0.3)}
            elif k == "LC" and a not in taken:
                w, Z = rng.uniform(0.05, 0.6) / (dt or 1e-10), rng.uniform(10, 200)
                e = {"k": "LC", "at": a, "R": r3(rng.uniform(5, 200)), "L": r3(Z / w), "C": r3(1 / (Z * w)), "src": src()}
                taken.add(a)
            elif k == "RR" and len(ids) > 1:
                e = {"k": "RR", "a": a, "b": rng.choice([q for q in ids if q != a]), "R": R(), "src": src(0.25)}
            if e:
                if given and e["src"] and rng.random() < 0.5:
                    e["src"] = rng.choice(given)          # one source behind two elements of a node
                els.append(e)
    if rng.random() < 0.5:
        rng.shuffle(els)
    return els, any_src


def net_world(rng, nb=None, g=True, kinds=("R", "C", "LC", "S", "RR", "SS"), zt=True, mix=None, lumped=False, small=False, T_steps=120):
    if nb is None and rng.random() < 0.03:
        nb = rng.choice([4, 5])
    nb = nb or rng.choice([1, 1, 2, 2, 3])
    bs = [bundle(rng, f"B{k}", g=g, small=small or nb > 2) for k in range(nb)]
    dts = [dt_of(b["nodes"], b["ndiv"], [ln for lev in b["levels"] for ln in lev]) for b in bs]
    dt = min(dts)
    for b in bs:
        add_probes(rng, b)
        if zt:
            b["zt"] = transfer(rng, b, dt)
    nets = networks(rng, bs, T_steps * dt, kinds=kinds, mix_levels=mix if mix is not None else rng.random() < 0.15, dt=dt)
    return {"bundles": bs, "nets": nets, "assemble": rng.choice(["ctor", "add"]), "dt": dt, "one_fn": rng.random() < 0.4}
