"""Incident fields: JSON specs, as sympy expressions for the solver and as numbers for the reference.

spec: {"form": "linear", "E": [[c, cx, cy, cz] for each component], "g": {A?, t0, s}}
      {"form": "plane", "polar", "azimuth", "polarization" (radians), "E0", "g": {...}}  # arrives from (polar, azimuth), moves at v
      {"form": "wave", "p": [px, py, pz], "k": [kx, ky, kz], "speed": number | "v", "g": {...}}
Time dependence: exp(-((t - t0)/s)^2).
"""
import numpy as np

GX, GW = np.polynomial.legendre.leggauss(24)
GX, GW = (GX + 1) / 2, GW / 2


def symbolic(spec, src):
    import sympy as sp
    x, y, z, t, v = sp.symbols("x y z t v")

    def pulse(tt):
        return sp.exp(-((tt - spec["g"]["t0"]) / spec["g"]["s"]) ** 2)
    if spec["form"] == "plane":
        return src["mtl"].PlaneWave(lambda tt: spec["E0"] * pulse(tt), spec["polar"], spec["azimuth"], spec["polarization"])
    if spec["form"] == "linear":
        g = pulse(t)
        comps = [(c[0] + c[1] * x + c[2] * y + c[3] * z) * g for c in spec["E"]]
    else:
        s = v if spec["speed"] == "v" else spec["speed"]
        k = spec["k"]
        g = pulse(t - (k[0] * x + k[1] * y + k[2] * z) / s)
        comps = [p * g for p in spec["p"]]
    return src["mtl"].Field(*[sp.sympify(c) for c in comps])


def directions(spec):
    """Where a plane wave comes from (polar angle from x, azimuth from y towards z) and the direction of its field:
    polarization is the angle in the plane across that direction from the azimuthal towards minus the polar unit vector."""
    p, a, d = spec["polar"], spec["azimuth"], spec["polarization"]
    frm = np.array([np.cos(p), np.sin(p) * np.cos(a), np.sin(p) * np.sin(a)])
    pol = np.array([-np.sin(p), np.cos(p) * np.cos(a), np.cos(p) * np.sin(a)])
    az = np.array([0.0, -np.sin(a), np.cos(a)])
    return frm, np.cos(d) * az - np.sin(d) * pol


def value(spec, r, t, v):
    """E at points r (..., 3)."""
    r = np.asarray(r, float)
    g = spec["g"]
    if spec["form"] == "linear":
        e = np.stack([c[0] + r @ np.array(c[1:]) for c in spec["E"]], axis=-1)
        return e * np.exp(-((t - g["t0"]) / g["s"]) ** 2)
    if spec["form"] == "plane":
        frm, e = directions(spec)
        return spec["E0"] * np.exp(-((t + r @ frm / v - g["t0"]) / g["s"]) ** 2)[..., None] * e
    s = v if spec["speed"] == "v" else spec["speed"]
    tt = t - r @ np.array(spec["k"]) / s
    return np.exp(-((tt - g["t0"]) / g["s"]) ** 2)[..., None] * np.array(spec["p"])


def distances(op, n, nodes):
    """Offset of every conductor from its reference at every node."""
    out = np.zeros((n, nodes, 3))
    for c in range(n):
        for k in range(nodes):
            out[c, k] = np.array(op["dist"][c]) * (1 + op.get("taper", 0.0) * k / (nodes - 1))
    return out


def attach(bundle, u, op, n, v):
    """Set the field of the reference bundle: along the cells and across the nodes between the ends of the window."""
    d = distances(op, n, len(u))
    a, z = 0, len(u) - 1
    if op.get("window"):
        a = int(np.argmin(np.linalg.norm(u - np.array(op["window"][0]), axis=1)))
        z = int(np.argmin(np.linalg.norm(u - np.array(op["window"][1]), axis=1)))
    for c in range(n):
        for k in range(a, z):
            mid = (u[k] + u[k + 1]) / 2
            e = (u[k + 1] - u[k]) / np.linalg.norm(u[k + 1] - u[k])
            bundle.eL[(c, k)] = [lambda t, m=mid, e=e, q=d[c, k], s=op["field"]: float((value(s, m + q, t, v) - value(s, m, t, v)) @ e)]
        for k in range(a, z + 1):
            bundle.eT[(c, k)] = [lambda t, r=u[k], q=d[c, k], s=op["field"]:
                                 float(GW @ (value(s, r + GX[:, None] * q, t, v) @ q))]
    return a, z


def rand_plane(rng, dt, ndim_T, r3):
    T = ndim_T * dt
    ang = lambda: round(rng.choice([0.0, np.pi / 2, np.pi, -np.pi / 2, rng.uniform(0, 6.3), rng.uniform(0, 6.3), rng.uniform(0, 6.3)]), 4)
    return {"form": "plane", "polar": ang(), "azimuth": ang(), "polarization": ang(), "E0": round(rng.uniform(-60, 60), 2) or 5.0,
            "g": {"t0": r3(T * rng.uniform(0.3, 0.6)), "s": r3(T * rng.uniform(0.08, 0.2))}}


def rand(rng, dt, ndim_T, r3, gradient=False):
    """A random field whose pulse passes within about ndim_T steps."""
    T = ndim_T * dt
    g = {"t0": r3(T * rng.uniform(0.3, 0.6)), "s": r3(T * rng.uniform(0.08, 0.2))}
    if gradient:
        # minus the gradient of a quadratic potential: curl free
        q = [[0.0] * 3 for _ in range(3)]
        for i in range(3):
            for j in range(i + 1):
                q[i][j] = q[j][i] = round(rng.uniform(-20, 20), 2)
        return {"form": "linear", "E": [[round(rng.uniform(-50, 50), 2)] + q[i] for i in range(3)], "g": g}
    amp = lambda a: round(rng.uniform(-a, a), 2) if rng.random() < 0.7 else 0.0
    if rng.random() < 0.5:
        E = [[amp(50), amp(30), amp(30), amp(30)] for _ in range(3)]
        if not any(any(c) for c in E):
            E[2][0] = 10.0
        return {"form": "linear", "E": E, "g": g}
    k = [rng.choice([0.0, 1.0, -1.0, 0.6, 0.8]) for _ in range(3)]
    if not any(k):
        k[rng.randrange(3)] = 1.0
    p = [amp(50) for _ in range(3)]
    if not any(p):
        p[rng.randrange(3)] = 25.0
    return {"form": "wave", "p": p, "k": k, "speed": rng.choice(["v", 3e8, 2e8]), "g": g}
