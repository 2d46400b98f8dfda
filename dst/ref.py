"""Executable reference model: leapfrog telegrapher lines joined by lumped networks.

Written from the line equations and circuit laws, not from the code under test.
One `System` holds bundles and networks and advances them with one clock.

Conventions of the discretisation (staggered grid, trapezoidal loads):
  nodes k = 0..N carry voltages, cells k = 0..N-1 (length h_k) carry currents;
  an end node owns half of the capacitance of its cell, an interior node half of
  each neighbour; a step evaluates the sources at the step's starting time t
  (and at t - dt), then stamps the voltage t + dt and the current t + 3dt/2.
"""
import numpy as np


class Bundle:
    def __init__(self, name, h, L, C, R=None, G=None):
        """h: cell lengths; L, C, R, G: n x n, the same in every cell."""
        self.name = name
        self.h = np.array(h, float)
        self.N = len(self.h)
        self.n = L.shape[0]
        n, N = self.n, self.N
        z = np.zeros((n, n))
        self.L = np.array([L] * N, float)
        self.C = np.array([C] * (N + 1), float)
        self.R = np.array([z if R is None else R] * N, float)
        self.G = np.array([z if G is None else G] * (N + 1), float)
        self.D = np.zeros((N, n, n))       # constant part of lumped/transfer impedance
        self.E = np.zeros((N, n, n))       # part proportional to d/dt
        self.poles = []                    # (cell, i, j, pole, residue, steps recorded before it was inserted)
        self.v = np.zeros((n, N + 1))
        self.i = np.zeros((n, N))
        self.eL = {}                       # (conductor, cell) -> [functions]
        self.eT = {}                       # (conductor, node) -> [functions]
        self.conv = []                     # recorded current history for the convolutions: end of step, dt, current after, before
        self.past = None                   # the same as arrays
        self.filed = 0
        self.term = {}                     # side -> (Z matrix, {conductor: source})

    # -- helpers -----------------------------------------------------------
    def node_len(self, k):
        if k == 0:
            return self.h[0]
        if k == self.N:
            return self.h[-1]
        return 0.5 * (self.h[k - 1] + self.h[k])

    def field_T(self, t):
        a = np.zeros((self.n, self.N + 1))
        for (c, k), fs in self.eT.items():
            a[c, k] = sum(f(t) for f in fs)
        return a

    def field_L(self, t):
        a = np.zeros((self.n, self.N))
        for (c, k), fs in self.eL.items():
            a[c, k] = sum(f(t) for f in fs)
        return a

    # -- phases of a step --------------------------------------------------
    def interior(self, t, dt):
        dT = self.field_T(t) - self.field_T(t - dt)
        new = self.v.copy()
        for k in range(1, self.N):
            H = self.node_len(k)
            A = H * (self.C[k] / dt + self.G[k] / 2)
            B = H * (self.C[k] / dt - self.G[k] / 2)
            new[:, k] = np.linalg.solve(A, B @ self.v[:, k] - (self.i[:, k] - self.i[:, k - 1])) - dT[:, k]
        return new

    def terminal(self, side, t, dt):
        """Series impedance Z to a source, both sides of a stand-alone line."""
        Z, src = self.term[side]
        k, ic, sgn = (0, 0, -1.0) if side == 0 else (self.N, self.N - 1, 1.0)
        h = self.h[0] if side == 0 else self.h[-1]
        now = np.zeros(self.n)
        for c, f in src.items():
            now[c] = f(t) + f(t - dt)
        dT = (self.field_T(t) - self.field_T(t - dt))[:, k]
        I = np.eye(self.n)
        A = h * (Z @ self.C[k] / dt + Z @ self.G[k] / 2) + I
        B = h * (Z @ self.C[k] / dt - Z @ self.G[k] / 2) - I
        rhs = B @ self.v[:, k] + sgn * 2 * Z @ self.i[:, ic] + now - h / dt * (Z @ self.C[k]) @ dT
        return np.linalg.solve(A, rhs)

    def memory(self):
        """Value of every convolution term (t_m: end of step m): sum_m exp(p (t_n - t_m)) (a i^m + b i^{m-1})."""
        out = [0.0] * len(self.poles)
        if not self.poles or not self.conv:
            return out
        m = len(self.conv)
        if self.past is None or len(self.past[0]) < m:          # room for twice as many steps
            old, size = self.past, 2 * m + 32
            self.past = [np.zeros(size), np.zeros(size), np.zeros((size, self.n, self.N)), np.zeros((size, self.n, self.N))]
            for new, had in zip(self.past, old or []):
                new[:len(had)] = had
        for k in range(self.filed, m):
            for arr, val in zip(self.past, self.conv[k]):
                arr[k] = val
        self.filed = m
        tn = self.conv[-1][0]
        for q, (cell, i, j, p, r, born) in enumerate(self.poles):
            tm, dt, inow, iprev = (arr[born:m] for arr in self.past)
            x = p * dt
            ex = np.exp(x)
            a = -(r / p) * (1 - (ex - 1) / x)
            b = (r / p) * (1 / x + ex * (1 - 1 / x))
            out[q] = np.sum(np.exp(p * (tn - tm)) * (a * inow[:, j, cell] + b * iprev[:, j, cell]))
        return out

    def current(self, t, dt):
        T = self.field_T(t)
        EL = (self.field_L(t + dt / 2) + self.field_L(t - dt / 2)) / 2
        Q1 = np.zeros((self.N, self.n, self.n))
        Q2 = np.zeros((self.N, self.n, self.n))
        M = np.zeros((self.n, self.N))
        mem = self.memory()
        for (cell, i, j, p, r, _), s in zip(self.poles, mem):
            x = p * dt
            Q1[cell, i, j] += (-(r / p) * (1 - (np.exp(x) - 1) / x)).real
            Q2[cell, i, j] += ((r / p) * (1 / x + np.exp(x) * (1 - 1 / x))).real
            M[i, cell] += (np.exp(x) * s).real
        new = np.empty_like(self.i)
        for k in range(self.N):
            h = self.h[k]
            X = (self.L[k] + self.E[k]) / dt
            S = (self.R[k] + self.D[k]) / 2
            A = h * (X + S + Q1[k])
            B = h * (X - S - Q2[k])
            dv = self.v[:, k + 1] - self.v[:, k] + T[:, k + 1] - T[:, k]
            new[:, k] = np.linalg.solve(A, B @ self.i[:, k] - dv + h * EL[:, k] - h * M[:, k])
        if self.poles:
            self.conv.append((t + dt, dt, new.copy(), self.i.copy()))
        self.i = new


class Network:
    """Nodes (bundle, conductor, side 0/-1) plus lumped elements between them and ground."""

    def __init__(self, nodes):
        self.nodes = list(nodes)                       # (bundle, conductor, side, key, group)
        self.ix = {nd[3]: a for a, nd in enumerate(self.nodes)}
        self.el = []
        self.ties = []
        self.vprev = np.zeros(len(self.nodes))

    def ground_R(self, key, R, src=None):
        self.el.append(["R", self.ix[key], R, src])

    def short(self, key):
        self.el.append(["R", self.ix[key], 1e-10, None])

    def join(self, k1, k2):
        """Ideal connection: the two nodes share one voltage."""
        self.ties.append((self.ix[k1], self.ix[k2]))

    def ground_C(self, key, C, src=None):
        self.el.append(["C", self.ix[key], C, src])

    def ground_LCpRs(self, key, R, L, C, src=None):
        self.el.append(["LC", self.ix[key], R, L, C, src, [0.0, 0.0]])   # state: u (LC voltage), iL

    def between(self, k1, k2, R, src=None):
        self.el.append(["RR", self.ix[k1], self.ix[k2], R, src])

    def solve(self, A, b, n, m):
        if not self.ties:
            return np.linalg.solve(A, b)
        root = list(range(m))
        for p, q in self.ties:
            rp, rq = root[p], root[q]
            root = [rp if r == rq else r for r in root]
        reps = sorted(set(root))
        T = np.zeros((m, len(reps)))
        for a in range(m):
            T[a, reps.index(root[a])] = 1.0
        return T @ np.linalg.solve(T.T @ A @ T, T.T @ b)

    def advance(self, t, dt):
        n = len(self.nodes)
        V = np.array([nd[0].v[nd[1], 0 if nd[2] == 0 else nd[0].N] for nd in self.nodes])
        lcs = [e for e in self.el if e[0] == "LC"]
        m = n + 2 * len(lcs)
        A = np.zeros((m, m))
        b = np.zeros(m)
        for a, (bu, c, side, key, grp) in enumerate(self.nodes):
            k = 0 if side == 0 else bu.N
            h = bu.h[0] if side == 0 else bu.h[-1]
            dT = (bu.field_T(t) - bu.field_T(t - dt))[:, k]
            for a2, (bu2, c2, side2, key2, grp2) in enumerate(self.nodes):
                if bu2 is bu and side2 == side and grp2 == grp:
                    A[a, a2] += h * (bu.C[k][c, c2] / dt + bu.G[k][c, c2] / 2)
                    b[a] += h * (bu.C[k][c, c2] / dt - bu.G[k][c, c2] / 2) * V[a2]
                    b[a] -= h * bu.C[k][c, c2] * dT[c2] / dt
            I = bu.i[c, 0] if side == 0 else -bu.i[c, -1]
            b[a] -= 2 * I
        s = lambda f, tt: 0.0 if f is None else f(tt)
        q = n
        for e in self.el:
            if e[0] == "R":
                _, a, R, f = e
                A[a, a] += 1 / R
                b[a] += -V[a] / R + (s(f, t) + s(f, t - dt)) / R
            elif e[0] == "RR":
                _, a, c, R, f = e
                A[a, a] += 1 / R
                A[c, c] += 1 / R
                A[a, c] -= 1 / R
                A[c, a] -= 1 / R
                x = (V[c] - V[a]) / R + (s(f, t) + s(f, t - dt)) / R
                b[a] += x
                b[c] -= x
            elif e[0] == "C":
                _, a, C, f = e
                A[a, a] += C / dt
                b[a] += C / dt * V[a] + C / dt * (s(f, t) - s(f, t - dt))
                b[a] += -C / dt * (V[a] - self.vprev[a]) + C / dt * (s(f, t - dt) - s(f, t - 2 * dt))
            elif e[0] == "LC":
                _, a, R, L, C, f, (u, iL) = e
                # current into the node: (vs - v - u)/R, evaluated at both ends of the step
                A[a, a] += 1 / R
                A[a, q] += 1 / R
                b[a] += (s(f, t) / R) + (s(f, t - dt) - V[a] - u) / R
                # C du/dt = (vs - v - u)/R - iL ; L diL/dt = u  (backward Euler)
                A[q, q] += 1 + dt / (R * C)
                A[q, a] += dt / (R * C)
                A[q, q + 1] += dt / C
                b[q] += u + dt / (R * C) * s(f, t)
                A[q + 1, q + 1] += 1
                A[q + 1, q] += -dt / L
                b[q + 1] += iL
                q += 2
        x = self.solve(A, b, n, m)
        q = n
        for e in lcs:
            e[6] = [x[q], x[q + 1]]
            q += 2
        self.vprev = V
        return x[:n]


class System:
    def __init__(self):
        self.bundles = []
        self.nets = []
        self.time = 0.0
        self.steps = 0

    def step(self, dt):
        t = self.time
        newv = [b.interior(t, dt) for b in self.bundles]
        for b, nv in zip(self.bundles, newv):
            for side in b.term:
                nv[:, 0 if side == 0 else b.N] = b.terminal(side, t, dt)
        sols = [(nw, nw.advance(t, dt)) for nw in self.nets]
        for b, nv in zip(self.bundles, newv):
            b.v = nv
        for nw, x in sols:
            for (b, c, side, _, _), val in zip(nw.nodes, x):
                b.v[c, 0 if side == 0 else b.N] = val
        for b in self.bundles:
            b.current(t, dt)
        self.time += dt
        self.steps += 1
