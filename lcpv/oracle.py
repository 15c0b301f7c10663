"""Oracles over one velocity update, in numpy/scipy."""
import numpy as np
from scipy.optimize import linprog, nnls

from .scenes import contact_rows

REL = 1e-5


def ipm(Q, p, G, h, A, b, F, iters, tau=0.999):
    """Textbook Mehrotra predictor-corrector for the mixed LCP
        Q x + p + G'z + A'y = 0,  G x + s = h + F z,  A x = b,  s, z >= 0,  s'z = 0
    on the full KKT matrix.  Used only to tell well-behaved problems from those on which
    interior-point methods are known not to converge (friction makes F non-monotone)."""
    nz, m, ne = len(p), len(h), len(b)
    if not ne:
        A = np.zeros((0, nz))

    def solve(d, rx, rs, rz, ry):
        K = np.zeros((nz + 2 * m + ne,) * 2)
        i, j, k = nz, nz + m, nz + 2 * m
        K[:nz, :nz] = Q
        K[:nz, j:k] = G.T
        K[:nz, k:] = A.T
        K[i:j, i:j] = np.diag(d)
        K[i:j, j:k] = np.eye(m)
        K[j:k, :nz] = G
        K[j:k, i:j] = np.eye(m)
        K[j:k, j:k] = -F
        K[k:, :nz] = A
        sc = np.abs(K).max(1)
        sc[sc == 0] = 1
        r = np.linalg.solve(K / sc[:, None], -np.concatenate([rx, rs, rz, ry]) / sc)
        return r[:i], r[i:j], r[j:k], r[k:]

    def step(v, dv):
        t = dv < 0
        return float((-v[t] / dv[t]).min()) if t.any() else 1.0
    best, sol = np.inf, None
    try:
        x, s, z, y = solve(np.ones(m), p, np.zeros(m), -h, -b)
        if s.min() <= 0:
            s = s - s.min() + 1
        if z.min() <= 0:
            z = z - z.min() + 1
        for _ in range(iters):
            rx, rz, ry = A.T @ y + G.T @ z + Q @ x + p, G @ x + s - h - F @ z, A @ x - b
            mu = float(s @ z) / m
            res = np.linalg.norm(rx) + np.linalg.norm(rz) + np.linalg.norm(ry) + m * mu
            if not np.isfinite(res):
                break
            if res < best:
                best, sol = res, (x, s, z, y)
            if best < 1e-12:
                break
            d = z / s
            a = solve(d, rx, z, rz, ry)
            al = min(1.0, step(z, a[2]), step(s, a[1]))
            sig = (((s + al * a[1]) @ (z + al * a[2])) / (s @ z)) ** 3
            c = solve(d, np.zeros(nz), (a[1] * a[2] - mu * sig) / s, np.zeros(m), np.zeros(ne))
            dx, ds, dz, dy = [q + w for q, w in zip(a, c)]
            al = min(1.0, tau * min(step(z, dz), step(s, ds)))
            x, s, z, y = x + al * dx, s + al * ds, z + al * dz, y + al * dy
    except np.linalg.LinAlgError:
        pass
    return best, sol


def tame(q):
    """A textbook method solves the problem with room to spare: 15 of the allowed 20
    iterations, for several step fractions."""
    ref = 1e-8 * (1.0 + np.linalg.norm(q[1]) + np.linalg.norm(q[3]))
    return all(ipm(*q, iters=15, tau=t)[0] < ref for t in (0.999, 0.99, 0.9995))


class Update:
    """Everything about one velocity update: state before, contacts and constraints at the
    start of the step, forces, velocities after."""

    def __init__(self, sim, t=None):
        w = sim.world
        self.sim = sim
        self.n = sim.model.n
        self.N = 3 * self.n
        self.m = sim.model.m
        self.p0, self.v0 = sim.p(), sim.v()
        self.contacts = sim.contacts()
        self.J = sim.Je()
        self.t0 = float(w.t)
        self.f = sim.model.force(self.t0)
        self.Jn, self.Jt = contact_rows(self.contacts, self.n)
        sp = sim.model.specs
        self.e = np.array([(sp[c[4]]['e'] + sp[c[5]]['e']) / 2 for c in self.contacts])
        self.mu = np.array([(sp[c[4]]['mu'] + sp[c[5]]['mu']) / 2 for c in self.contacts])
        self.dt = sim.dt
        self.vscale = max(1.0, float(np.abs(np.concatenate(
            [self.v0, self.dt * self.f / self.m])).max()))

    def after(self, v1, dt):
        self.v1, self.dt = v1, dt
        self.imp = self.m * (v1 - self.v0) - dt * self.f
        s = np.sqrt(self.m)
        self.scale = (np.linalg.norm(self.imp / s) + np.linalg.norm(s * self.v0) +
                      np.linalg.norm(dt * self.f / s))
        lin = np.abs(np.concatenate([self.v0, v1, dt * self.f / self.m]))
        self.vscale = max(1.0, float(lin.max()))
        self.slack = self.Jn @ v1 + self.e * (self.Jn @ self.v0)
        self.tau = REL * self.vscale * max(1.0, float(np.abs(self.Jn).max()) if len(self.Jn)
                                           else 1.0)
        return self

    def eq_resid(self):
        """Largest violation of the joint/constraint velocity rows, relative."""
        if not len(self.J):
            return 0.0
        r = np.abs(self.J @ self.v1) / (np.abs(self.J) @ np.full(self.N, self.vscale))
        return float(r.max())

    def feasible(self):
        """Is there any velocity obeying constraints and the contacts' restitution bound?
        (otherwise the problem has no solution and nothing is promised)"""
        if not len(self.Jn):
            return True
        if not len(self.J):
            A_eq, b_eq = None, None
        else:
            A_eq, b_eq = self.J, np.zeros(len(self.J))
        # maximise the common margin
        n = self.N
        c = np.zeros(n + 1)
        c[-1] = -1
        A = np.hstack([-self.Jn, np.ones((len(self.Jn), 1))])
        b = self.e * (self.Jn @ self.v0)
        if A_eq is not None:
            A_eq = np.hstack([A_eq, np.zeros((len(A_eq), 1))])
        big = 1e4 * self.vscale
        r = linprog(c, A_ub=A, b_ub=b, A_eq=A_eq, b_eq=b_eq,
                    bounds=[(-big, big)] * n + [(-big, 1.0)])
        if r.status != 0:
            return False
        # clearly feasible, or feasible only at the edge (margin 0 with a closed geometry)
        return r.x[-1] > 1e-7 * self.vscale

    def lcp(self):
        k, n = len(self.Jn), self.N
        G = np.zeros((4 * k, n))
        F = np.zeros((4 * k, 4 * k))
        G[:k] = self.Jn
        for i in range(k):
            G[k + 2 * i], G[k + 2 * i + 1] = self.Jt[i], -self.Jt[i]
            F[k + 2 * i, 3 * k + i] = F[k + 2 * i + 1, 3 * k + i] = 1
            F[3 * k + i, k + 2 * i] = F[3 * k + i, k + 2 * i + 1] = -1
            F[3 * k + i, i] = self.mu[i]
        h = np.zeros(4 * k)
        h[:k] = self.e * (self.Jn @ self.v0)
        p = self.m * self.v0 + self.dt * self.f
        return np.diag(self.m), p, G, h, self.J, np.zeros(len(self.J)), F

    def well_behaved(self):
        """The problem has a solution and interior-point iterations find it with room to
        spare (several step fractions, 15 of the allowed 20 iterations)."""
        if not self.feasible():
            return False
        if not len(self.Jn):
            return True
        return tame(self.lcp())

    def generators(self, law):
        """Columns of the cone of impulses allowed by the contact law:
        'coulomb' the friction law given the resulting slip, 'frictionless' normals only,
        'cone' friction bounded by mu times the normal push, in either direction."""
        cols = []
        for k in range(len(self.Jn)):
            if self.slack[k] > self.tau:
                continue
            if law == 'frictionless':
                cols.append(self.Jn[k])
                continue
            vt = float(self.Jt[k] @ self.v1)
            mu = self.mu[k]
            if law == 'coulomb' and abs(vt) > self.tau:
                cols.append(self.Jn[k] - mu * np.sign(vt) * self.Jt[k])
            else:
                cols += [self.Jn[k] + mu * self.Jt[k], self.Jn[k] - mu * self.Jt[k]]
        for r in self.J:
            cols += [r, -r]
        return cols

    def cone_resid(self, law='coulomb'):
        """Distance (kinetic metric) of the applied impulse to the allowed cone, in units of
        the speed scale of the scene."""
        cols = self.generators(law)
        s = np.sqrt(self.m)
        y = self.imp / s
        ref = np.sqrt(self.m[1::3].max()) * self.vscale
        if not cols:
            return float(np.linalg.norm(y) / ref)
        A = np.array(cols).T / s[:, None]
        nrm = np.linalg.norm(A, axis=0)
        nrm[nrm == 0] = 1
        _, res = nnls(A / nrm, y, maxiter=100000)
        return float(res / ref)
