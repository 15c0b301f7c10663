"""Generators of mixed LCPs with known solutions."""
import numpy as np
from hypothesis import strategies as st

from .oracle import Update
from .scenes import lu, u


def unif(g, *shape):
    return np.round(g.uniform(-1, 1, shape), 6)


@st.composite
def known(draw, nz, m, ne, kind, strict=False):
    """One problem with its solution.  kind: 'zero', 'psd', 'skew', 'mixed' for F.  Matrices
    come from a seed; sizes, scales and the activity pattern are drawn."""
    d = dict(seed=draw(st.integers(0, 1 << 32)), nz=nz, m=m, ne=ne, kind=kind,
             g=draw(lu(0.05, 2.0)), gs=draw(lu(0.3, 10.0)), xs=draw(lu(0.3, 30.0)),
             f=draw(lu(0.1, 5.0)))
    d['act'] = [draw(st.integers(0, 3 if strict else 4)) for _ in range(m)]
    d['zs'] = draw(lu(0.05, 10.0))
    d['dup'] = (not strict) and draw(st.integers(0, 4)) == 0
    return d


def build(d):
    """numpy problem (Q,p,G,h,A,b,F) and solution x, s, z, y."""
    rng = np.random.default_rng(d['seed'])
    nz, m, ne = d['nz'], d['m'], d['ne']
    L, G, A = unif(rng, nz, nz), d['gs'] * unif(rng, m, nz), unif(rng, ne, nz)
    if d['dup'] and m > 1:
        G[-1] = G[0]
    Q = L @ L.T + d['g'] * np.eye(nz)
    F = np.zeros((m, m))
    if d['kind'] in ('psd', 'mixed'):
        B = unif(rng, rng.integers(1, m + 1), m)
        F += d['f'] * B.T @ B
    if d['kind'] in ('skew', 'mixed'):
        K = unif(rng, m, m)
        F += d['f'] * (K - K.T)
    x, y = d['xs'] * unif(rng, nz), 3 * unif(rng, ne)
    val = d['zs'] * np.exp(rng.uniform(-1.5, 1.5, m))
    s, z = np.zeros(m), np.zeros(m)
    for i, (a, v) in enumerate(zip(d['act'], val)):
        if a == 4:
            continue
        if a % 2 == 0:
            s[i] = v
        else:
            z[i] = v
    if d['dup'] and m > 1:
        s[-1] = s[0]
        z[-1] = 0 if s[0] > 0 else z[-1]
    h = G @ x + s - F @ z
    if d['dup'] and m > 1 and not F.any():
        h[-1] = h[0]
    b = A @ x
    p = -(Q @ x + G.T @ z + A.T @ y)
    return (Q, p, G, h, A, b, F), (x, s, z, y)


def ok(prob):
    """Independent, not nearly dependent equality rows, no vanishing rows."""
    A = prob[4]
    if np.linalg.norm(prob[2], axis=1).min() < 0.1:
        return False
    return len(A) == 0 or np.linalg.svd(A, compute_uv=False).min() > 0.1


class Raw(Update):
    """A contact problem that does not come from a scene: random rows, masses, frictions."""

    def __init__(self, d):
        rng = np.random.default_rng(d['seed'])
        n, k, ne = d['n'], d['k'], d['ne']
        self.Jn, self.Jt, self.J = unif(rng, k, n), unif(rng, k, n), unif(rng, ne, n)
        if d.get('flat'):
            # contacts along flat sides: more points than the motion has freedoms
            for i in range(k):
                a = i % (n // 3)
                self.Jn[i], self.Jt[i] = 0, 0
                self.Jn[i, 3 * a:3 * a + 3] = [np.round(rng.uniform(-3, 3), 6), 0, -1]
                self.Jt[i, 3 * a:3 * a + 3] = [2, -1, 0]
                if i % 3 == 2 and a + 1 < n // 3:
                    self.Jn[i, 3 * a + 3:3 * a + 6] = [np.round(rng.uniform(-3, 3), 6), 0, 1]
                    self.Jt[i, 3 * a + 3:3 * a + 6] = [2, 1, 0]
        self.N = n
        self.m = np.exp(rng.uniform(-d['ms'], d['ms'], n))
        self.v0, self.f = 10 * unif(rng, n), 50 * unif(rng, n)
        if d.get('flat'):
            self.v0[2::3] = np.abs(self.v0[2::3])
            self.f[2::3] += 100
        self.e, self.mu = rng.uniform(0, 1, k), rng.uniform(0, d['mu'], k)
        self.dt = 1 / 30
        self.contacts = [None] * len(self.Jn)
        if len(self.J):
            self.v0 = self.v0 - np.linalg.pinv(self.J) @ (self.J @ self.v0)


@st.composite
def raw(draw, n, k, ne):
    return dict(seed=draw(st.integers(0, 1 << 32)), n=n, k=k, ne=ne, ms=draw(u(0.0, 3.0)),
                mu=draw(u(0.0, 1.2)), flat=draw(st.integers(0, 1)) == 0)


def solve(probs, **kw):
    """Solve a batch with the code under test; returns x as an array."""
    from lcp_physics.lcp.lcp import LCPFunction
    t = tensors(probs)
    before = [a.clone() for a in t]
    x = LCPFunction(**kw)(*t)
    same = all(a.equal(b) for a, b in zip(t, before))
    return x.detach().numpy(), same


def tensors(probs):
    import torch
    out = []
    for k in range(7):
        a = torch.tensor(np.array([pr[k] for pr in probs]), dtype=torch.float64)
        if k in (4, 5) and len(probs[0][4]) == 0:
            a = torch.tensor([])
        out.append(a)
    return out
