"""C02 gradients of the LCP solver."""
import numpy as np
from hypothesis import strategies as st

from . import lcpgen
from .core import OutOfDomain, require
from .oracle import ipm

COUNT = dict(quick=2400, thorough=24000)
NAMES = 'Q p G h A b F'.split()
RULE = ('Problems as in C01 but strictly complementary, in batches of 1-3, plus contact-structured '
        'problems with friction. For each of Q,p,G,h,A,b,F a random direction and random output '
        'weights (of sizes from 1e-8 to 1e6): autograd against implicit derivative of an independent numpy solution on its '
        'certified active set. Non-trivial: active rows exist and some input has a '
        'non-zero derivative.')
ASSUMPTIONS = ['regular problems: strict complementarity margin 1e-3, conditioned KKT matrix',
               'Q is symmetric, its gradient is taken along symmetric directions']


@st.composite
def _case(draw):
    seed = draw(st.integers(0, 1 << 32))
    scale = draw(st.sampled_from([1.0, 1.0, 1e-8, 1e-5, 1e3, 1e6]))
    if draw(st.integers(0, 2)) == 0:
        n = draw(st.sampled_from([3, 6, 9]))
        k = draw(st.integers(1, 3))
        return dict(raw=draw(lcpgen.raw(n, k, draw(st.integers(0, min(3, n - 1))))), wseed=seed, wscale=scale)
    nz = draw(st.integers(1, 6))
    m = draw(st.integers(1, 6))
    ne = draw(st.integers(0, min(3, nz - 1)))
    kind = draw(st.sampled_from(['zero', 'psd', 'skew', 'mixed']))
    nb = draw(st.sampled_from([1, 1, 2, 3]))
    kinds = [kind] + [draw(st.sampled_from([kind, 'zero', 'psd', 'skew', 'mixed']))
                      for _ in range(nb - 1)]
    return dict(known=[draw(lcpgen.known(nz, m, ne, q, strict=True)) for q in kinds],
                wseed=seed, wscale=scale)


def strategy(tier):
    return _case()


def kkt(prob, act):
    """Solution of the KKT equalities with the given rows active; also the matrix condition."""
    Q, p, G, h, A, b, F = prob
    nz, ne, na = len(p), len(b), int(act.sum())
    Ga = G[act]
    K = np.zeros((nz + na + ne,) * 2)
    K[:nz, :nz] = Q
    K[:nz, nz:nz + na] = Ga.T
    K[nz:nz + na, :nz] = Ga
    K[nz:nz + na, nz:nz + na] = -F[np.ix_(act, act)]
    if ne:
        K[:nz, nz + na:] = A.T
        K[nz + na:, :nz] = A
    return K, np.concatenate([-p, h[act], b])


def certify(prob):
    """Active rows at the solution, or OutOfDomain."""
    res, sol = ipm(*prob, iters=15)
    if sol is None or res > 1e-8:
        raise OutOfDomain('no comfortable interior-point solution')
    x, s, z, y = sol
    if np.maximum(s, z).min() < 1e-3 or np.minimum(s, z).max() > 1e-6:
        raise OutOfDomain('not strictly complementary')
    act = z > s
    K, r = kkt(prob, act)
    if np.linalg.cond(K) > 1e5:
        raise OutOfDomain('badly conditioned')
    w = np.linalg.solve(K, r)
    na, nz = int(act.sum()), len(x)
    G, h, F = prob[2], prob[3], prob[6]
    zz = np.zeros(len(h))
    zz[act] = w[nz:nz + na]
    ss = h + F @ zz - G @ w[:nz]
    if na and zz[act].min() < 1e-3 or (~act).any() and ss[~act].min() < 1e-3:
        raise OutOfDomain('not strictly complementary')
    return act, w


def check(case, ctx):
    from lcp_physics.lcp.lcp import LCPFunction
    import torch
    if 'raw' in case:
        r = lcpgen.Raw(case['raw'])
        if len(r.J) and np.linalg.svd(r.J, compute_uv=False).min() < 0.1:
            raise OutOfDomain('dependent equalities')
        probs = [r.lcp()]
        ctx.label('raw')
    else:
        probs = [lcpgen.build(d)[0] for d in case['known']]
        if not all(lcpgen.ok(pr) for pr in probs):
            raise OutOfDomain('badly scaled rows')
        ctx.label('F=' + case['known'][0]['kind'])
    rng = np.random.default_rng(case['wseed'])
    acts = [certify(pr) for pr in probs]
    t = lcpgen.tensors(probs)
    for a in t:
        a.requires_grad_(a.numel() > 0)
    x = LCPFunction()(*t)
    for i, (act, w) in enumerate(acts):
        xi = x[i].detach().numpy()
        if np.abs(xi - w[:len(xi)]).max() > 1e-5 * (1 + np.abs(xi).max()):
            raise OutOfDomain('another solution was found')
    if len(probs) > 1:
        ctx.label('batch')
    wt = rng.standard_normal(x.shape) * case.get('wscale', 1.0)
    (x * torch.tensor(wt)).sum().backward()
    for i, (pr, (act, w)) in enumerate(zip(probs, acts)):
        nz = len(pr[1])
        for k, name in enumerate(NAMES):
            if pr[k].size == 0:
                continue
            g = t[k].grad
            require(g is not None and bool(torch.isfinite(g).all()),
                    'gradient of %s is missing or not finite', name)
            d = rng.standard_normal(pr[k].shape)
            if name == 'Q':
                d = d + d.T
            got = float((g[i].numpy() * d).sum())

            # derivative of K(e) w(e) = r(e): lam.(dr - dK w) with K' lam = weights
            q = [np.zeros_like(a) for a in pr]
            q[k] = d
            dK, dr = kkt(q, act)
            K, r = kkt(pr, act)
            lam = np.linalg.solve(K.T, np.concatenate([wt[i], np.zeros(len(r) - nz)]))
            want = float(lam @ (dr - dK @ w))
            # size of the terms that make up the derivative
            ref = np.abs(lam).max() * (1 + np.abs(w).max()) * (1 + np.abs(d).max())
            require(abs(got - want) < 1e-5 * ref,
                    'member %d of %d: derivative along a direction of %s is %.9g, autograd says '
                    '%.9g', i, len(probs), name, want, got)
            ctx.nt(act.any() and abs(want) > 1e-3 * ref)
            ctx.label('compared ' + name)
