"""C12 hull-hull contacts."""
import numpy as np
from hypothesis import strategies as st

from . import geom, pairs, scenes
from .core import OutOfDomain, require

COUNT = dict(quick=3200, thorough=80000)
RULE = ('Two convex polygons (rectangles and hulls of 3-7 vertices) at a drawn relative placement, '
        'in a third of the cases with exactly parallel edges, gap concentrated around 0 and eps, '
        'also deep; poses reached by set_p, moves, detections in between; both world orders; eps '
        'varied. Separation and the clipped manifold recomputed in numpy. Non-trivial: largest '
        'separation within [-size, 2 eps].')
ASSUMPTIONS = ['cases within 1e-9 of the threshold are skipped', 'where edges tie (within 1e-7) '
               'the manifold of either is accepted', 'a pair whose touching part lies beside the '
               'chosen edge (corner against corner) need not be reported']


def strategy(tier):
    return pairs.pair('rh', 'rh', align=True)


def manifold(ref, inc, k, eps):
    """Contacts expected for edge k of ref as reference: list of (point on ref edge, depth,
    sure), and whether the deepest vertex lies over the edge.  Several alternatives if the incident edge ties."""
    n = geom.edge_normals(ref)[k]
    a, b = ref[k], ref[(k + 1) % len(ref)]
    t = (b - a) / np.linalg.norm(b - a)
    ln = np.linalg.norm(b - a)
    sep = (inc - a) @ n
    m = len(inc)
    low = np.flatnonzero(sep < sep.min() + 1e-7)
    ni = geom.edge_normals(inc)
    alts, over = [], False
    for v in low:
        over = over or (1e-7 < (inc[v] - a) @ t < ln - 1e-7)
        cand = [(v - 1) % m, v]
        dots = [ni[i] @ n for i in cand]
        for i, dt in zip(cand, dots):
            if dt > min(dots) + 1e-7:
                continue
            P, Q = inc[i], inc[(i + 1) % m]
            p, q = (P - a) @ t, (Q - a) @ t
            lo, hi = 0.0, 1.0
            if abs(q - p) < 1e-12:
                if p < 0 or p > ln:
                    alts.append([])
                    continue
            else:
                s = sorted([(0 - p) / (q - p), (ln - p) / (q - p)])
                lo, hi = max(lo, s[0]), min(hi, s[1])
            pts = []
            if lo <= hi:
                for f in (lo, hi):
                    x = P + f * (Q - P)
                    d = float((x - a) @ n)
                    # a vertex at the very end of the edge, if more than that is over it
                    over = over or (hi - lo) * np.linalg.norm(Q - P) > 1e-6 and \
                        d < sep.min() + 1e-7
                    if d <= eps + 1e-9:
                        pts.append((x - d * n, -d, d < eps - 1e-9))
            alts.append(pts)
    return n, alts, over


def same(got, pts, tol):
    for x, pen in got:
        if not any(np.abs(x - y).max() < tol and abs(pen - d) < tol for y, d, _ in pts):
            return False
    for y, d, sure in pts:
        if sure and not any(np.abs(x - y).max() < tol and abs(pen - d) < tol for x, pen in got):
            return False
    return True


def check(case, ctx):
    if not all(scenes.good_polygon(b['vs']) for b in case['b'] if b['k'] == 'h'):
        raise OutOfDomain('degenerate polygon')
    ps = pairs.poses(case)
    if ps is None:
        raise OutOfDomain('gap not reachable')
    sh = [scenes.local_shape(b)[0] for b in case['b']]
    A, B = [geom.shape_at(s, p)[1] for s, p in zip(sh, ps)]
    eps = case['eps']
    sA, nA = geom.sat_each(A, B)
    sB, nB = geom.sat_each(B, A)
    sep = max(sA.max(), sB.max())
    if abs(sep - eps) < 1e-9:
        raise OutOfDomain('at the threshold')
    w, objs = pairs.make_world(case, ps)
    got = pairs.read(w, objs, (0, 1))
    size = 1 + max(geom.radius(s) for s in sh)
    tol = 1e-7 * size
    ctx.nt(sep < 2 * eps)
    ctx.label('contact' if sep <= eps else 'apart')
    ctx.label('aligned', int(bool(case.get('align'))))
    if sep > eps:
        require(not got, 'separation %.12g, eps %g: contacts %s', sep, eps, got)
        return
    options, must = [], True
    for ref, inc, s, sign in ((A, B, sA, -1), (B, A, sB, 1)):
        for k in np.flatnonzero(s > sep - 1e-7):
            n, alts, over = manifold(ref, inc, k, eps)
            must = must and over
            options += [(sign * n, pts) for pts in alts]
    if not got:
        require(not must, 'separation %.12g, eps %g and the closest vertex lies over the edge, but '
                'there is no contact', sep, eps)
        ctx.label('beside the edge')
        if sep < -1e-6:
            ctx.label('overlap unreported')
        return
    pens = [g[3] for g in got]
    require(len(got) <= 2, '%d contacts for one pair', len(got))
    if not any(o[1] for o in options):
        # corner against corner: neither edge lies over the other
        ctx.label('beside the edge')
        require(min(pens) > -eps - tol, 'contact at a distance of %.12g', -min(pens))
        return
    require(max(pens) < -sep + tol, 'penetration %.12g at separation %.12g', max(pens), sep)
    if must:
        require(max(pens) > -sep - tol, 'deepest penetration %.12g at separation %.12g',
                max(pens), sep)
    for nrm, x1, x2, pen in got:
        require(np.abs(x1 - x2).max() < tol, 'points %s and %s of one contact differ',
                x1.tolist(), x2.tolist())
    nrm = got[0][0]
    require(all(np.abs(g[0] - nrm).max() < 1e-9 for g in got), 'normals of one pair differ')
    fit = [o for o in options if np.abs(o[0] - nrm).max() < 1e-6]
    require(fit, 'normal %s (from second to first body) is not the one of the edge of largest '
            'separation %s', nrm.tolist(), [o[0].tolist() for o in options])
    pts = [(x1, pen) for _, x1, _, pen in got]
    require(any(same(pts, o[1], 1e-6 * size) for o in fit),
            'contact points %s, expected %s', [(x.tolist(), d) for x, d in pts],
            [[(x.tolist(), d) for x, d, _ in o[1]] for o in fit])
    ctx.label('%d points' % len(got))
