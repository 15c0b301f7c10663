"""C11 circle contacts."""
import numpy as np
from hypothesis import strategies as st

from . import geom, pairs, scenes
from .core import OutOfDomain, require

COUNT = dict(quick=4000, thorough=100000)
RULE = ('A circle and a circle, rectangle or hull at a drawn relative placement, gap concentrated '
        'around 0 and eps, also deep inside; poses reached directly, by set_p, by moves, with '
        'detections in between; both world orders; eps varied. Non-trivial: the gap is within '
        '[-size, 2 eps].')
ASSUMPTIONS = ['cases within 1e-9 of the threshold or with concentric circles are skipped',
               'where the closest direction is not unique only existence, depth and a finite '
               'unit normal are judged']


def strategy(tier):
    return st.one_of(pairs.pair('c', 'c'), pairs.pair('c', 'rh'), pairs.pair('rh', 'c'))


def closest(s1, s2):
    """(gap, normal from s2 to s1 or None if not unique, closest points) for s1 a circle."""
    c, r = s1[1], s1[2]
    if s2[0] == 'c':
        d = c - s2[1]
        ln = np.linalg.norm(d)
        if ln < 1e-6:
            raise OutOfDomain('concentric')
        n = d / ln
        return ln - r - s2[2], n, c - n * r, s2[1] + n * s2[2]
    vs = s2[1]
    inside = geom.point_poly(c, vs)
    if abs(inside) < 1e-6:
        return inside - r, None, None, None
    if inside < 0:
        nr = geom.edge_normals(vs)
        sep = np.array([(c - vs[i]) @ nr[i] for i in range(len(vs))])
        o = np.argsort(-sep)
        n = nr[o[0]]
        if sep[o[0]] - sep[o[1]] < 1e-7:
            n = None
        return inside - r, n, None if n is None else c - n * r, \
            None if n is None else c - n * inside
    best = None
    m = len(vs)
    for i in range(m):
        a, b = vs[i], vs[(i + 1) % m]
        t = min(1.0, max(0.0, (c - a) @ (b - a) / ((b - a) @ (b - a))))
        q = a + t * (b - a)
        if best is None or np.linalg.norm(c - q) < best[0]:
            best = (np.linalg.norm(c - q), q)
    n = (c - best[1]) / best[0]
    return best[0] - r, n, c - n * r, best[1]


def check(case, ctx):
    if not all(scenes.good_polygon(b['vs']) for b in case['b'] if b['k'] == 'h'):
        raise OutOfDomain('degenerate polygon')
    ps = pairs.poses(case)
    if ps is None:
        raise OutOfDomain('gap not reachable')
    ci = 0 if case['b'][0]['k'] == 'c' else 1
    sh = [scenes.local_shape(b)[0] for b in case['b']]
    ws = [geom.shape_at(s, p) for s, p in zip(sh, ps)]
    gap, n, q1, q2 = closest(ws[ci], ws[1 - ci])
    eps = case['eps']
    if abs(gap - eps) < 1e-9:
        raise OutOfDomain('at the threshold')
    w, objs = pairs.make_world(case, ps)
    got = pairs.read(w, objs, (ci, 1 - ci))
    size = 1 + max(geom.radius(s) for s in sh)
    ctx.nt(gap < 2 * eps)
    ctx.label(case['b'][0]['k'] + case['b'][1]['k'])
    ctx.label('contact' if gap <= eps else 'apart')
    if gap <= -(ws[ci][2]) and case['b'][1 - ci]['k'] != 'c':
        ctx.label('centre inside')
    require(len(got) == (1 if gap <= eps else 0),
            'gap %.12g, eps %g: %d contacts', gap, eps, len(got))
    if not got:
        return
    nrm, x1, x2, pen = got[0]
    tol = 1e-7 * size
    require(abs(pen + gap) < tol, 'penetration %.12g at a gap of %.12g', pen, gap)
    require(abs(np.linalg.norm(nrm) - 1) < 1e-9, 'normal %s is not a unit vector', nrm.tolist())
    if n is None:
        ctx.label('no unique direction')
        require(np.all(np.isfinite(np.concatenate([x1, x2]))), 'points are not finite')
        return
    ill = 1e-7 * size / max(1e-6, abs(gap + ws[ci][2]))
    require(np.abs(nrm - n).max() < 1e-6 + ill,
            'normal %s (from second to first body) instead of %s at gap %.9g', nrm.tolist(),
            n.tolist(), gap)
    for what, x in (('first', x1), ('second', x2)):
        over = np.linalg.norm(x - q1) + np.linalg.norm(x - q2) - abs(gap)
        require(over < 2e-6 * size + ill * size,
                'contact point of the %s body %s is not between the closest points %s and %s',
                what, x.tolist(), q1.tolist(), q2.tolist())
