"""C22 invalid starts are rejected, valid ones accepted."""
import math

import numpy as np
from hypothesis import strategies as st

from . import geom, pairs, scenes
from .core import OutOfDomain, fail, require
from .scenes import one_in, sym, u

COUNT = dict(quick=3200, thorough=80000)
RULE = ('World starts: 2-5 bodies of any kind placed against each other with overlaps '
        'concentrated around the tolerance (1e-6 .. 0.05), some pairs excluded, all orders, '
        'strict and not. Hulls: simple polygons, convex or star-shaped, in either orientation, any '
        'first vertex, lists of fewer than three points, lists or tensors, any offset. '
        'Non-trivial: an overlap within a factor 3 of the tolerance, or an orientation judged.')
ASSUMPTIONS = ['overlaps within 1e-9 of the tolerance and polygons of nearly no area are skipped']


@st.composite
def world_case(draw):
    n = draw(st.integers(2, 5))
    tol = draw(st.sampled_from([1e-6, 1e-6, 1e-4, 1e-3, 0.05]))
    bodies = []
    for i in range(n):
        b = draw(scenes.body('crh', 2.0, 20.0))
        b['v'] = [0.0, 0.0, 0.0]
        if i:
            gap = draw(st.one_of(u(0.0, 0.2), st.sampled_from([-0.5, -0.99, -1.01, -2.0, -3.0]).map(
                lambda x: x * tol), u(-1.0, 0.0).map(lambda x: 3 * x * tol), u(-5.0, 0.0),
                u(0.1, 4.0)))
            b['att'] = [draw(scenes.angle()), draw(st.integers(0, i - 1)), draw(sym(math.pi)), gap]
        bodies.append(b)
    nc = [[i, j] for i in range(n) for j in range(i) if draw(one_in(5))]
    return dict(what='world', bodies=bodies, tol=tol, nc=nc, strict=not draw(one_in(4)),
                eps=draw(st.sampled_from([0.1, 0.1, 0.02, 0.5])),
                order=list(draw(st.permutations(list(range(n))))))


@st.composite
def hull_case(draw):
    n = draw(st.integers(1, 9))
    s = draw(scenes.lu(0.05, 200.0))
    t, vs = 0.0, []
    gaps = [draw(u(0.3, 1.0)) for _ in range(n)]
    star = draw(st.booleans())
    for g in gaps:
        r = s * (draw(u(0.4, 1.0)) if star else 1.0)
        vs.append([r * math.cos(t), r * 0.6 * math.sin(t)])
        t += 2 * math.pi * g / sum(gaps)
    vs = np.array(vs) @ geom.rot(draw(scenes.angle())).T
    vs = vs + np.array([draw(sym(20.0)) * s, draw(sym(20.0)) * s])
    if draw(st.booleans()):
        vs = vs[::-1]
    vs = np.roll(vs, draw(st.integers(0, n - 1)), axis=0)
    return dict(what='hull', vs=vs.tolist(), ref=[draw(sym(500.0)), draw(sym(500.0))],
                form=draw(st.sampled_from(['list', 'tensor', 'int'])))


def strategy(tier):
    return st.one_of(world_case(), world_case(), hull_case())


def hull(case, ctx):
    import torch
    from lcp_physics.physics.bodies import Hull
    vs = np.array(case['vs'])
    if case['form'] == 'int':
        vs = np.round(vs)
        given = [[int(x) for x in v] for v in vs]
    elif case['form'] == 'tensor':
        given = [torch.tensor(v, dtype=torch.float64) for v in vs.tolist()]
    else:
        given = vs.tolist()
    A = 0.5 * sum(vs[i - 1][0] * vs[i][1] - vs[i][0] * vs[i - 1][1] for i in range(len(vs)))
    size = np.abs(vs - vs.mean(0)).max()
    if len(vs) > 2 and abs(A) < 1e-3 * size ** 2 + 1e-9 * np.abs(vs).max() ** 2:
        raise OutOfDomain('nearly no area')
    if case['form'] == 'int' and len({tuple(v) for v in vs.tolist()}) < len(vs):
        raise OutOfDomain('rounded to equal vertices')
    want = len(vs) > 2 and A > 0
    try:
        Hull(case['ref'], given)
        got = True
    except AssertionError:
        got = False
    require(got == want, 'hull with vertices %s (signed area %.6g) was %s', vs.tolist(), A,
            'accepted' if got else 'rejected')
    ctx.nt()
    ctx.label('hull accepted' if got else 'hull rejected')


def check(case, ctx):
    from lcp_physics.physics.world import World
    if case['what'] == 'hull':
        return hull(case, ctx)
    bs = case['bodies']
    if not all(scenes.good_polygon(b['vs']) for b in bs if b['k'] == 'h'):
        raise OutOfDomain('degenerate polygon')
    poses, local = [], []
    for b in bs:
        sh, a = scenes.local_shape(b)
        if not poses:
            poses.append([a, 0.0, 0.0])
        else:
            poses.append(pairs.against(local, poses, sh, [a] + b['att'][1:]))
        local.append(sh)
    ws = [geom.shape_at(s, p) for s, p in zip(local, poses)]
    excl = {frozenset(p) for p in case['nc']}
    tol = case['tol']
    depth = -np.inf
    for i in range(len(bs)):
        for j in range(i):
            if frozenset((i, j)) in excl:
                continue
            d = geom.depth(ws[i], ws[j])
            if abs(d - tol) < 1e-9:
                raise OutOfDomain('overlap at the tolerance')
            depth = max(depth, d)
            if ws[i][0] == ws[j][0] == 'c' and np.linalg.norm(ws[i][1] - ws[j][1]) < 1e-9:
                raise OutOfDomain('concentric circles')
    objs = [scenes.make_body(b, p, case['eps']) for b, p in zip(bs, poses)]
    for i, j in case['nc']:
        objs[i].add_no_contact(objs[j])
    kw = dict(eps=case['eps'], tol=tol)
    if not case['strict']:
        kw['strict_no_penetration'] = False
    try:
        World([objs[o] for o in case['order']], [], **kw)
        got = True
    except AssertionError:
        got = False
    want = not case['strict'] or depth <= tol
    require(got == want, '%s world with deepest overlap %.9g (tolerance %g) was %s',
            'strict' if case['strict'] else 'non-strict', depth, tol,
            'accepted' if got else 'rejected')
    ctx.nt(tol / 3 < depth < 3 * tol)
    ctx.label('%s %s' % ('strict' if case['strict'] else 'lax', 'accepted' if got else 'rejected'))
