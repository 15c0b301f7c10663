"""Two bodies at poses reached in different ways."""
import math

import numpy as np
from hypothesis import strategies as st

from . import geom, scenes
from .scenes import np_, one_in, sym, u


@st.composite
def pose_of(draw, far=200.0):
    return [draw(scenes.angle()), draw(sym(far)), draw(sym(far))]


@st.composite
def target(draw, eps):
    """Wanted gap of the two bodies, concentrated around the thresholds."""
    k = draw(st.integers(0, 9))
    if k == 0:
        return eps * (1 + draw(st.sampled_from([-1e-2, 1e-2, -1e-4, 1e-4, -1e-6, 1e-6])))
    if k == 1:
        return draw(st.sampled_from([0.0, 1e-7, -1e-7, -1e-6, -1e-4, 1e-4]))
    if k == 2:
        return draw(u(-10.0, -1.0))
    if k == 3:
        return draw(u(-60.0, 0.0))
    if k == 4:
        return draw(u(eps, 3 * eps + 2))
    if k <= 6:
        return draw(u(-1.0, 0.0))
    return draw(u(0.0, eps))


def settle(sh1, p1, sh2, a2, ang, gap):
    """Pose of the second body along direction ang with the wanted signed gap; None if the
    gap is not reached on that ray."""
    w1 = geom.shape_at(sh1, p1)
    c = np.array(p1[1:], float)
    d = np.array([math.cos(ang), math.sin(ang)])

    def g(r):
        q = c + r * d
        return geom.signed_gap(w1, geom.shape_at(sh2, [a2, q[0], q[1]])) - gap
    hi = geom.radius(sh1) + geom.radius(sh2) + max(0.0, gap) + 1.0
    lo = 0.0
    if g(hi) < 0:
        return None
    if g(lo) > 0:
        q = c
        return [a2, float(q[0]), float(q[1])]
    for _ in range(80):
        mid = (lo + hi) / 2
        if g(mid) < 0:
            lo = mid
        else:
            hi = mid
    q = c + hi * d
    return [a2, float(q[0]), float(q[1])]


@st.composite
def pair(draw, kinds1, kinds2, smin=1.0, smax=30.0, align=False):
    eps = draw(st.sampled_from([0.1, 0.1, 0.02, 0.5]))
    b1 = draw(scenes.body(kinds1, smin, smax))
    b2 = draw(scenes.body(kinds2, smin, smax))
    d = dict(b=[b1, b2], eps=eps, p1=draw(pose_of()), a2=draw(scenes.angle()),
             ang=draw(st.one_of(sym(math.pi), st.sampled_from([0.0, math.pi / 2, math.pi,
                                                                -math.pi / 2]))),
             gap=draw(target(eps)), swap=draw(st.booleans()), shift=draw(sym(30.0)),
             shifted=draw(one_in(2)))
    if align:
        # turn the second body so that two edges are exactly parallel
        d['align'] = [draw(st.integers(0, 6)), draw(st.integers(0, 6))] \
            if draw(st.booleans()) else None
    d['route'] = draw(st.lists(st.sampled_from(['set', 'move', 'det', 'near']), max_size=4))
    d['via'] = [draw(pose_of(40.0)) for _ in range(len(d['route']) + 1)]
    d['onedge'] = draw(one_in(12))
    d['bystander'] = draw(one_in(4))
    return d


def poses(d):
    """Final poses of the two bodies, or None."""
    sh = [scenes.local_shape(b)[0] for b in d['b']]
    p1 = list(d['p1'])
    a2 = d['a2']
    ang = d['ang']
    if d.get('align') and sh[0][0] == 'p' and sh[1][0] == 'p':
        n1 = geom.edge_normals(geom.shape_at(sh[0], p1)[1])
        n2 = geom.edge_normals(sh[1][1])
        i, j = d['align'][0] % len(n1), d['align'][1] % len(n2)
        a2 = math.atan2(-n1[i][1], -n1[i][0]) - math.atan2(n2[j][1], n2[j][0])
        ang = math.atan2(n1[i][1], n1[i][0]) + (d['ang'] if d['shifted'] else 0.0) / 8
    gap = d['gap']
    if d['onedge'] and sh[0][0] != sh[1][0]:
        # centre of the circle on the boundary of the hull
        gap = -(sh[0] if sh[0][0] == 'c' else sh[1])[1]
    p2 = settle(sh[0], p1, sh[1], a2, ang, gap)
    return None if p2 is None else (p1, p2)


def fresh_pose(b, p):
    """Pose with which the body can be constructed so that nothing needs to be turned."""
    return p


def make_world(d, ps, detect=True, **kw):
    """World whose bodies are at the wanted poses after the drawn route; returns
    (world, objs)."""
    import torch
    from lcp_physics.physics.world import World
    objs = []
    for b, p, via in zip(d['b'], ps, (d['via'][0], d['via'][-1])):
        # hulls start unturned, wherever; circles and rectangles may start right there
        direct = not d['route'] and b['k'] != 'h'
        start = list(p) if direct else [via[0]] + [300.0 * (len(objs) + 1) + via[1], via[2]]
        objs.append(scenes.make_body(dict(b, off=b.get('off', [0.0, 0.0])), start, d['eps']))
    order = [1, 0] if d['swap'] else [0, 1]
    world_bodies = [objs[o] for o in order]
    if d['bystander']:
        world_bodies.append(scenes.make_body(dict(k='c', r=1.0, m=1.0, e=0.0, mu=0.0,
                                                  v=[0.0, 0.0, 0.0]), [0, 5000.0, 0], d['eps']))
    w = World(world_bodies, [], eps=d['eps'], strict_no_penetration=False, **kw)

    def put(o, p):
        o.set_p(torch.tensor([float(x) for x in p], dtype=torch.float64))
    for kind, via in zip(d['route'], d['via']):
        if kind == 'set':
            put(objs[0], via)
        elif kind == 'near':
            # close to the final configuration, so that the search starts elsewhere
            put(objs[0], ps[0])
            put(objs[1], [ps[1][0] + via[0], ps[1][1] + via[1] / 20, ps[1][2] + via[2] / 20])
        elif kind == 'move':
            o = objs[1]
            dt = 0.25
            o.v = (torch.tensor([float(x) for x in via]) - o.p) / dt
            o.move(dt)
        w.find_contacts()
    for o, p in zip(objs, ps):
        put(o, p)
    w.find_contacts()
    return w, objs


def read(w, objs, index):
    """Contacts as (normal from second to first, world points, penetration) with first and
    second given by index into objs."""
    out = []
    for (nrm, p1, p2, pen), i, j in w.contacts:
        b1, b2 = w.bodies[int(i)], w.bodies[int(j)]
        if b1 is objs[index[0]] and b2 is objs[index[1]]:
            s, q1, q2 = 1, p1, p2
        elif b2 is objs[index[0]] and b1 is objs[index[1]]:
            s, q1, q2 = -1, p2, p1
        else:
            raise AssertionError('contact with the bystander far away')
        out.append((s * np_(nrm), np_(q1) + np_(objs[index[0]].pos),
                    np_(q2) + np_(objs[index[1]].pos), float(pen)))
    return out


def against(shapes, poses, sh, spec):
    """Pose next to what is placed, gap as wanted along the ray."""
    a, to, ang, gap = spec
    c = np.array(poses[to][1:])
    d = np.array([math.cos(ang), math.sin(ang)])
    ws = geom.shape_at(shapes[to], poses[to])
    lo, hi = 0.0, geom.radius(sh) + geom.radius(shapes[to]) + max(gap, 0) + 1
    for _ in range(60):
        mid = (lo + hi) / 2
        q = c + mid * d
        if geom.signed_gap(ws, geom.shape_at(sh, [a, q[0], q[1]])) < gap:
            lo = mid
        else:
            hi = mid
    q = c + hi * d
    return [a, float(q[0]), float(q[1])]
