"""C13 mass properties and placement."""
import numpy as np
from hypothesis import strategies as st

from . import geom, scenes
from .core import OutOfDomain, require
from .scenes import np_, one_in, sym, u

COUNT = dict(quick=4800, thorough=120000)
RULE = ('Circles, rectangles and convex hulls of any size (1e-2 .. 1e3), pose, mass; vertex lists '
        'with any starting vertex, offset from their reference point by up to 50 times their size; arguments '
        'as lists, tuples or tensors; poses with 2 or 3 entries. Reference: decomposition into '
        'triangles in numpy. For hulls also compared with the same hull from another starting '
        'vertex and reference point, in a world, and after a step. Non-trivial: a hull, or a '
        'turned rectangle.')
ASSUMPTIONS = ['polygons are convex, without nearly flat corners or tiny edges']


@st.composite
def _case(draw):
    s = draw(scenes.lu(0.02, 500.0))
    k = draw(st.sampled_from('crhhh'))
    d = dict(k=k, m=draw(scenes.lu(1e-3, 1e4)), v=[draw(sym(5.0)) for _ in range(3)],
             pos=[draw(scenes.angle()), draw(sym(1000.0)), draw(sym(1000.0))],
             form=draw(st.sampled_from(['list', 'tensor', 'tuple'])), two=draw(one_in(3)),
             twov=draw(one_in(4)), kw=[draw(u(0.0, 1.0)), draw(u(0.0, 2.0))])
    if k == 'c':
        d['r'] = s
    elif k == 'r':
        d['d'] = [s, s * draw(scenes.lu(0.05, 20.0))]
    else:
        d['vs'] = draw(scenes.polygon(s, s))
        d['off'] = [draw(sym(50.0)) * s, draw(sym(50.0)) * s] if draw(one_in(2)) else [0.0, 0.0]
        d['first'] = draw(st.integers(1, 6))
    return d


def strategy(tier):
    return _case()


def triangles(vs):
    """Area, centroid and second moment per mass about it, from a fan of triangles."""
    vs = np.asarray(vs, float)
    o = vs.mean(0)
    A, c, I = 0.0, np.zeros(2), 0.0
    for i in range(len(vs)):
        a, b = vs[i] - o, vs[(i + 1) % len(vs)] - o
        t = (a[0] * b[1] - a[1] * b[0]) / 2
        A += t
        c += t * (a + b) / 3
        # mean of |x|^2 over the triangle (0, a, b): (a.a + b.b + a.b) / 6
        I += t * (a @ a + b @ b + a @ b) / 6
    c /= A
    return A, o + c, I / A - c @ c


def wrap(x, form):
    import torch
    if form == 'tensor':
        return torch.tensor(x, dtype=torch.float64)
    if form == 'tuple' and isinstance(x, list):
        return tuple(tuple(y) if isinstance(y, list) else y for y in x)
    return x


def make(d, vs=None, ref=None):
    from lcp_physics.physics.bodies import Circle, Hull, Rect
    f = d['form']
    kw = dict(vel=wrap(d['v'][1:] if d['twov'] else d['v'], f), mass=wrap(d['m'], f),
              restitution=wrap(d['kw'][0], f), fric_coeff=wrap(d['kw'][1], f))
    pos = d['pos'][1:] if d['two'] else d['pos']
    if d['k'] == 'c':
        return Circle(wrap(pos, f), wrap(d['r'], f), **kw)
    if d['k'] == 'r':
        return Rect(wrap(pos, f), wrap(d['d'], f), **kw)
    vs = [wrap([float(x) for x in v], f) for v in vs]
    ref = wrap([float(x) for x in ref], f)
    b = Hull(ref, vs, **kw)
    # the same arguments again give the same body in the same place
    b2 = Hull(ref, vs, **kw)
    require(all(np.array_equal(np_(x), np_(y)) for x, y in zip([b.p, b.M] + b.verts, [b2.p, b2.M] + b2.verts)),
            'a second hull of the same arguments is at %s with vertices %s instead of %s, %s',
            np_(b2.p).tolist(), [np_(x).tolist() for x in b2.verts], np_(b.p).tolist(),
            [np_(x).tolist() for x in b.verts])
    return b


def judge(d, b, name, cen, I, V, size, far):
    m = d['m']
    p = np_(b.p)
    require(p.shape == (3,), '%s: pose has shape %s', name, p.shape)
    rtol = 1e-8
    require(np.abs(np_(b.pos) - cen).max() < 1e-9 * size + 1e-12 * far,
            '%s: position %s is not the centroid %s', name, np_(b.pos).tolist(), cen.tolist())
    require(np.array_equal(p[1:], np_(b.pos)) and p[0] == float(b.rot),
            '%s: pose, position and rotation disagree', name)
    M = np_(b.M)
    want = np.diag([m * I, m, m])
    require(M.shape == (3, 3) and np.all(np.abs(M - want) <= rtol * np.abs(want) + 0),
            '%s: mass matrix %s instead of diag(%.12g, %.12g, %.12g)', name, M.tolist(), m * I,
            m, m)
    require(float(b.mass) == m, '%s: mass %s', name, float(b.mass))
    require(abs(float(b.ang_inertia) - m * I) <= rtol * m * I,
            '%s: moment of inertia %.12g instead of %.12g', name, float(b.ang_inertia), m * I)
    v = [0.0] + d['v'][1:] if d['twov'] else d['v']
    require(np.allclose(np_(b.v), v, rtol=0, atol=0), '%s: velocity %s', name, np_(b.v))
    require(float(b.restitution) == d['kw'][0] and float(b.fric_coeff) == d['kw'][1],
            '%s: restitution %s, friction %s', name, float(b.restitution), float(b.fric_coeff))
    if V is not None:
        got = np.array([np_(x) for x in b.verts]) + np_(b.pos)
        require(got.shape == V.shape and np.abs(got - V).max() < 1e-9 * size + 1e-12 * far,
                '%s: vertices are at %s instead of %s', name, got.tolist(), V.tolist())


def check(d, ctx):
    from lcp_physics.physics.world import World
    far = 1.0 + np.abs(np.array(d['pos'][1:])).max()
    pos = np.array(d['pos'][1:])
    a = 0.0 if d['two'] else d['pos'][0]
    ctx.label(d['k'] + '-' + d['form'])
    if d['k'] == 'c':
        b = make(d)
        judge(d, b, 'circle', pos, d['r'] ** 2 / 2, None, d['r'], far)
        require(float(b.rad) == d['r'] and float(b.rot) == a, 'circle: radius %s, angle %s',
                float(b.rad), float(b.rot))
        return
    if d['k'] == 'r':
        w, h = np.array(d['d']) / 2
        V = np.array([[w, h], [-w, h], [-w, -h], [w, -h]]) @ geom.rot(a).T + pos
        _, cen, I = triangles(V - pos)
        b = make(d)
        require(abs(float(b.rot) - a) == 0, 'rectangle: angle %s', float(b.rot))
        # as a set of corners, in the orientation of the world
        got = np.array([np_(x) for x in b.verts]) + np_(b.pos)
        require(got.shape == (4, 2), 'rectangle: %d vertices', len(got))
        s = np.argmin(np.abs(V - got[0]).sum(1))
        judge(d, b, 'rectangle', pos, I, np.roll(V, -s, axis=0), w + h, far)
        ctx.nt(a != 0)
        return
    vs = np.array(d['vs'])
    if not scenes.good_polygon(d['vs']):
        raise OutOfDomain('degenerate polygon')
    off = np.array(d['off'])
    far += np.abs(off).max()
    size = np.abs(vs).max()
    given = vs + off
    given = np.array([[float(x) for x in v] for v in given])
    _, cen, I = triangles(given)
    ref = pos - off
    b = make(d, given, ref)
    judge(d, b, 'hull', ref + cen, I, given + ref, size, far)
    require(float(b.rot) == 0, 'hull: angle %s', float(b.rot))
    s = d['first'] % len(vs)
    b2 = make(d, np.roll(given, -s, axis=0), ref)
    judge(d, b2, 'hull from vertex %d' % s, ref + cen, I, np.roll(given, -s, axis=0) + ref, size,
          far)
    b3 = make(d, vs, pos)
    judge(d, b3, 'hull with reference moved', pos + cen - off, I, vs + pos, size, far)
    # the world takes over exactly these masses
    w = World([b, make(dict(d, k='c', r=1.0, two=True, pos=[0, 9e4, 9e4], form='list'))], [])
    require(np.array_equal(np_(w.M())[:3, :3], np_(b.M)), 'mass matrix of the world differs')
    ctx.nt()
