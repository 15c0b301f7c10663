"""Generators of scenes (plain JSON data) and their translation into lcp_physics objects plus
an independent numpy model of the same bodies."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from . import geom

RES = 1 << 20


def spread(k):
    """Bit-reversed fraction of k.  Hypothesis draws integers log-evenly, most of them tiny; their
    reversals are spread evenly over [0, 1], and small k give round fractions."""
    return 1.0 if k >= RES else int(format(k, '020b')[::-1], 2) / RES


def u(lo, hi):
    """Evenly spread float in [lo, hi], shrinking to lo."""
    return st.integers(0, RES).map(lambda k: lo + (hi - lo) * spread(k))


def sym(a):
    """Evenly spread float in [-a, a], shrinking to 0."""
    return st.integers(-RES, RES).map(lambda k: math.copysign(a * spread(abs(k)), k) if k else 0.0)


def lu(lo, hi):
    """Log-evenly spread float in [lo, hi]."""
    return u(math.log(lo), math.log(hi)).map(lambda x: float('%.9g' % math.exp(x)))


def angle():
    return st.one_of(sym(math.pi), st.sampled_from([0.0, math.pi / 2, -math.pi / 4, 2.5 * math.pi,
                                                   -5.0]))


def one_in(n):
    return st.integers(0, n - 1).map(lambda k: k == n - 1)


@st.composite
def polygon(draw, smin=4.0, smax=30.0, nmax=7):
    """Convex polygon, counter-clockwise, no short edges or flat corners: points on an ellipse
    (any triangle, any trapezoid, elongated and regular shapes), optionally skewed."""
    kind = draw(st.integers(0, 5))
    a = draw(u(smin, smax))
    b = a * draw(u(0.35, 1.0))
    if kind == 0:
        w, h, t1, t2 = a, b, draw(u(0.2, 1.0)), draw(sym(0.4))
        vs = [[-w, -h], [w, -h], [w * (t1 + t2), h], [w * (t2 - t1), h]]
    elif kind == 1:
        vs = [[0.0, 0.0], [2 * a, 0.0], [draw(sym(1.0)) * 2 * a, 2 * b]]
    else:
        n = draw(st.integers(3, nmax))
        gaps = [draw(u(0.25, 1.0)) for _ in range(n)]
        span = 2 * math.pi if kind < 5 or n < 4 else 3.6
        tot = sum(gaps) if span > 4 else sum(gaps[:-1])
        t, vs = 0.0, []
        for g in gaps:
            vs.append([a * math.cos(t), b * math.sin(t)])
            t += g * span / tot
    r = geom.rot(draw(angle()))
    vs = np.array(vs) @ r.T
    s = draw(st.integers(0, len(vs) - 1))
    vs = np.roll(vs, s, axis=0)
    return [[float('%.9g' % x) for x in v] for v in vs]


def good_polygon(vs):
    vs = np.array(vs)
    e = np.roll(vs, -1, axis=0) - vs
    ln = np.linalg.norm(e, axis=1)
    turn = geom.cross(e, np.roll(e, -1, axis=0)) / (ln * np.roll(ln, -1))
    return bool(geom.area(vs) > 0 and ln.min() > 0.05 * ln.max() and turn.min() > 0.02)


@st.composite
def body(draw, kinds='crh', smin=4.0, smax=30.0, mass=(0.1, 30.0), vlin=40.0, vang=1.0,
         e=None, mu=None):
    k = draw(st.sampled_from(list(kinds)))
    b = dict(k=k)
    if k == 'c':
        b['r'] = draw(u(smin, smax))
        b['a'] = draw(angle())
    elif k == 'r':
        b['d'] = [2 * draw(u(smin, smax)), 2 * draw(u(smin, smax))]
        b['a'] = draw(angle())
    else:
        b['vs'] = draw(polygon(smin, smax))
        b['off'] = [draw(sym(20.0)), draw(sym(20.0))]
    b['m'] = draw(lu(*mass))
    b['e'] = draw(st.one_of(u(0.0, 1.0), st.sampled_from([0.0, 1.0, 0.5]))) if e is None else e
    b['mu'] = draw(st.one_of(u(0.0, 1.2), st.sampled_from([0.0, 0.9]))) if mu is None else mu
    b['v'] = [draw(sym(vang)), draw(sym(vlin)), draw(sym(vlin))]
    return b


def local_shape(b):
    """Local shape and the initial rotation coordinate of the body."""
    if b['k'] == 'c':
        return ('c', b['r']), b.get('a', 0.0)
    if b['k'] == 'r':
        w, h = b['d'][0] / 2, b['d'][1] / 2
        return ('p', np.array([[w, h], [-w, h], [-w, -h], [w, -h]])), b.get('a', 0.0)
    vs = np.array(b['vs'], float)
    return ('p', vs - geom.centroid(vs)), 0.0


def inertia(b):
    if b['k'] == 'c':
        return b['m'] * b['r'] ** 2 / 2
    if b['k'] == 'r':
        return b['m'] * (b['d'][0] ** 2 + b['d'][1] ** 2) / 12
    return b['m'] * geom.inertia_per_mass(np.array(b['vs'], float))


def place(bodies):
    """Poses: bodies with 'at' are put there, bodies with 'att' are moved from far away
    towards body 'to' along direction 'ang' until the gap to everything placed is 'gap'."""
    poses, shapes = [], []
    for b in bodies:
        sh, a0 = local_shape(b)
        if not ('att' in b or 'tie' in b) or not poses:
            at = b.get('at', [0.0, 0.0])
            pose = [a0, at[0], at[1]]
        elif 'tie' in b and shapes[0][0] == sh[0] == 'p':
            # nearly equally separated by two neighbouring edges of the first body
            t = b['tie']
            A, B = geom.shape_at(shapes[0], poses[0])[1], geom.shape_at(sh, [a0, 0.0, 0.0])[1]
            nr, m = geom.edge_normals(A), len(A)
            k = t['k'] % m
            ks = [k, (k + 1) % m]
            c = [((B - A[i]) @ nr[i]).min() for i in ks]
            pos = np.linalg.solve(nr[ks], [t['s'] - c[0], t['s'] - t['d'] - c[1]])
            pose = [a0, float(pos[0]), float(pos[1])]
        else:
            t = b['att']
            j = t['to'] % len(poses)
            d = np.array([math.cos(t['ang']), math.sin(t['ang'])])
            far = max(np.linalg.norm(np.array(q[1:]) - np.array(poses[j][1:])) + geom.radius(s)
                      for q, s in zip(poses, shapes)) + 2 * geom.radius(sh) + 10
            pos = np.array(poses[j][1:]) + d * far
            for _ in range(200):
                ws = geom.shape_at(sh, [a0, pos[0], pos[1]])
                g = min(geom.signed_gap(ws, geom.shape_at(s, q))
                        for q, s in zip(poses, shapes)) - t['gap']
                if g < 1e-9:
                    break
                pos = pos - d * g
            pose = [a0, float(pos[0]), float(pos[1])]
        poses.append(pose)
        shapes.append(sh)
    return poses


class Model:
    """Independent model of the bodies of a world, in world order."""

    def __init__(self, specs, poses, order):
        self.specs = [specs[i] for i in order]
        self.poses0 = [poses[i] for i in order]
        self.index = {o: i for i, o in enumerate(order)}
        self.shapes = [local_shape(s)[0] for s in self.specs]
        self.n = len(self.specs)
        m = []
        for s in self.specs:
            m += [inertia(s), s['m'], s['m']]
        self.m = np.array(m)

    def world_shapes(self, p):
        return [geom.shape_at(s, p[3 * i:3 * i + 3]) for i, s in enumerate(self.shapes)]

    def force(self, t):
        out = np.zeros(3 * self.n)
        for i, s in enumerate(self.specs):
            for f in s.get('forces', []):
                out[3 * i:3 * i + 3] += force_value(f, s['m'], t)
        return out


def force_value(f, m, t):
    if f['t'] == 'g':
        return np.array([0.0, 0.0, f['g'] * m])
    return np.array(f['f']) * f['mult'] * time_factor(f, t)


def time_factor(f, t):
    return 1.0 + f.get('amp', 0.0) * math.cos(f.get('w', 0.0) * t)


def np_(t):
    return t.detach().cpu().numpy().astype(float).copy()


def make_force(f):
    import torch
    from lcp_physics.physics.forces import ExternalForce, Gravity
    if f['t'] == 'g':
        return Gravity(f['g'])
    vec = torch.tensor(f['f'], dtype=torch.float64)
    return ExternalForce(lambda t: vec * time_factor(f, t), multiplier=f['mult'])


def make_body(b, pose, eps=0.1):
    from lcp_physics.physics.bodies import Circle, Hull, Rect
    kw = dict(vel=list(b['v']), mass=b['m'], restitution=b['e'], fric_coeff=b['mu'], eps=eps)
    if b['k'] == 'c':
        return Circle(list(pose), b['r'], **kw)
    if b['k'] == 'r':
        return Rect(list(pose), list(b['d']), **kw)
    vs = np.array(b['vs'], float)
    off = np.array(b.get('off', [0.0, 0.0]))
    c = geom.centroid(vs)
    # vertices are given in a frame whose origin ref is somewhere else than the centroid
    ref = np.array(pose[1:]) - c - off
    return Hull(ref.tolist(), (vs + off).tolist(), **kw)


def make_constraint(c, bodies, poses):
    from lcp_physics.physics import constraints as C
    t = c['t']
    a = bodies[c['a']]
    if t == 'joint':
        b = None if c.get('b') is None else bodies[c['b']]
        return C.Joint(a, b, joint_anchor(c, poses))
    if t == 'fixed':
        return C.FixedJoint(a, bodies[c['b']])
    cls = dict(x=C.XConstraint, y=C.YConstraint, rot=C.RotConstraint, total=C.TotalConstraint)
    return cls[t](a)


def joint_anchor(c, poses):
    pa = np.array(poses[c['a']][1:])
    if c.get('b') is not None:
        pb = np.array(poses[c['b']][1:])
        base = pa + (pb - pa) * c.get('f', 0.5)
    else:
        base = pa
    return (base + np.array(c.get('off', [0.0, 0.0]))).tolist()


def project_velocities(sc, poses, order):
    """Minimum-norm change of the initial velocities so that they satisfy the constraints."""
    n = len(sc['bodies'])
    rows = []
    for c in sc.get('cons', []):
        rows += constraint_rows(c, c['a'], c.get('b'), poses, n)
    if not rows:
        return
    J = np.array(rows)
    v = np.concatenate([b['v'] for b in sc['bodies']])
    v = v - np.linalg.pinv(J) @ (J @ v)
    v[np.abs(v) < 1e-12] = 0
    for i, b in enumerate(sc['bodies']):
        b['v'] = v[3 * i:3 * i + 3].tolist()


def constraint_rows(c, a, b, poses, n, anchor=None):
    """Rows of the velocity constraint of c for bodies a, b at the given poses."""
    rows = []

    def row(i, vec, j=None, vec2=None):
        r = np.zeros(3 * n)
        r[3 * i:3 * i + 3] = vec
        if j is not None:
            r[3 * j:3 * j + 3] = vec2
        rows.append(r)
    t = c['t']
    if t == 'x':
        row(a, [0, 1, 0])
    elif t == 'y':
        row(a, [0, 0, 1])
    elif t == 'rot':
        row(a, [1, 0, 0])
    elif t == 'total':
        for k in range(3):
            row(a, np.eye(3)[k])
    else:
        pa = np.array(poses[a][1:])
        if t == 'fixed':
            P = pa
        else:
            P = np.array(joint_anchor(c, poses)) if anchor is None else np.array(anchor)
        ra = P - pa
        if b is None:
            row(a, [-ra[1], 1, 0])
            row(a, [ra[0], 0, 1])
        else:
            rb = P - np.array(poses[b][1:])
            row(a, [-ra[1], 1, 0], b, [rb[1], -1, 0])
            row(a, [ra[0], 0, 1], b, [-rb[0], 0, -1])
            if t == 'fixed':
                row(a, [1, 0, 0], b, [-1, 0, 0])
    return rows


class Stuck(Exception):
    """More than 100 detections in one step: its length went to zero."""


def must_touch(a, b, eps):
    """Are these world shapes so close that they must have a contact?  (Not hulls that are
    beside each other's edges.)"""
    from .c12 import manifold
    if 'c' in (a[0], b[0]):
        return geom.signed_gap(a, b) < eps - 1e-6
    sa, sb = geom.sat_each(a[1], b[1])[0], geom.sat_each(b[1], a[1])[0]
    sep = max(sa.max(), sb.max())
    return sep < eps - 1e-6 and all(
        manifold(r, o, k, eps)[2] for r, o, s in ((a[1], b[1], sa), (b[1], a[1], sb))
        for k in np.flatnonzero(s > sep - 1e-6))


class Sim:
    """A world built from a scene together with its model."""

    def __init__(self, sc, **over):
        from lcp_physics.physics.world import World
        sc = copy.deepcopy(sc)
        poses = place(sc['bodies'])
        n = len(poses)
        order = sc.get('order') or list(range(n))
        order = [o for o in order if o < n]
        order += [i for i in range(n) if i not in order]
        if sc.get('proj', True):
            project_velocities(sc, poses, order)
        self.sc, self.poses, self.order = sc, poses, order
        eps = sc.get('eps', 0.1)
        objs = [make_body(b, p, eps) for b, p in zip(sc['bodies'], poses)]
        for b, o in zip(sc['bodies'], objs):
            for f in b.get('forces', []):
                o.add_force(make_force(f))
        self.cons_objs = [make_constraint(c, objs, poses) for c in sc.get('cons', [])]
        self.nocontact = set()
        for i, j in sc.get('nc', []):
            if i < n and j < n and i != j:
                objs[i].add_no_contact(objs[j])
                self.nocontact.add((i, j))
        for c in sc.get('cons', []):
            if c.get('b') is not None:
                objs[c['a']].add_no_contact(objs[c['b']])
                self.nocontact.add((c['a'], c['b']))
        self.objs = objs
        self.model = Model(sc['bodies'], poses, order)
        ix = self.model.index
        self.excluded = {frozenset((ix[i], ix[j])) for i, j in self.nocontact}
        kw = dict(dt=sc.get('dt', 1.0 / 30), eps=eps, tol=sc.get('tol', 1e-6),
                  post_stab=sc.get('ps', False), strict_no_penetration=sc.get('strict', True))
        kw.update(over)
        self.world = World([objs[o] for o in order], self.cons_objs, **kw)
        self.dt = kw['dt']
        # constraints in world indices, with body-fixed anchors
        self.cons = []
        for c, o in zip(sc.get('cons', []), self.cons_objs):
            d = dict(t=c['t'], a=ix[c['a']], b=None if c.get('b') is None else ix[c['b']], obj=o)
            if c['t'] == 'joint':
                d['P0'] = np.array(joint_anchor(c, poses))
            self.cons.append(d)

    def step(self, **kw):
        """world.step that gives up when the step is cut into nothing."""
        w = self.world
        orig, n = w.find_contacts, [0]

        def counted(*a, **k):
            n[0] += 1
            if n[0] > 100:
                raise Stuck()
            return orig(*a, **k)
        w.find_contacts = counted
        try:
            w.step(**kw)
        finally:
            del w.find_contacts

    # observations -------------------------------------------------------------------
    def p(self):
        return np.concatenate([np_(b.p) for b in self.world.bodies])

    def v(self):
        return np.concatenate([np_(b.v) for b in self.world.bodies])

    def contacts(self):
        out = []
        for c in self.world.contacts:
            (nrm, p1, p2, pen), i, j = c
            out.append((np_(nrm), np_(p1), np_(p2), float(pen), int(i), int(j)))
        return out

    def anchors(self):
        return [np_(c['obj'].pos) if c['t'] == 'joint' else None for c in self.cons]

    def Je(self, p=None, anchors=None):
        p = self.p() if p is None else p
        anchors = self.anchors() if anchors is None else anchors
        poses = [p[3 * i:3 * i + 3] for i in range(self.model.n)]
        rows = []
        for c, P in zip(self.cons, anchors):
            rows += constraint_rows(c, c['a'], c['b'], poses, self.model.n, P)
        return np.array(rows).reshape(-1, 3 * self.model.n)

    def pairs(self):
        n = self.model.n
        for i in range(n):
            for j in range(i + 1, n):
                if frozenset((i, j)) not in self.excluded:
                    yield i, j

    def max_depth(self, p=None):
        ws = self.model.world_shapes(self.p() if p is None else p)
        best, who = -np.inf, None
        for i, j in self.pairs():
            d = geom.depth(ws[i], ws[j])
            if d > best:
                best, who = d, (i, j)
        return best, who


    def undetected(self):
        """A pair within contact distance that is not among the contacts, if any (hulls beside
        each other's edges may be)."""
        ws = self.model.world_shapes(self.p())
        eps = self.sc.get('eps', 0.1)
        found = {frozenset(c[4:]) for c in self.contacts()}
        far = [(s[1] if s[0] == 'c' else s[1].mean(0)) for s in ws]
        rad = [s[2] if s[0] == 'c' else np.linalg.norm(s[1] - c, axis=1).max()
               for s, c in zip(ws, far)]
        for i, j in self.pairs():
            if frozenset((i, j)) in found or \
                    np.linalg.norm(far[i] - far[j]) > rad[i] + rad[j] + eps:
                continue
            if must_touch(ws[i], ws[j], eps):
                return i, j
        return None


def contact_rows(contacts, n):
    Jn = np.zeros((len(contacts), 3 * n))
    Jt = np.zeros((len(contacts), 3 * n))
    for k, (nr, p1, p2, pen, i, j) in enumerate(contacts):
        t = np.array([-nr[1], nr[0]])
        for J, d in ((Jn, nr), (Jt, t)):
            J[k, 3 * i:3 * i + 3] = [geom.cross(p1, d), d[0], d[1]]
            J[k, 3 * j:3 * j + 3] = [-geom.cross(p2, d), -d[0], -d[1]]
    return Jn, Jt


# whole scenes ---------------------------------------------------------------------------

@st.composite
def gravity_or_force(draw, gmax=100.0):
    if draw(st.booleans()):
        return dict(t='g', g=draw(u(0.0, gmax)))
    f = dict(t='e', f=[draw(sym(5.0)), draw(sym(1.0)), draw(sym(1.0))], mult=draw(u(0.0, 100.0)))
    if draw(st.booleans()):
        f['amp'], f['w'] = draw(sym(1.0)), draw(u(0.0, 20.0))
    return f


@st.composite
def scene(draw, kinds='crh', nmin=2, nmax=5, smin=4.0, smax=30.0, mass=(0.1, 30.0), vlin=40.0,
          vang=1.0, e=None, mu=None, forces=True, floor=None, pins=True, joints=True,
          gapmax=0.099, farmax=6.0, dts=(1 / 30, 1 / 60, 0.02, 0.05), eps=(0.1,), crowd=0,
          over=False):
    n = draw(st.integers(nmin, nmax))
    crowd = bool(crowd) and draw(one_in(crowd))
    if crowd:
        # many bodies in touching pairs far from each other: a large but easy contact problem
        n = draw(st.sampled_from([2, 4, 6]))
        copies = draw(st.integers(8 // n, 32 // n))
        joints = False
    if floor is None:
        floor = draw(st.booleans())
    bodies = []
    eps_ = draw(st.sampled_from(list(eps)))
    # tolerated overlap at the start
    tol = draw(st.sampled_from([None, None, 1e-3, 0.02])) if over else None
    if e == 'uniform':
        e = draw(st.one_of(u(0.0, 1.0), st.sampled_from([0.0, 1.0])))
    uniform_g = draw(st.booleans())
    g = draw(u(5.0, 100.0))
    cons = []
    if floor:
        b = dict(k='r', d=[2 * draw(u(60.0, 200.0)), 2 * draw(u(5.0, 30.0))], a=draw(st.one_of(
            st.just(0.0), sym(0.5))), m=draw(lu(*mass)), e=0.0, mu=0.0, v=[0.0, 0.0, 0.0])
        b['e'] = draw(u(0.0, 1.0)) if e is None else e
        b['mu'] = draw(u(0.0, 1.2)) if mu is None else mu
        bodies.append(b)
        cons.append(dict(t='total', a=0))
    for i in range(n):
        b = draw(body(kinds, smin, smax, mass, vlin, vang, e, mu))
        if crowd and i % 2 == 0:
            b['at'] = [400.0 * (i // 2 % 4 + 1), 400.0 * (i // 8) + 600.0]
        elif bodies:
            near = draw(st.integers(0, 3)) > 0
            ang = draw(u(-math.pi, 0.0)) if floor else draw(sym(math.pi))
            b['att'] = dict(to=len(bodies) - 1 if crowd else draw(st.integers(0, len(bodies) - 1)),
                            ang=ang,
                            gap=-tol * draw(u(0.0, 0.9)) if tol and near and draw(st.booleans())
                            else draw(u(0.0, gapmax * eps_ / 0.1)) if near
                            else draw(u(0.0, farmax)))
            if draw(st.integers(0, 2)) > 0:
                # towards what it was placed against
                s = vlin * draw(st.one_of(u(0.0, 0.1), u(0.02, 1.0)))
                w = bodies[b['att']['to']]['v'][1:]
                b['v'][1:] = [w[0] + 0.5 * b['v'][1] - s * math.cos(ang),
                              w[1] + 0.5 * b['v'][2] - s * math.sin(ang)]
        b['forces'] = []
        if forces:
            if uniform_g and floor:
                b['forces'].append(dict(t='g', g=g))
            if draw(st.integers(0, 2)) == 0:
                b['forces'].append(draw(gravity_or_force()))
        bodies.append(b)
    slow = draw(st.one_of(st.just(1.0), st.just(1.0), st.just(1.0), lu(1e-2, 1.0)))
    for b in bodies:
        b['v'] = [x * slow for x in b['v']]
    first = 1 if floor else 0
    if crowd:
        for k in range(1, copies):
            for i, b in enumerate(bodies[first:first + n]):
                b = copy.deepcopy(b)
                if 'at' in b:
                    b['at'] = [b['at'][0] - 1200.0 * (k % 4), b['at'][1] + 600.0 * (k // 4)]
                else:
                    b['att']['to'] += n * k
                b['v'] = [x * (1 - 0.02 * k) for x in b['v']]
                b['m'] *= 1 + 0.01 * k
                bodies.append(b)
    comp = {}
    if joints and n > 1 and draw(st.booleans()):
        # joints along a forest over the free bodies
        for i in range(first + 1, len(bodies)):
            if draw(st.integers(0, 2)) > 0:
                continue
            j = draw(st.integers(first, i - 1))
            cons.append(draw(joint(i, j)))
            comp[i] = comp.get(j, j)
    if pins and draw(st.booleans()):
        pinned = set()
        for i in range(first, len(bodies)):
            root = comp.get(i, i)
            if root in pinned or draw(st.integers(0, 2)) > 0:
                continue
            pinned.add(root)
            what = draw(st.sampled_from(['joint', 'x', 'y', 'rot', 'xy', 'total']))
            if what == 'joint':
                cons.append(dict(t='joint', a=i, b=None, off=[draw(sym(20.0)), draw(sym(20.0))]))
            elif what == 'xy':
                cons += [dict(t='x', a=i), dict(t='y', a=i)]
            else:
                cons.append(dict(t=what, a=i))
    if len(cons) > 1 and draw(st.booleans()):
        cons = cons[::-1]
    # a body cannot be both pinned in place and be pushed somewhere: order of bodies is free
    order = draw(st.permutations(list(range(len(bodies)))))
    d = dict(bodies=bodies, cons=cons, order=list(order), eps=eps_,
             dt=draw(st.sampled_from(list(dts))))
    if tol:
        d['tol'] = tol
    return d


@st.composite
def joint(draw, i, j):
    if draw(st.integers(0, 3)) == 0:
        return dict(t='fixed', a=i, b=j) if draw(st.booleans()) else dict(t='fixed', a=j, b=i)
    c = dict(t='joint', a=i, b=j, f=draw(u(0.0, 1.0)), off=[draw(sym(5.0)), draw(sym(5.0))])
    if draw(st.booleans()):
        c['a'], c['b'] = j, i
    return c
