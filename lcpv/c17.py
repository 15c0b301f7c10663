"""C17 equivariance."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from . import geom, scenes
from .common import history, sane
from .core import OutOfDomain, require
from .oracle import Update
from .scenes import Sim, one_in, sym, u

COUNT = dict(quick=640, thorough=16000)
RULE = ('Scenes of 2-5 bodies with contacts, friction, joints, constraints, forces, kicks, 1-4 '
        'steps, and a transformed twin: moved, turned, mirrored (at most one polygon), with '
        'bodies, constraints and hull vertices listed in another order, or in other units of mass, '
        'time or length. Contacts, velocities, poses and times are compared after every step. '
        'Non-trivial: a contact or joint acted.')
ASSUMPTIONS = ['cases with exactly parallel edges or other ties, or trials within 1e-6 of the '
               'tolerance end there',
               'where the frictional problem has several solutions (both results satisfy the '
               'contact law) the case ends']


def strategy(tier):
    @st.composite
    def mk(draw):
        mu = draw(st.sampled_from([None, None, 0.0]))
        sc = draw(scenes.scene(over=True, nmax=4, vang=2.0, gapmax=draw(st.sampled_from([0.099, 0.099, 2.0])),
                               mu=mu))
        sc['ps'] = draw(one_in(6))
        sc['hist'] = draw(history(len(sc['bodies']), 1, 4, p=3))
        k = draw(st.lists(st.sampled_from(['move', 'turn', 'mirror', 'order', 'order', 'cons',
                                           'verts', 'mass', 'time', 'length']), min_size=1,
                          max_size=3, unique=True))
        n = len(sc['bodies'])
        c = scenes.lu(0.2, 5.0) if draw(st.booleans()) else scenes.lu(0.01, 100.0)
        if 'time' in k and draw(st.booleans()):
            # slow motion
            k, c, sc['ps'] = ['time'], scenes.lu(10.0, 1e4), False
        sc['tr'] = dict(kinds=sorted(k), t=[draw(sym(500.0)), draw(sym(500.0))],
                        ang=draw(st.one_of(sym(math.pi), st.sampled_from([math.pi / 2, math.pi]))),
                        order=list(draw(st.permutations(list(range(n))))),
                        cons=list(draw(st.permutations(list(range(len(sc['cons'])))))),
                        roll=[draw(st.integers(0, 6)) for _ in range(n)],
                        c=draw(c))
        return sc
    return mk()


class Map:
    """How states of the scene turn into states of its twin."""

    def __init__(self):
        self.R = np.eye(2)
        self.t = np.zeros(2)
        self.da = 0.0
        self.flip = 1.0
        self.L = self.V = 1.0
        self.T = 1.0

    def p(self, p):
        out = np.array(p, float)
        q = out.reshape(-1, 3)
        q[:, 0] = self.flip * q[:, 0]
        q[:, 1:] = self.L * (q[:, 1:] @ self.R.T) + self.t
        return out

    def v(self, v):
        out = np.array(v, float)
        q = out.reshape(-1, 3)
        q[:, 0] *= self.flip / self.T
        q[:, 1:] = self.L / self.T * (q[:, 1:] @ self.R.T)
        return out

    def vec(self, x):
        return self.R @ np.asarray(x)


def twin_of(sc, poses):
    """Transformed scene and the map of states."""
    tr, kinds = sc['tr'], sc['tr']['kinds']
    m = Map()
    d = copy.deepcopy(sc)
    d['proj'] = False
    hulls = sum(b['k'] != 'c' for b in sc['bodies'])
    axis = any(c['t'] in 'xy' for c in sc['cons'])
    quarter = 0
    if 'turn' in kinds:
        ang = tr['ang']
        if axis:
            quarter = int(round(ang / (math.pi / 2))) % 4
            ang = quarter * math.pi / 2
        m.R = geom.rot(ang)
        if axis:
            m.R = np.round(m.R)
        m.da = ang
    if 'mirror' in kinds and hulls <= 1:
        m.flip = -1.0
        m.R = m.R @ np.diag([-1.0, 1.0])
    if 'move' in kinds:
        m.t = np.array(tr['t'])
    c = tr['c']
    mass = c if 'mass' in kinds else 1.0
    if 'time' in kinds:
        m.T = c
    if 'length' in kinds:
        m.L = c
    lin = mass * m.L / m.T ** 2          # unit of force
    tor = m.flip * lin * m.L
    for i, (b, p) in enumerate(zip(d['bodies'], poses)):
        b.pop('att', None)
        b['at'] = (m.L * (m.R @ np.array(p[1:])) + m.t).tolist()
        if b['k'] == 'h':
            b['vs'] = (m.L * np.array(b['vs']) @ m.R.T).tolist()
            b['off'] = (m.L * (m.R @ np.array(b.get('off', [0.0, 0.0])))).tolist()
            if m.flip < 0:
                b['vs'] = b['vs'][::-1]
            if 'verts' in kinds:
                b['vs'] = np.roll(np.array(b['vs']), tr['roll'][i], axis=0).tolist()
        else:
            b['a'] = m.flip * b.get('a', 0.0) + m.da
            if b['k'] == 'c':
                b['r'] = b['r'] * m.L
            else:
                b['d'] = [x * m.L for x in b['d']]
        b['m'] = b['m'] * mass
        b['v'] = m.v(b['v']).tolist()
        fs = []
        for f in sc['bodies'][i].get('forces', []):
            if f['t'] == 'g':
                f = dict(t='e', f=[0.0, 0.0, f['g'] * sc['bodies'][i]['m']], mult=1.0)
            f = copy.deepcopy(f)
            f['f'] = [tor * f['f'][0]] + (lin * (m.R @ np.array(f['f'][1:]))).tolist()
            if 'w' in f:
                f['w'] = f['w'] / m.T
            fs.append(f)
        b['forces'] = fs
    for k in d['cons']:
        if 'off' in k:
            k['off'] = (m.L * (m.R @ np.array(k['off']))).tolist()
        if k['t'] in ('x', 'y') and quarter % 2:
            k['t'] = 'y' if k['t'] == 'x' else 'x'
    if 'cons' in kinds:
        d['cons'] = [d['cons'][i] for i in tr['cons'] if i < len(d['cons'])]
    if 'order' in kinds:
        d['order'] = tr['order']
    d['dt'] = sc['dt'] * m.T
    d['eps'] = sc['eps'] * m.L
    d['tol'] = sc.get('tol', 1e-6) * m.L
    return d, m


def inv_order(sim, x):
    """State of a world in the order of the scene."""
    q = np.asarray(x).reshape(-1, 3)
    return np.concatenate([q[sim.model.index[i]] for i in range(sim.model.n)])


def contact_list(sim, m=None):
    out = []
    back = {v: k for k, v in sim.model.index.items()}
    for n, p1, p2, pen, i, j in sim.contacts():
        i, j = back[i], back[j]
        if i > j:
            i, j, n, p1, p2 = j, i, -n, p2, p1
        if m is not None:
            n, p1, p2, pen = m.vec(n), m.L * m.vec(p1), m.L * m.vec(p2), m.L * pen
        out.append((i, j, np.concatenate([n, p1, p2, [pen]])))
    return out


def match(a, b, tol):
    """Pair up two lists of contacts; largest difference or None."""
    if sorted(c[:2] for c in a) != sorted(c[:2] for c in b):
        return None
    worst = 0.0
    rest = list(b)
    for c in a:
        best = min((x for x in rest if x[:2] == c[:2]),
                   key=lambda x: np.abs(x[2] - c[2]).max(), default=None)
        worst = max(worst, float(np.abs(best[2] - c[2]).max()))
        rest = [x for x in rest if x is not best]
    return worst


def push(sim, dv):
    import torch
    v = sim.v()
    for i in range(sim.model.n):
        j = sim.model.index[i]
        v[3 * j:3 * j + 3] += dv[3 * i:3 * i + 3]
    J = sim.Je()
    if len(J):
        # what the constraints allow, in the kinetic metric (the same in all frames)
        s = np.sqrt(sim.model.m)
        v = v - (np.linalg.pinv(J / s) @ (J @ v)) / s
    sim.world.set_v(torch.tensor(v))


def near_tol(sim, u):
    """Does the length of this step hang on a trial that is within 1e-6 of the tolerance?"""
    d = sim.dt
    for _ in range(12):
        depth, _w = sim.max_depth(u.p0 + d * u.v1)
        if abs(depth - sim.sc.get('tol', 1e-6)) < 1e-6 + 1e-7 * d * np.abs(u.v1).max():
            return True
        d /= 2
    return False


def lawful(u):
    """Does the update satisfy the contact law, at its own scale of velocities?"""
    lin = float(np.abs(np.concatenate([u.v0, u.v1, u.dt * u.f / u.m])).max())
    if lin < u.vscale:
        u.tau *= max(1e-3, lin) / u.vscale
        u.vscale = max(1e-3, lin)
    return bool(np.all(u.slack > -u.tau * 10) and u.cone_resid() < 1e-4 and u.eq_resid() < 1e-5)


def check(case, ctx):
    sc = copy.deepcopy(case)
    if not sane(sc):
        raise OutOfDomain('degenerate polygon')
    poses = scenes.place(sc['bodies'])
    n = len(poses)
    scenes.project_velocities(sc, poses, list(range(n)))
    sc['proj'] = False
    a = Sim(sc)
    d, m = twin_of(sc, poses)
    b = Sim(d)
    for k in sc['tr']['kinds']:
        ctx.label(k)
    tol = 1e-5
    for k, ks in enumerate(sc['hist']):
        dv = np.zeros(3 * n)
        for i, *x in ks:
            if len(x) == 4:
                if x[0] == i:
                    continue
                to = np.array(poses[x[0]][1:]) - np.array(poses[i][1:])
                to = to * x[1] / max(1e-9, np.linalg.norm(to))
                x = [x[2], to[0], to[1]]
            dv[3 * i:3 * i + 3] = x
        if ks:
            push(a, dv)
            push(b, m.v(dv))
        ws = a.model.world_shapes(a.p())
        if geom.ambiguous(ws, sc['eps'], a.excluded, 1e-6, 1e-6):
            raise OutOfDomain('tie')
        ca, cb = contact_list(a, m), contact_list(b)
        diff = match(ca, cb, tol)
        size = m.L * max(1.0, max(geom.radius(s) for s in a.model.shapes)) + np.abs(m.t).max() * 1e-6
        require(diff is not None, 'step %d: contacts %s but transformed %s', k,
                [(c[0], c[1], c[2].tolist()) for c in ca], [(c[0], c[1], c[2].tolist()) for c in cb])
        require(diff < 10 * tol * (size + 1), 'step %d: contacts differ by %.3g', k, diff)
        ua, ub = Update(a), Update(b)
        ctx.nt(bool(ua.contacts) or any(c['t'] in ('joint', 'fixed') for c in sc['cons']))
        try:
            a.step()
            b.step()
        except scenes.Stuck:
            raise OutOfDomain('step cut into nothing')
        ua.after(a.v(), a.dt)
        ub.after(b.v(), b.dt)
        va, vb = m.v(inv_order(a, a.v())), inv_order(b, b.v())
        ms = np.sqrt(np.concatenate([[scenes.inertia(x), x['m'], x['m']] for x in d['bodies']]))
        scale = np.abs(ms * np.concatenate([va])).max() + np.abs(ms * m.v(inv_order(a, ua.v0))).max() + ms.max() * m.L / m.T
        err = np.abs(ms * (va - vb)).max() / scale
        if err > tol:
            if not (ua.well_behaved() and ub.well_behaved()):
                raise OutOfDomain('contact problem without a reachable solution')
            if ua.mu.max(initial=0) > 0 and lawful(ua) and lawful(ub):
                raise OutOfDomain('several solutions')
        require(err < tol, 'step %d: velocities %s but transformed %s (relative difference %.3g)', k,
                va.tolist(), vb.tolist(), err)
        if near_tol(a, ua):
            raise OutOfDomain('length of the step hangs on rounding')
        require(abs(m.T * float(a.world.t) - float(b.world.t)) < 1e-9 * m.T,
                'step %d: time %.12g but transformed %.12g', k, m.T * float(a.world.t),
                float(b.world.t))
        pa, pb = inv_order(a, a.p()), inv_order(b, b.p())
        want = m.p(pa)
        for i, x in enumerate(d['bodies']):
            # rotation coordinates start where the body was built
            a0 = scenes.local_shape(sc['bodies'][i])[1]
            b0 = scenes.local_shape(x)[1]
            want[3 * i] = b0 + m.flip * (pa[3 * i] - a0)
        perr = np.abs(want - pb).max() / (1 + np.abs(m.t).max() * 1e-3 + m.L * np.abs(pa).max())
        ptol = max(1e-7, 10 * tol) if not sc['ps'] else max(1e-5, 10 * tol)
        if perr > ptol and sc['ps'] and not (ua.well_behaved() and Update(a).well_behaved()):
            raise OutOfDomain('stabilization of contacts without a reachable solution')
        require(perr < ptol, 'step %d: poses %s but transformed %s (relative difference %.3g)', k,
                want.tolist(), pb.tolist(), perr)
        if k > 0 or ks:
            ctx.label('later steps')
        tol = min(2e-3, tol * 20)
