"""C15 forces."""
import math

import numpy as np
from hypothesis import strategies as st

from . import geom, scenes
from .common import history
from .core import OutOfDomain, require
from .scenes import np_, one_in, sym, u

COUNT = dict(quick=1200, thorough=30000)
RULE = ('1-4 free bodies of any kind and mass with any mixture of gravity (default or drawn), the '
        'built-in impulses, the default force and custom functions of time, shared between bodies, '
        'added before or during the run; optionally two bodies touching elsewhere, so that the '
        'contact solver does the work, or crashing so that steps are cut. Every pose and velocity is compared with a reference '
        'integrator; the time passed to custom functions is checked. Non-trivial: at least two '
        'forces act, one of them changing over time.')
ASSUMPTIONS = ['a force object belongs to one body (functions may be shared)',
               'switching times are compared with the time the world itself shows']


@st.composite
def force(draw, nf):
    t = draw(st.sampled_from(['g', 'g0', 'down', 'vert', 'hor', 'rot', 'fn', 'fn']))
    d = dict(t=t)
    if t == 'g':
        d['g'] = draw(sym(100.0))
    elif t == 'fn':
        d['i'] = draw(st.integers(0, nf - 1))
        d['mult'] = draw(st.one_of(st.none(), sym(50.0), st.integers(-3, 9)))
    elif t != 'g0':
        d['mult'] = draw(st.one_of(st.none(), sym(200.0), st.integers(-3, 9)))
    return d


@st.composite
def _case(draw):
    n = draw(st.integers(1, 4))
    fns = [dict(c=[draw(sym(3.0)) for _ in range(3)], w=draw(u(0.0, 30.0)),
                kind=draw(st.sampled_from(['cos', 'lin', 'step', 'const'])),
                at=draw(u(0.0, 0.4))) for _ in range(3)]
    bodies = []
    for i in range(n):
        b = draw(scenes.body(mass=(0.01, 100.0)))
        b['at'] = [0.0, 3000.0 * i]
        b['f'] = [draw(force(3)) for _ in range(draw(st.integers(0, 3)))]
        bodies.append(b)
    steps = draw(st.integers(1, 12))
    late = [[draw(st.integers(0, steps - 1)), draw(st.integers(0, n - 1)), draw(force(3))]
            for _ in range(draw(st.integers(0, 2)))]
    return dict(bodies=bodies, fns=fns, late=late, steps=steps,
                dt=draw(st.sampled_from([1 / 30, 1 / 60, 0.013, 0.07, 0.11])),
                order=list(draw(st.permutations(list(range(n))))),
                touch=draw(st.sampled_from(['', '', 'touch', 'crash'])), gap=draw(u(0.2, 20.0)),
                speed=draw(scenes.lu(50.0, 900.0)),
                fixed=draw(one_in(4)))


def strategy(tier):
    return _case()


def fval(fn, t):
    c = np.array(fn['c'])
    if fn['kind'] == 'cos':
        return c * math.cos(fn['w'] * t)
    if fn['kind'] == 'lin':
        return c * (1 + fn['w'] * t)
    if fn['kind'] == 'step':
        return c if t < fn['at'] else -2 * c
    return c


def value(f, fns, m, t):
    k = f['t']
    if k == 'g':
        return np.array([0, 0, f['g'] * m])
    if k == 'g0':
        return np.array([0, 0, 10.0 * m])
    mult = 100.0 if f['mult'] is None else f['mult']
    if k == 'fn':
        return fval(fns[f['i']], t) * mult
    d = dict(down=[0, 0, 1.0], vert=[0, 0, 1.0], hor=[0, 1.0, 0], rot=[1.0, 0, 0])[k]
    return np.array(d) * mult * (1.0 if k == 'down' or t < 0.1 else 0.0)


def check(case, ctx):
    import torch
    from lcp_physics.physics import forces as F
    from lcp_physics.physics.bodies import Circle, Rect
    from lcp_physics.physics.world import World
    if not all(scenes.good_polygon(b['vs']) for b in case['bodies'] if b['k'] == 'h'):
        raise OutOfDomain('degenerate polygon')
    fns, dt = case['fns'], case['dt']
    times, world = [], []

    def wrap(fn):
        def g(t):
            require(float(t) == float(world[0].t), 'force evaluated at time %.17g when the time of '
                    'the world is %.17g', float(t), float(world[0].t))
            return torch.tensor(fval(fn, float(t)), dtype=torch.float64)
        return g
    funcs = [wrap(fn) for fn in fns]

    def make(f):
        k = f['t']
        if k == 'g':
            return F.Gravity(f['g'])
        if k == 'g0':
            return F.Gravity()
        kw = {} if f['mult'] is None else dict(multiplier=f['mult'])
        if k == 'down':
            return F.ExternalForce(**kw)
        func = funcs[f['i']] if k == 'fn' else \
            dict(vert=F.vert_impulse, hor=F.hor_impulse, rot=F.rot_impulse)[k]
        return F.ExternalForce(func, **kw)
    objs, I, rad = [], [], []
    for b in case['bodies']:
        sh, a0 = scenes.local_shape(b)
        o = scenes.make_body(b, [a0] + b['at'])
        for f in b['f']:
            o.add_force(make(f))
        objs.append(o)
        rad.append(geom.radius(sh))
        I.append(np.array([scenes.inertia(b), b['m'], b['m']]))
    bodies = [objs[o] for o in case['order']]
    if case['touch']:
        crash = case['touch'] == 'crash'
        bodies = [Circle([-5000.0, 0.0], 10.0, vel=[0.0, 0.0, case['speed'] * crash]),
                  Rect([-5000.0, 30 + (case['gap'] if crash else 0.05)], [60.0, 40.0],
                       vel=[0.0, 0.0, 0.0], mass=3.0)] + bodies

    def note(t):
        times.append(float(t))
        return torch.zeros(3, dtype=torch.float64)
    bodies[0].add_force(F.ExternalForce(note, 1.0))
    w = World(bodies, [], dt=dt)
    world.append(w)
    require(bool(w.contacts) == (case['touch'] == 'touch'), 'contacts %s', w.contacts)
    p = [np_(o.p) for o in objs]
    v = [np.array(b['v']) for b in case['bodies']]
    active = [list(b['f']) for b in case['bodies']]
    changing = cut = False
    for k in range(case['steps']):
        now = float(w.t)        # exact, so that switches fall on the right side
        for when, i, f in case['late']:
            if when == k:
                objs[i].add_force(make(f))
                active[i].append(f)
        # the end of the case: bodies reach each other
        q = [p[i] + dt * (v[i] + dt * sum((value(g, fns, b['m'], now) for g in active[i]),
                                          np.zeros(3)) / I[i])
             for i, b in enumerate(case['bodies'])]
        far = [(x[1:], y[1:], r) for x, y, r in zip(p, q, rad)] + [
            (np.array([-5000.0, 0.0]),) * 2 + (200.0,)] * bool(case['touch'])
        if any(np.linalg.norm(a[z] - b[z]) < a[2] + b[2] + 1
               for n, a in enumerate(far) for b in far[:n] for z in (0, 1)):
            ctx.label('bodies meet')
            return
        del times[:]
        w.step(fixed_dt=case['fixed'])
        # the (parts of the) step started at these times
        starts = sorted(set(times))
        require(starts and starts[0] == now, 'forces of the step starting at %.17g are evaluated '
                'at %s', now, times)
        end = float(w.t)
        if case['fixed']:
            require(abs(end - now - dt) < 1e-9, 'fixed step from %.12g to %.12g', now, end)
        else:
            require(len(starts) == 1, 'forces evaluated at %s in one step', times)
        cut |= len(starts) > 1 or end - now < 0.9 * dt
        for i, (b, o) in enumerate(zip(case['bodies'], objs)):
            dvs = 0.0
            for s, e in zip(starts, starts[1:] + [end]):
                f = sum((value(g, fns, b['m'], s) for g in active[i]), np.zeros(3))
                dv = (now + dt - s) * f / I[i]
                dvs = dvs + np.abs(dv)
                v[i] = v[i] + dv
                p[i] = p[i] + (e - s) * v[i]
            tol = (1e-6 if case['touch'] else 1e-9) * (1 + np.abs(v[i]) + dvs)
            require(np.all(np.abs(np_(o.v) - v[i]) <= tol),
                    'step %d: velocity of body %d is %s instead of %s', k, i, np_(o.v).tolist(),
                    v[i].tolist())
            require(np.all(np.abs(np_(o.p) - p[i]) <= (k + 1) * dt * tol + 1e-9),
                    'step %d: pose of body %d is %s instead of %s', k, i, np_(o.p).tolist(),
                    p[i].tolist())
            # follow the code from here, errors do not add up
            v[i], p[i] = np_(o.v), np_(o.p)
            ts = [g for g in active[i] if g['t'] in ('vert', 'hor', 'rot', 'fn')]
            changing |= len(active[i]) > 1 and bool(ts)
        if not case['touch'] == 'crash':
            require(abs(end - now - dt) < 1e-9, 'step of %.12g instead of %.12g', end - now, dt)
    ctx.label(case['touch'] or 'free')
    if cut:
        ctx.label('cut')
    ctx.label('late' if case['late'] else 'constant set')
    ctx.nt(changing)
