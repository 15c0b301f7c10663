"""C03 contact-free dynamics: new velocities solve the constrained Newton step."""
import numpy as np
from hypothesis import strategies as st

from . import scenes
from .common import describe, finite, start
from .core import require
from .oracle import Update

COUNT = dict(quick=1600, thorough=24000)
RULE = ('Scenes of 1-6 bodies far apart (no contacts), random masses, velocities that may violate '
        'the constraints, gravity and time-dependent forces, joints along random forests, pins; '
        'several steps per case. Non-trivial: at least one constraint or force acts and the '
        'velocity changes.')
ASSUMPTIONS = ['constraints of one scene are independent (joints form a forest, one pinned body '
               'per component)', 'contact-free: bodies are at least 40 units apart and steps few']


@st.composite
def _case(draw):
    n = draw(st.integers(1, 6))
    bodies = []
    for i in range(n):
        b = draw(scenes.body(mass=(0.02, 200.0)))
        b['at'] = [300.0 * i + draw(scenes.sym(50.0)), draw(scenes.sym(100.0))]
        b['forces'] = [draw(scenes.gravity_or_force())
                       for _ in range(draw(st.integers(0, 3)))]
        bodies.append(b)
    slow = draw(st.one_of(st.just(1.0), scenes.lu(1e-3, 1.0)))
    for b in bodies:
        b['v'] = [x * slow for x in b['v']]
    cons, comp = [], {}
    for i in range(1, n):
        if draw(st.booleans()):
            j = draw(st.integers(0, i - 1))
            cons.append(draw(scenes.joint(i, j)))
            comp[i] = comp.get(j, j)
    pinned = set()
    for i in range(n):
        root = comp.get(i, i)
        if root in pinned or draw(st.booleans()):
            continue
        pinned.add(root)
        for t in draw(st.sampled_from([['x'], ['y'], ['rot'], ['x', 'y'], ['total'], ['joint'],
                                       ['rot', 'x'], ['rot', 'x', 'y'], ['x', 'y']])):
            c = dict(t=t, a=i)
            if t == 'joint':
                c.update(b=None, off=[draw(scenes.sym(20.0)), draw(scenes.sym(20.0))])
            cons.append(c)
    return dict(bodies=bodies, cons=cons, order=list(draw(st.permutations(list(range(n))))),
                corder=draw(st.integers(0, 5)),
                dt=draw(st.sampled_from([1 / 30, 1 / 60, 0.02, 0.1])), proj=draw(st.booleans()),
                steps=draw(st.integers(1, 5)), ps=draw(st.integers(0, 3)) == 0)


def strategy(tier):
    def fix(c):
        k = c.pop('corder')
        c['cons'] = c['cons'][k:] + c['cons'][:k]
        return c
    return _case().map(fix)


def check(case, ctx):
    sim = start(case, ctx)
    ctx.label('cons=%d' % min(3, len(case['cons'])))
    for k in range(case['steps']):
        u = Update(sim)
        require(not u.contacts, 'contacts %s between bodies far apart', u.contacts)
        n, J, m, dt = 3 * u.n, u.J, u.m, sim.dt
        K = np.zeros((n + len(J),) * 2)
        K[:n, :n] = np.diag(m)
        K[:n, n:] = -J.T
        K[n:, :n] = J
        rhs = np.concatenate([m * u.v0 + dt * u.f, np.zeros(len(J))])
        sc = np.concatenate([1 / np.sqrt(m), np.ones(len(J))])
        Ks = K * sc[:, None] * sc[None, :]
        rs = np.abs(Ks).max(1)
        rs[rs == 0] = 1
        want = (sc * np.linalg.solve(Ks / rs[:, None], sc * rhs / rs))[:n]
        sim.world.step()
        got = sim.v()
        finite(sim)
        ref = np.sqrt(m) * np.abs(np.concatenate([want, u.v0, dt * u.f / m])).max()
        err = np.abs(np.sqrt(m) * (got - want)).max() / max(ref.max(), 1e-9)
        require(err < 1e-6, 'step %d: velocities %s differ from constrained Newton solution %s',
                k, got.tolist(), want.tolist())
        ctx.nt(np.abs(got - u.v0).max() > 1e-6)
        if sim.max_depth(u.p0 + dt * want)[0] > -0.3:
            ctx.label('bodies meet')
            return
        if not case['ps']:
            require(np.allclose(sim.p(), u.p0 + dt * want, rtol=1e-7,
                                atol=1e-6 * (1 + np.abs(want).max())),
                    'step %d: positions are not advanced with the new velocities: %s',
                    k, describe(sim))
            require(abs(float(sim.world.t) - u.t0 - dt) < 1e-9, 'time advanced by %s, not %s',
                    float(sim.world.t) - u.t0, dt)
