"""C09 steps advance time and poses exactly, halving only as often as needed."""
import numpy as np
from hypothesis import strategies as st

from . import scenes
from .common import describe, finite, history, kick, start, stepped
from .core import OutOfDomain, require
from .oracle import Update

COUNT = dict(quick=640, thorough=12000)
RULE = ('Scenes of 2-5 fast bodies (speeds up to 600, gaps up to 20) so that full steps often '
        'penetrate; strict and non-strict worlds, step() and step(fixed_dt=True), dt, eps, tol '
        'varied, kicks in between. The trial sequence start + v dt/2^k is judged by independent '
        'geometry. Non-trivial: a step was halved.')
ASSUMPTIONS = ['cases end where a trial depth is within 1e-7 of the tolerance',
               'no post stabilization here (C21)']
MARGIN = 1e-7


def strategy(tier):
    @st.composite
    def mk(draw):
        v = draw(scenes.lu(60.0, 600.0))
        sc = draw(scenes.scene(nmax=4, smin=3.0, vlin=v, vang=v / 60, farmax=20.0, gapmax=draw(st.sampled_from([0.099, 2.0, 8.0])),
                               eps=(0.1, 0.1, 0.02, 0.4), dts=(1 / 30, 1 / 60, 0.05, 0.1)))
        sc['strict'] = draw(st.booleans())
        sc['tol'] = draw(st.sampled_from([1e-6, 1e-6, 1e-4, 1e-3]))
        sc['fixed'] = draw(st.integers(0, 3)) == 0
        sc['hist'] = draw(history(len(sc['bodies']), 1, 6, kick=v, vang=v / 40, p=1))
        return sc
    return mk()


def expected(sim, u, v1, first, strict):
    """Number of halvings the step should take, starting with length first."""
    d, k = first, 0
    while True:
        depth, who = sim.max_depth(u.p0 + d * v1)
        if abs(depth - sim.sc['tol']) < MARGIN:
            raise OutOfDomain('trial at the tolerance')
        if depth <= sim.sc['tol'] or (not strict and d < sim.dt / 4):
            return k, d
        k, d = k + 1, d / 2
        if k > 60:
            raise OutOfDomain('no trial is free of penetration')


def one(sim, ctx, k, first=None):
    """One step of a world, judged; returns the time it took."""
    u = Update(sim)
    strict = sim.sc['strict']
    if first is None:
        stepped(sim, u)
    else:
        sim.world.step_dt(first)
    finite(sim)
    v1, p1 = sim.v(), sim.p()
    took = float(sim.world.t) - u.t0
    n, d = expected(sim, u, v1, first or sim.dt, strict)
    ctx.nt(n > 0)
    ctx.label('halved %d' % min(n, 4))
    require(abs(took - d) < 1e-12 * (1 + abs(u.t0)),
            'step %d took %.12g but the first trial without penetration is the one of %.12g '
            '(%d halvings); %s', k, took, d, n, describe(sim))
    want = u.p0 + took * v1
    require(np.abs(p1 - want).max() < 1e-10 * (1 + np.abs(u.p0).max() + np.abs(took * v1).max()),
            'step %d: poses %s are not start + velocity * time = %s', k, p1.tolist(),
            want.tolist())
    return took


def check(case, ctx):
    sim = start(case, ctx)
    twin = start(case, ctx) if case['fixed'] else None
    for k, ks in enumerate(case['hist']):
        kick(sim, ks)
        if not case['fixed']:
            one(sim, ctx, k)
            continue
        kick(twin, ks)
        t0 = float(sim.world.t)
        # twin: step by step towards the same end, every substep judged
        n = 0
        while float(twin.world.t) < t0 + sim.dt:
            rem = t0 + sim.dt - float(twin.world.t)
            if rem < 1e-9:
                break
            n += 1
            if n > 40:
                raise OutOfDomain('too many substeps')
            if case['strict'] or not hasattr(twin.world, 'step_dt'):
                twin.world.dt = rem
                twin.dt = rem
                one(twin, ctx, k)
            else:
                # the halving limit refers to the nominal step
                one(twin, ctx, k, rem)
        twin.world.dt = twin.dt = sim.dt
        sim.world.step(fixed_dt=True)
        finite(sim)
        ctx.label('fixed steps')
        require(abs(float(sim.world.t) - t0 - sim.dt) < 1e-9,
                'fixed step %d ended at %.12g instead of %.12g', k, float(sim.world.t),
                t0 + sim.dt)
        err = np.abs(sim.p() - twin.p()).max() / (1 + np.abs(twin.p()).max())
        require(err < 1e-6, 'fixed step %d differs from the steps it consists of: %s vs %s', k,
                describe(sim), describe(twin))
