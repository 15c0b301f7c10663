"""C07 kinetic energy is never created by contacts or joints."""
import numpy as np
from hypothesis import strategies as st

from . import scenes
from .c04 import ASSUMPTIONS, run_updates  # noqa: F401

COUNT = dict(quick=720, thorough=12000)
RULE = ('Force-free clusters, either frictionless with one common restitution in [0,1] or with zero '
        'restitution and any friction (with both, Newton restitution may legitimately gain '
        'energy). Restitution 1 without friction must conserve energy. Non-trivial: a contact '
        'impulse acts; loss/conservation counted as labels.')


def strategy(tier):
    @st.composite
    def mk(draw):
        fric = draw(st.booleans())
        if fric:
            e, mu = 0.0, None
        else:
            e, mu = draw(st.one_of(scenes.u(0.0, 1.0), st.sampled_from([1.0, 0.0]))), 0.0
        joints = draw(st.booleans())
        sc = draw(scenes.scene(e=e, mu=mu, forces=False, joints=joints, crowd=20, over=True, pins=joints,
                               vang=2.0))
        # joint rows turn with the bodies: only the first update starts exactly consistent
        moving = any(c['t'] in ('joint', 'fixed') for c in sc['cons'])
        sc['steps'] = 1 if moving else draw(st.integers(1, 6))
        sc['fric'], sc['e'] = fric, e
        return sc
    return mk()


def check(case, ctx):
    def judge(sim, u):
        k0, k1 = 0.5 * (u.m * u.v0 ** 2).sum(), 0.5 * (u.m * u.v1 ** 2).sum()
        hit = len(u.Jn) > 0 and np.abs(u.imp).max() > 1e-6
        ctx.nt(hit)
        # (bodies at rest: the solver leaves velocities of up to some 1e-4)
        ref = k0 + 1e-2 * u.m[1::3].sum()
        if k1 > k0 + 1e-5 * ref:
            return 'kinetic energy grew from %.9g to %.9g (restitution %g)' % (k0, k1, case['e'])
        if hit:
            ctx.label('elastic' if case['e'] == 1 and not case['fric'] else 'lossy')
        if case['e'] == 1 and not case['fric'] and k1 < k0 - 1e-5 * ref:
            return 'elastic frictionless contact lost energy: %.9g -> %.9g' % (k0, k1)
        if not len(u.Jn) and not sim.cons and abs(k1 - k0) > 1e-9 * ref:
            return 'energy changed without contact or constraint: %.9g -> %.9g' % (k0, k1)
    run_updates(case, ctx, judge)
