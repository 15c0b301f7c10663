"""C05 Coulomb friction law."""
import numpy as np
from hypothesis import strategies as st

from . import scenes
from .c04 import ASSUMPTIONS, run_updates  # noqa: F401

COUNT = dict(quick=720, thorough=12000)
RULE = ('As C04 with friction coefficients 0..1.2 per body (all cases frictional), spinning and '
        'sliding bodies, approaching, overlapping within the tolerance, creeping or in crowds. The applied impulse must be a non-negative combination of n - mu*sign(slip)*t '
        '(slipping) or n +- mu*t (sticking) of active contacts plus constraint forces. '
        'Non-trivial: a frictional contact is active; slip and stick counted as labels.')


def strategy(tier):
    @st.composite
    def mk(draw):
        sc = draw(scenes.scene(vang=3.0, gapmax=0.05, crowd=20, over=True, joints=draw(st.booleans())))
        for b in sc['bodies']:
            if b['mu'] == 0.0:
                b['mu'] = draw(scenes.u(0.1, 1.0))
        sc['steps'] = draw(st.integers(1, 6))
        sc['ps'] = draw(st.integers(0, 5)) == 0
        return sc
    return mk()


def check(case, ctx):
    def judge(sim, u):
        if not len(u.Jn):
            return None
        act = u.slack < u.tau
        vt = np.abs(u.Jt @ u.v1)
        ctx.nt(act.any() and np.abs(u.imp).max() > 1e-6)
        ctx.label('active-slip', int((act & (vt > u.tau)).sum()))
        ctx.label('active-stick', int((act & (vt <= u.tau)).sum()))
        r = u.cone_resid('coulomb')
        if r > 2e-4:
            return ('the applied impulse violates the friction law (distance %.3g): slips %s, '
                    'friction coefficients %s, velocities %s -> %s' % (
                        r, (u.Jt @ u.v1).tolist(), u.mu.tolist(), u.v0.tolist(),
                        u.v1.tolist()))
    run_updates(case, ctx, judge)
