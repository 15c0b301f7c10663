"""C06 momentum: contacts and joints between free bodies exchange momentum, never create it."""
import numpy as np
from hypothesis import strategies as st

from . import scenes
from .c04 import ASSUMPTIONS, run_updates  # noqa: F401

COUNT = dict(quick=720, thorough=12000)
RULE = ('Free clusters (nothing pinned) with contacts, friction, revolute and fixed joints, random '
        'forces, crowds, overlaps within the tolerance, positions far from the origin. Linear momentum and angular momentum about the '
        'origin may change only by the external forces. Non-trivial: the velocity of at least two '
        'bodies is changed by a contact or joint.')


def strategy(tier):
    @st.composite
    def mk(draw):
        sc = draw(scenes.scene(floor=False, pins=False, vang=2.0, crowd=20, over=True))
        far = [draw(scenes.sym(200.0)), draw(scenes.sym(200.0))]
        for b in sc['bodies']:
            if 'att' not in b:
                b['at'] = (np.array(b.get('at', [0.0, 0.0])) + far).tolist()
        sc['steps'] = draw(st.integers(1, 6))
        return sc
    return mk()


def check(case, ctx):
    def judge(sim, u):
        m, v0, v1, p, f, dt = u.m, u.v0, u.v1, u.p0, u.f, u.dt
        moved = np.abs(u.imp.reshape(-1, 3)).max(1) > 1e-6
        ctx.nt(moved.sum() >= 2)
        ctx.label('joint-scenes', int(bool(sim.cons)))
        size = (np.abs(m * v0) + np.abs(m * v1) + np.abs(dt * f)).reshape(-1, 3)
        lin = u.imp.reshape(-1, 3)[:, 1:].sum(0)
        tol = 1e-6 * (1 + size[:, 1:].sum())
        if np.abs(lin).max() > tol:
            return 'linear momentum changed by %s beyond the external forces' % lin.tolist()
        x, y = p[1::3], p[2::3]
        ang = (u.imp[0::3] + x * u.imp[2::3] - y * u.imp[1::3]).sum()
        tol = 1e-6 * (1 + size[:, 0].sum() + ((np.abs(x) + np.abs(y) + 1) *
                                              size[:, 1:].sum(1)).sum())
        if abs(ang) > tol:
            return 'angular momentum changed by %.6g beyond the external torque' % ang
    run_updates(case, ctx, judge)
