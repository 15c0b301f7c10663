"""Helpers shared by the property checks."""
import numpy as np
from hypothesis import strategies as st

from . import scenes
from .core import OutOfDomain, fail, require
from .scenes import Sim


def sane(sc):
    """Construction-time filter: only proper convex polygons."""
    return all(scenes.good_polygon(b['vs']) for b in sc['bodies'] if b['k'] == 'h')


def start(sc, ctx, **over):
    """Build the world of a scene; degenerate draws leave the domain."""
    if not sane(sc):
        raise OutOfDomain('degenerate polygon')
    return Sim(sc, **over)


def finite(sim):
    require(np.all(np.isfinite(sim.p())) and np.all(np.isfinite(sim.v())),
            'state is not finite: p=%s v=%s', sim.p(), sim.v())


def describe(sim):
    return 'p=%s v=%s' % (np.round(sim.p(), 6).tolist(), np.round(sim.v(), 6).tolist())


def stepped(sim, u, **kw):
    """One step; a step of no length is a violation unless the contact problem is hopeless."""
    try:
        sim.step(**kw)
    except scenes.Stuck:
        if not u.well_behaved():
            raise OutOfDomain('contact problem without a reachable solution')
        fail('the step never ends (bodies still approach after the velocity update): %s',
             describe(sim))


@st.composite
def history(draw, n_bodies, lo, hi, kick=40.0, vang=2.0, p=3):
    """Per step: velocity kicks given to some bodies before it."""
    out = []
    for _ in range(draw(st.integers(lo, hi))):
        ks = []
        if draw(st.integers(0, p - 1)) == 0:
            for i in range(n_bodies):
                if draw(st.booleans()):
                    # towards another body, with some spin
                    ks.append([i, draw(st.integers(0, n_bodies - 1)),
                               draw(scenes.u(0.1, 1.0)) * 1.4 * kick, draw(scenes.sym(vang)),
                               'aim'])
                elif draw(st.booleans()):
                    ks.append([i, draw(scenes.sym(vang)), draw(scenes.sym(kick)),
                               draw(scenes.sym(kick))])
        out.append(ks)
    return out


def kick(sim, ks):
    """Give velocities; constrained bodies only get what their constraints allow."""
    import torch
    if not ks:
        return
    v = sim.v()
    p = sim.p()
    ix = sim.model.index
    for i, *dv in ks:
        if i not in ix:
            continue
        j = ix[i]
        if len(dv) == 4:
            if dv[0] not in ix or dv[0] == i:
                continue
            o = ix[dv[0]]
            d = p[3 * o + 1:3 * o + 3] - p[3 * j + 1:3 * j + 3]
            d = d * dv[1] / max(1e-9, np.linalg.norm(d))
            dv = [dv[2], d[0], d[1]]
        v[3 * j:3 * j + 3] = dv
    J = sim.Je()
    if len(J):
        v = v - np.linalg.pinv(J) @ (J @ v)
        v[np.abs(v) < 1e-12] = 0
    sim.world.set_v(torch.tensor(v))
