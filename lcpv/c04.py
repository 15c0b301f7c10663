"""C04 normal contact response: restitution bound, no pull, complementarity."""
import numpy as np
from hypothesis import strategies as st

from . import scenes
from .common import finite, start
from .core import OutOfDomain, require
from .oracle import Update

COUNT = dict(quick=720, thorough=12000)
RULE = ('Clusters of 2-5 circles/rectangles/hulls placed at gaps 0..eps (and some further apart), '
        'with or without a pinned floor, random body order, masses 0.1..30, restitutions and '
        'frictions including 0 and 1, joints/pins/forces; 1-6 steps per case. Half of the cases '
        'are frictionless; two thirds of the bodies approach what they are placed against, some overlap '
        'within the tolerance, some scenes creep, some are crowds of up to 32 bodies. '
        'Non-trivial: some contact carries an impulse.')
ASSUMPTIONS = ['contact problems that have no solution, or on which a textbook interior-point '
               'method does not converge comfortably, are outside the property (decided lazily, '
               'counted under out-of-domain)']
LAWS = ('cone',)


def strategy(tier):
    @st.composite
    def mk(draw):
        mu = 0.0 if draw(st.booleans()) else None
        sc = draw(scenes.scene(mu=mu, crowd=20, over=True))
        sc['steps'] = draw(st.integers(1, 6))
        sc['ps'] = draw(st.integers(0, 5)) == 0
        return sc
    return mk()


def run_updates(case, ctx, judge):
    sim = start(case, ctx)
    for k in range(case['steps']):
        u = Update(sim)
        lost = sim.undetected()
        require(lost is None, 'step %d: the bodies %s are within contact distance but get no '
                'contact', k, lost)
        sim.world.step()
        u.after(sim.v(), sim.dt)
        finite(sim)
        ctx.label('steps')
        if u.contacts:
            ctx.label('contact-steps')
        bad = judge(sim, u)
        if bad is not None:
            if not u.well_behaved():
                raise OutOfDomain('contact problem without a reachable solution')
            require(False, 'step %d: %s', k, bad)


def check(case, ctx):
    def judge(sim, u):
        if not len(u.Jn):
            return None
        ctx.nt(np.abs(u.imp).max() > 1e-6 and u.slack.min() < u.tau)
        i = int(u.slack.argmin())
        if u.slack[i] < -3 * u.tau:
            return ('contact %d of bodies %s: normal velocity %.6g after, %.6g before, restitution '
                    '%.4g: bodies still approach each other (or bounce too little)' % (
                        i, u.contacts[i][4:], (u.Jn @ u.v1)[i], (u.Jn @ u.v0)[i], u.e[i]))
        law = 'frictionless' if not u.mu.any() else 'cone'
        r = u.cone_resid(law)
        if r > 2e-4:
            return ('the applied impulse is not a pushing contact impulse of the active contacts '
                    '(distance %.3g, law %s); velocities %s -> %s' % (
                        r, law, u.v0.tolist(), u.v1.tolist()))
    run_updates(case, ctx, judge)
