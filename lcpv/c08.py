"""C08 no interpenetration in strict worlds."""
from hypothesis import strategies as st

from . import scenes
from .common import describe, finite, history, kick, start, stepped
from .core import require
from .oracle import Update

COUNT = dict(quick=560, thorough=12000)
RULE = ('Clusters of 2-6 bodies (floor or free, joints, pins, gravity, forces), speeds up to 400, '
        'eps and tolerance varied, crowds, post stabilization on in a third; 2-10 steps with velocity '
        'kicks in between. Penetration by independent SAT/distance geometry from the recorded '
        'poses and original shapes. Non-trivial: at least one step ends in contact.')
ASSUMPTIONS = ['steps whose contact problem has no reachable solution end the case']


def strategy(tier):
    @st.composite
    def mk(draw):
        fast = draw(scenes.one_in(3))
        sc = draw(scenes.scene(nmax=5, crowd=20, gapmax=draw(st.sampled_from([0.099, 0.099, 3.0])), smin=2.0 if fast else 4.0, vlin=400.0 if fast else 60.0,
                               vang=8.0 if fast else 2.0, eps=(0.1, 0.1, 0.02, 0.4)))
        sc['tol'] = draw(st.sampled_from([1e-6, 1e-6, 1e-4, 1e-3]))
        sc['ps'] = draw(st.integers(0, 2)) == 0
        sc['hist'] = draw(history(len(sc['bodies']), 2, 10, kick=400.0 if fast else 60.0))
        return sc
    return mk()


def check(case, ctx):
    sim = start(case, ctx)
    tol = case['tol']
    for k, ks in enumerate(case['hist']):
        kick(sim, ks)
        u = Update(sim)
        stepped(sim, u)
        finite(sim)
        d, who = sim.max_depth()
        size = 1 + abs(sim.p()).max()
        ctx.nt(d > -sim.sc['eps'])
        ctx.label('contact-steps', int(d > -sim.sc['eps']))
        if sim.sc['ps']:
            ctx.label('stabilized steps')
        require(d <= tol + 1e-10 * size,
                'step %d: bodies %s overlap by %.6g (tolerance %g); %s', k, who, d, tol,
                describe(sim))
