"""C23 the two contact handlers agree on circles."""
import copy
import math

import numpy as np
from hypothesis import strategies as st

from . import geom, scenes
from .c17 import contact_list, inv_order, lawful, match, near_tol
from .common import history, kick, sane
from .core import OutOfDomain, require
from .oracle import Update
from .scenes import Sim, one_in, sym, u

COUNT = dict(quick=800, thorough=20000)
RULE = ('Worlds of 2-6 circles (joints, pins, forces, kicks, exclusions, eps varied, bodies in any '
        'order), one with the default handler at eps, one with the ODE based one at '
        'eps/2 (it pads both bodies); contacts before and '
        'states after every step are compared. Non-trivial: a contact occurred.')
ASSUMPTIONS = ['gaps within 1e-6 of eps and steps that hang on rounding end the case',
               'contact points of the handlers may differ by the depth of the contact along the '
               'normal']


def strategy(tier):
    @st.composite
    def mk(draw):
        sc = draw(scenes.scene('c', floor=False, nmax=6, eps=(0.1, 0.1, 0.02, 0.5), vang=3.0,
                               gapmax=draw(st.sampled_from([0.099, 0.099, 2.0]))))
        n = len(sc['bodies'])
        sc['hist'] = draw(history(n, 1, 6, p=3))
        sc['nc'] = [[i, j] for i in range(n) for j in range(i) if draw(one_in(9))]
        sc['strict'] = not draw(one_in(6))
        sc['ps'] = draw(one_in(6))
        return sc
    return mk()


def check(case, ctx):
    sc = copy.deepcopy(case)
    # both bodies are padded by eps for ODE, so it sees contacts up to a gap of 2 eps
    a = Sim(dict(copy.deepcopy(sc), eps=2 * sc['eps']))
    b = Sim(copy.deepcopy(sc), contact_callback='OdeContactHandler')
    tol = 1e-6
    for k, ks in enumerate(sc['hist']):
        kick(a, ks)
        kick(b, ks)
        p = a.p()
        ws = a.model.world_shapes(p)
        if geom.ambiguous(ws, 2 * sc['eps'], a.excluded, 0.0, 1e-6):
            raise OutOfDomain('tie')
        ca, cb = contact_list(a), contact_list(b)
        diff = match(ca, cb, tol)
        require(diff is not None, 'step %d: contacts %s but with ODE %s', k,
                [(c[0], c[1], c[2].tolist()) for c in ca],
                [(c[0], c[1], c[2].tolist()) for c in cb])
        require(diff < 10 * tol, 'step %d: contacts differ by %.3g: %s and with ODE %s', k, diff,
                [(c[0], c[1], c[2].tolist()) for c in ca],
                [(c[0], c[1], c[2].tolist()) for c in cb])
        ua, ub = Update(a), Update(b)
        ctx.nt(bool(ua.contacts))
        try:
            a.step()
            b.step()
        except scenes.Stuck:
            raise OutOfDomain('step cut into nothing')
        ua.after(a.v(), a.dt)
        ub.after(b.v(), b.dt)
        va, vb = a.v(), b.v()
        scale = 1 + np.abs(va).max() + np.abs(ua.v0).max()
        err = np.abs(va - vb).max() / scale
        if err > tol:
            if not (ua.well_behaved() and ub.well_behaved()):
                raise OutOfDomain('contact problem without a reachable solution')
            if ua.mu.max(initial=0) > 0 and lawful(ua) and lawful(ub):
                raise OutOfDomain('several solutions')
        require(err < tol, 'step %d: velocities %s but with ODE %s', k, va.tolist(), vb.tolist())
        if near_tol(a, ua):
            raise OutOfDomain('length of the step hangs on rounding')
        require(abs(float(a.world.t) - float(b.world.t)) < 1e-9,
                'step %d: time %.12g but with ODE %.12g', k, float(a.world.t), float(b.world.t))
        err = np.abs(a.p() - b.p()).max() / (1 + np.abs(p).max())
        if err > tol and sc['ps'] and not (ua.well_behaved() and Update(a).well_behaved()):
            raise OutOfDomain('stabilization of contacts without a reachable solution')
        require(err < tol, 'step %d: poses %s but with ODE %s', k, a.p().tolist(), b.p().tolist())
        ctx.label('steps')
        tol = min(1e-3, tol * 20)
