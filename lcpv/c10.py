"""C10 joints and constraints over whole simulations."""
import numpy as np
from hypothesis import strategies as st

from . import c03, geom, scenes
from .common import describe, finite, history, kick, start, stepped
from .core import OutOfDomain, require
from .oracle import Update

COUNT = dict(quick=800, thorough=16000)
RULE = ('Contact-free forests of joints, fixed joints and pins (up to 12 steps) and jointed '
        'clusters with contacts, kicks, halved steps (up to 8 steps), some with post '
        'stabilization. Anchors are tracked independently. Non-trivial: a joint or constraint '
        'is present and some body moved.')
ASSUMPTIONS = ['steps whose contact problem has no reachable solution end the case',
               'constraints of one scene are independent']


def strategy(tier):
    @st.composite
    def mk(draw):
        if draw(st.booleans()):
            sc = draw(c03.strategy(tier))
            sc['hist'] = draw(history(len(sc['bodies']), 1, 12))
        else:
            sc = draw(scenes.scene(nmax=4, gapmax=draw(st.sampled_from([0.099, 3.0])), vang=3.0))
            n = len(sc['bodies'])
            first = 1 if sc['cons'] and sc['cons'][0].get('a') == 0 else 0
            if not sc['cons'] and n > 1:
                sc['cons'].append(draw(scenes.joint(first, n - 1)) if n - 1 > first
                                  else dict(t='x', a=0))
            sc['ps'] = draw(st.integers(0, 3)) == 0
            sc['hist'] = draw(history(n, 1, 8))
        return sc
    return mk()


class Track:
    """Where every joint has to be, from the poses alone."""

    def __init__(self, sim):
        self.sim = sim
        self.p0 = sim.p()
        self.r = []
        for c in sim.cons:
            if c['t'] == 'joint':
                P = c['P0']
            elif c['t'] == 'fixed':
                P = self.pos(self.p0, c['a'])
            else:
                self.r.append(None)
                continue
            r2 = None if c['b'] is None else P - self.pos(self.p0, c['b'])
            self.r.append((P - self.pos(self.p0, c['a']), r2, P))
        self.rel = [self.p0[3 * c['b']] - self.p0[3 * c['a']] if c['t'] == 'fixed' else None
                    for c in sim.cons]

    @staticmethod
    def pos(p, i):
        return p[3 * i + 1:3 * i + 3]

    def ends(self, k, p):
        """Anchor of constraint k as carried by its first and by its second body."""
        c = self.sim.cons[k]
        r1, r2, P = self.r[k]
        a = self.pos(p, c['a']) + geom.rot(p[3 * c['a']] - self.p0[3 * c['a']]) @ r1
        if c['b'] is None:
            return a, P
        return a, self.pos(p, c['b']) + geom.rot(p[3 * c['b']] - self.p0[3 * c['b']]) @ r2

    def gap(self, k, p):
        a, b = self.ends(k, p)
        return float(np.linalg.norm(a - b))


COORD = dict(x=[1], y=[2], rot=[0], total=[0, 1, 2])


def check(case, ctx):
    sim = start(case, ctx)
    tr = Track(sim)
    gaps = [0.0 if r is not None else None for r in tr.r]
    for k, ks in enumerate(case['hist']):
        kick(sim, ks)
        u = Update(sim)
        t0 = float(sim.world.t)
        stepped(sim, u)
        finite(sim)
        took = float(sim.world.t) - t0
        ctx.nt(len(sim.cons) > 0 and np.abs(sim.p() - u.p0).max() > 1e-6)
        ctx.label('steps')
        if took < 0.99 * sim.dt:
            ctx.label('halved steps')
        bad = judge(sim, tr, gaps, u, took, k)
        if bad:
            if u.contacts and not u.well_behaved():
                raise OutOfDomain('contact problem without a reachable solution')
            if sim.contacts() and case.get('ps') and not Update(sim).well_behaved():
                raise OutOfDomain('stabilization of contacts without a reachable solution')
            require(False, 'step %d: %s', k, bad)


def judge(sim, tr, gaps, u, took, k):
    v, p = sim.v(), sim.p()
    u.after(v, sim.dt)
    if u.eq_resid() > 1e-6:
        return 'relative velocity at the constraints is %s' % (u.J @ v).tolist()
    size = 1 + np.abs(p).max()
    num = 1e-6 * (k + 1) * size
    for q, c in enumerate(sim.cons):
        if c['t'] in COORD:
            for d in COORD[c['t']]:
                i = 3 * c['a'] + d
                if abs(p[i] - tr.p0[i]) > num:
                    return 'coordinate %d held by constraint %s moved from %.12g to %.12g' % (
                        i, c['t'], tr.p0[i], p[i])
            continue
        a, _ = tr.ends(q, p)
        got = scenes.np_(c['obj'].pos)
        if np.abs(got - a).max() > num:
            return 'anchor of %s joint %d is at %s, its first body carries it to %s' % (
                c['t'], q, got.tolist(), a.tolist())
        if c['t'] == 'fixed':
            rel = p[3 * c['b']] - p[3 * c['a']]
            if abs(rel - tr.rel[q]) > num:
                return 'fixed joint: relative angle changed from %.12g to %.12g' % (tr.rel[q], rel)
        g = tr.gap(q, p)
        if not sim.sc.get('ps'):
            w1 = abs(v[3 * c['a']]) * took
            w2 = 0.0 if c['b'] is None else abs(v[3 * c['b']]) * took
            r1, r2, _ = tr.r[q]
            bound = gaps[q] * (1 + w2) + 0.5 * w1 ** 2 * np.linalg.norm(r1)
            if r2 is not None:
                bound += 0.5 * w2 ** 2 * np.linalg.norm(r2)
            if g > bound + 1e-6 * size:
                return 'joint %d opened to %.9g (before %.9g, second-order bound %.9g); %s' % (
                    q, g, gaps[q], bound, describe(sim))
        gaps[q] = g
