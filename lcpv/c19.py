"""C19 isolation and determinism."""
import copy
import os
import pickle
import random

import numpy as np
from hypothesis import strategies as st

from . import c16, scenes
from .common import history, sane
from .core import OutOfDomain, require
from .scenes import np_, one_in, sym, u

COUNT = dict(quick=360, thorough=12000)
RULE = ('2-4 scenes of different sizes, settings and contact counts, or alike in all but a few '
        'numbers; each is simulated alone twice in a process of its own, then, in another, all are stepped in a random interleaving (worlds created at random points '
        'of it, gradients taken at the end in random order). States after every step, times and '
        'gradients are compared. Non-trivial: at least two of the worlds have contacts.')
ASSUMPTIONS = ['agreement is required to 1e-7 relative, growing tenfold per step; the random '
               'start vertex of the circle-hull search differs between the two runs alone']

TWINS = ['mu', 'mu', 'e', 'm', 'v', 'dt', 'eps', 'forces', 'cons', 'cons']


def fresh(fn):
    """Result of fn in a child process: this process has never simulated anything, so neither
    has the child."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ('ok', fn())
            except BaseException as e:
                out = ('raised', e)
            with os.fdopen(w, 'wb') as fh:
                try:
                    pickle.dump(out, fh)
                except Exception:
                    pickle.dump(('raised', RuntimeError(repr(out[1]))), fh)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    kind, out = pickle.loads(data)
    if kind == 'raised':
        raise out
    return out


def strategy(tier):
    @st.composite
    def mk(draw):
        n = draw(st.integers(2, 4))
        scs = []
        for _ in range(n):
            sc = draw(scenes.scene(over=True, nmin=1, nmax=3, eps=(0.1, 0.1, 0.3), vang=2.0,
                                   gapmax=draw(st.sampled_from([0.099, 0.099, 3.0]))))
            sc['strict'] = not draw(one_in(4))
            sc['ps'] = draw(one_in(4))
            sc['steps'] = draw(st.integers(1, 4))
            sc['seed'] = draw(st.integers(0, 999))
            scs.append(sc)
        if draw(st.booleans()):
            # the same scene twice, or one alike in all but a few of its numbers
            apart = draw(one_in(3))
            if apart:
                # apart, held by static constraints only
                sc = scs[0]
                for i, b in enumerate(sc['bodies']):
                    if 'att' in b:
                        b['att']['gap'] += 10.0
                sc['cons'] = [c for c in sc['cons'] if c['t'] not in ('joint', 'fixed')] or \
                    [dict(t=draw(st.sampled_from(['x', 'y', 'rot'])), a=0)]
            scs[1] = copy.deepcopy(scs[0])
            for what in ['cons'] * (apart and draw(st.booleans())) + \
                    draw(st.lists(st.sampled_from(TWINS), max_size=2)):
                f = draw(st.sampled_from([0.0, 0.5, 0.8, 1.3, 2.0]))
                if what in ('dt', 'eps'):
                    scs[1][what] *= max(f, 0.5)
                if what == 'cons':
                    for c in scs[1]['cons']:
                        c['t'] = dict(x='y', y='rot', rot='x').get(c['t'], c['t'])
                for b in scs[1]['bodies']:
                    if what == 'v':
                        b['v'] = [x * f for x in b['v']]
                    elif what == 'e':
                        b['e'] = min(1.0, b['e'] * f)
                    elif what in ('mu', 'm'):
                        b[what] *= max(f, 0.1)
                    elif what == 'forces':
                        b['forces'] = []
        ops = [i for i in range(n) for _ in range(scs[i]['steps'] + 1)]
        return dict(scenes=scs, ops=list(draw(st.permutations(ops))),
                    back=list(draw(st.permutations(list(range(n))))), grad=draw(one_in(2)))
    return mk()


class Run:
    def __init__(self, sc, poses, grad, salt=0):
        self.sc, self.poses = sc, poses
        self.T = c16.tensors(c16.params(sc, poses), grad)
        self.k = 0
        self.salt = salt
        self.states = []
        self.w = None
        self.n = [0]

    def op(self):
        """Create the world, then one step at a time."""
        random.seed(self.k * 7919 + self.sc['seed'] + self.salt)
        if self.w is None:
            self.w, self.objs = c16.build(self.sc, self.T, self.poses)
        else:
            w = self.w
            orig, n = w.find_contacts, [0]

            def counted():
                n[0] += 1
                if n[0] > 60:
                    raise OutOfDomain('step cut into nothing')
                return orig()
            w.find_contacts = counted
            w.step()
            del w.find_contacts
        self.states.append(np.concatenate(
            [[float(self.w.t), len(self.w.contacts)]] + [np_(o.p) for o in self.objs] +
            [np_(o.v) for o in self.objs]))
        self.k += 1

    def grads(self):
        import torch
        loss = sum((o.p.sum() + 0.1 * (o.v * o.v).sum()) for o in self.objs)
        loss.backward()
        return np.concatenate([np_(t.grad).ravel() if t.grad is not None else np.zeros(t.numel())
                               for _, t in sorted(self.T.items(), key=str)])


def same(a, b, what, tol):
    err = np.abs(a - b) / (1 + np.abs(a).max())
    require(np.all(np.isfinite(b)) or not np.all(np.isfinite(a)), '%s: %s is not finite', what,
            b.tolist())
    require(not err.max() > tol, '%s: %s alone but %s (relative difference %.3g)', what, a.tolist(),
            b.tolist(), err.max())


def check(case, ctx):
    scs = copy.deepcopy(case['scenes'])
    poses = []
    for sc in scs:
        if not sane(sc):
            raise OutOfDomain('degenerate polygon')
        p = scenes.place(sc['bodies'])
        scenes.project_velocities(sc, p, list(range(len(p))))
        poses.append(p)
    grad = case['grad']

    def solo(sc, p):
        rs = []
        for salt in (0, 12345):
            r = Run(sc, p, grad, salt)
            for _ in range(sc['steps'] + 1):
                r.op()
            rs.append((r.states, r.grads() if grad else None))
        return rs

    def together():
        mixed = [Run(sc, p, grad) for sc, p in zip(scs, poses)]
        for i in case['ops']:
            mixed[i].op()
        gs = [None] * len(mixed)
        if grad:
            for i in case['back']:
                if i < len(mixed):
                    gs[i] = mixed[i].grads()
        return [r.states for r in mixed], gs

    alone = []
    for sc, p in zip(scs, poses):
        (one, g1), (two, g2) = fresh(lambda: solo(sc, p))
        for k, (a, b) in enumerate(zip(one, two)):
            same(a, b, 'second run, after step %d' % k, 1e-7 * 10 ** k)
        if grad and np.all(np.isfinite(g1)):
            same(g1, g2, 'second run, gradients', 1e-3)
        alone.append((one, g1))
    mixed, gs = fresh(together)
    for i, (states, g) in enumerate(alone):
        for k, (a, b) in enumerate(zip(states, mixed[i])):
            same(a, b, 'world %d among others, after step %d' % (i, k), 1e-7 * 10 ** k)
        if grad and np.all(np.isfinite(g)):
            same(g, gs[i], 'world %d among others, gradients' % i, 1e-3)
    busy = sum(any(s[1] > 0 for s in r) for r in mixed)
    ctx.label('worlds=%d' % len(mixed))
    ctx.label('with contacts=%d' % busy)
    if grad:
        ctx.label('gradients')
    ctx.nt(busy >= 2)
