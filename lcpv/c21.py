"""C21 post stabilization."""
import copy

import numpy as np
from hypothesis import strategies as st

from . import c03, c10, c20, scenes
from .common import history, kick, sane
from .core import OutOfDomain, require
from .oracle import Update, contact_rows, ipm
from .scenes import Sim, one_in, sym, u

COUNT = dict(quick=720, thorough=16000)
RULE = ('Jointed contact-free forests with spin, and jointed contacting clusters, kicks. Every '
        'step is compared with the plain step of a world rebuilt from the same state: velocities '
        'and times must agree, poses too where the plain step leaves no constraint error, the '
        'centre of mass and moment of the displacement of unpinned scenes must stay; constraint '
        'rows keep pinned coordinates. Joint gaps of whole contact-free simulations are compared '
        'with those of plain ones. Non-trivial: stabilization moved a body.')
ASSUMPTIONS = ['contact problems without a reachable solution end the case',
               'joint gaps are compared while the rotation per step stays below 0.3 rad']


def strategy(tier):
    @st.composite
    def mk(draw):
        if draw(st.booleans()):
            sc = draw(c03.strategy(tier))
            sc['hist'] = draw(history(len(sc['bodies']), 2, 10, p=6, vang=3.0))
            sc['free'] = True
            if draw(one_in(2)):
                # a crash elsewhere cuts steps
                sc['order'] += [len(sc['bodies']) + k for k in range(4)]
                for k in range(2):
                    sc['bodies'] += [
                        dict(k='c', r=5.0, a=0.0, m=1.0, e=0.0, mu=0.0, forces=[],
                             at=[-5000.0 - 500 * k, 0.0],
                             v=[0.0, draw(scenes.u(5.0, 300.0)), 0.0]),
                        dict(k='c', r=10.0, a=0.0, m=1.0, e=0.0, mu=0.0, forces=[],
                             at=[-4985.0 - 500 * k + draw(scenes.u(0.2, 12.0)), 0.0],
                             v=[0.0, 0.0, 0.0])]
                    sc['cons'].append(dict(t='total', a=len(sc['bodies']) - 1))
        else:
            sc = draw(scenes.scene(nmax=4, vang=3.0, gapmax=draw(st.sampled_from([0.099, 2.0]))))
            sc['hist'] = draw(history(len(sc['bodies']), 1, 5, p=4))
            sc['free'] = False
        sc['ps'] = True
        return sc
    return mk()


def safe(sim):
    try:
        sim.step()
    except scenes.Stuck:
        raise OutOfDomain('step cut into nothing')


def check(case, ctx):
    sc = copy.deepcopy(case)
    if not sane(sc):
        raise OutOfDomain('degenerate polygon')
    a = Sim(sc)
    sc = a.sc
    tr = c10.Track(a)
    plain = Sim(dict(copy.deepcopy(sc), ps=False)) if sc['free'] else None
    pinned = any(c['t'] in c10.COORD or c['b'] is None for c in a.cons)
    gap_a = gap_p = curve = 0.0
    spin = 0.0
    ix = a.model.index
    for k, ks in enumerate(sc['hist']):
        kick(a, ks)
        # the same state without stabilization
        for q, c in enumerate(a.cons):
            if tr.r[q] is not None:
                got, at = scenes.np_(c['obj'].pos), tr.ends(q, a.p())[0]
                require(np.abs(got - at).max() < 1e-6 * (k + 1) * (1 + np.abs(a.p()).max()),
                        'before step %d: anchor of joint %d is at %s, its first body carries it '
                        'to %s', k, q, got.tolist(), at.tolist())
        d = c20.rebuild(a, sc)
        b = Sim(dict(d, ps=False))
        b.world.t = a.world.t
        ua = Update(a)
        ub = Update(b)
        safe(a)
        safe(b)
        va, vb = a.v(), b.v()
        ua.after(va, a.dt)
        scale = 1 + np.abs(va).max() + np.abs(ua.v0).max()
        err = np.abs(va - vb).max() / scale
        if err > 1e-5 and ua.contacts:
            if not ua.well_behaved():
                raise OutOfDomain('contact problem without a reachable solution')
            if ua.mu.max(initial=0) > 0:
                raise OutOfDomain('restart takes another solution')
        require(err < 1e-5, 'step %d: velocities %s with and %s without stabilization', k,
                va.tolist(), vb.tolist())
        require(abs(float(a.world.t) - float(b.world.t)) < 1e-9,
                'step %d: the step ends at %.12g with and %.12g without stabilization', k,
                float(a.world.t), float(b.world.t))
        took = float(a.world.t) - ua.t0
        # displacement by the stabilization
        pa = a.p()
        dp = pa - (ua.p0 + took * va)
        size = 1 + np.abs(pa).max()
        moved = np.abs(dp).max()
        ctx.nt(moved > 1e-7)
        ctx.label('moved' if moved > 1e-7 else 'not moved')
        # constraint error the plain step leaves: relative velocities at its final poses
        cs = b.contacts()
        Jn, _ = contact_rows(cs, b.model.n)
        sp = b.model.specs
        e = np.array([(sp[c[4]]['e'] + sp[c[5]]['e']) / 2 for c in cs])
        gc = (1 - e) * (Jn @ vb) if len(cs) else np.zeros(0)
        Je = b.Je()
        ge = Je @ vb if len(Je) else np.zeros(0)
        lever = 1 + max(np.abs(Je).max(initial=0), np.abs(Jn).max(initial=0))
        clean = np.abs(ge).max(initial=0) < 1e-9 * scale * lever and \
            gc.min(initial=1e9) > 1e-2 * scale
        if clean:
            ctx.label('no error')
            require(moved < took * 1e-4 * scale + 1e-9 * size,
                    'step %d: stabilization moved %s although the plain step leaves no error', k,
                    dp.tolist())
        # half of the error of all joints and constraints is taken back
        want = -0.5 * took * ge
        tiny = took * 1e-7 * scale * lever + 1e-10 * size * lever
        # a displacement into another body is not carried out
        undone = False
        if cs and moved < 1e-9 * size and len(Je):
            undone = True
            nc = len(cs)
            res, sol = ipm(np.diag(a.model.m), np.zeros(3 * a.model.n), Jn, gc, Je, ge,
                           np.zeros((nc, nc)), iters=25, tau=0.99)
            if sol is not None and res < 1e-8 * scale:
                undone = a.max_depth(b.p() - 0.5 * took * sol[0])[0] > sc.get('tol', 1e-6) - 1e-6
            ctx.label('undone beside contacts' if undone else 'done beside contacts')
        if not cs and moved < 1e-9 * size and len(Je):
            W = Je.T / a.model.m[:, None]
            full = b.p() + W @ np.linalg.pinv(Je @ W) @ want
            undone = a.max_depth(full)[0] > sc.get('tol', 1e-6) - 1e-7
            ctx.label('undone', int(undone))
        if np.linalg.norm(want) > 10 * tiny and not undone:
            ctx.label('half')
            ctx.label('half of a cut step', int(took < 0.9 * a.dt))
            off = np.linalg.norm(Je @ dp - want)
            require(off < 0.25 * np.linalg.norm(want) + tiny,
                    'step %d (of length %.6g): stabilization changes the constraints by %s instead '
                    'of %s', k, took, (Je @ dp).tolist(), want.tolist())
        # what the constraints hold stays
        for c in a.cons:
            for q in c10.COORD.get(c['t'], []):
                i = 3 * c['a'] + q
                require(abs(dp[i]) < took * 1e-6 * scale + 1e-9 * size or bool(cs),
                        'step %d: stabilization moved coordinate %d held by a constraint by %.3g',
                        k, i, dp[i])
        if not pinned and not cs:
            m = a.model.m
            lin = (m * dp).reshape(-1, 3)[:, 1:].sum(0)
            ref = (m * np.abs(dp)).reshape(-1, 3)[:, 1:].sum() + m.max() * 1e-8 * size
            require(np.abs(lin).max() < 1e-6 * ref + m.max() * 1e-9 * size,
                    'step %d: stabilization of joints moved the centre of mass by %s', k,
                    (lin / m[1::3].sum()).tolist())
        if plain is not None:
            kick(plain, ks)
            plain.step()
            for q, c in enumerate(a.cons):
                if c['t'] in ('joint', 'fixed'):
                    gap_a = max(gap_a, tr.gap(q, a.p()))
                    gap_p = max(gap_p, tr.gap(q, plain.p()))
            # the correction is linear: what its own turning of the levers leaves
            curve += max([0.75 * sum(dp[3 * c[x]] ** 2 * np.linalg.norm(tr.r[q][y])
                                     for x, y in (('a', 0), ('b', 1)) if c[x] is not None)
                          for q, c in enumerate(a.cons) if tr.r[q] is not None] + [0.0])
            spin = max([spin] + [abs(x) * a.dt for x in np.concatenate([va[0::3],
                                                                        plain.v()[0::3]])])
            if spin < 0.3 and any(c['t'] in ('joint', 'fixed') for c in a.cons):
                ctx.label('gap compared')
                require(gap_a <= max((0.5 if k == 0 else 1.0) * gap_p + curve, 1e-7 * size),
                        'after step %d joints have opened by %.6g with stabilization but %.6g '
                        'without', k, gap_a, gap_p)
