"""C20 the state of the bodies determines the future."""
import copy

import numpy as np
from hypothesis import strategies as st

from . import geom, scenes
from .c17 import contact_list, inv_order, lawful, match, near_tol
from .common import history, kick, sane
from .core import OutOfDomain, require
from .oracle import Update
from .scenes import Sim, one_in, sym, u

COUNT = dict(quick=1000, thorough=20000)
RULE = ('Scenes of 1-5 bodies with contacts, joints, constraints, time-dependent forces, kicks; '
        'after a random number of steps a new world is built from the poses, velocities, time and '
        'joint anchors of the running one (hulls from their current vertices), or (scenes without '
        'joints) the same bodies are set back to the state of an earlier step; both continue for 1-4 '
        'steps with the same kicks and are compared after every step. Frictions and restitutions '
        'are changed on the way in half of the cases. Non-trivial: a contact or joint acted after the restart.')
ASSUMPTIONS = ['cases end at ties between separating edges and where the length of a step hangs '
               'on rounding', 'a rebuilt world gets the time of the old one']


def strategy(tier):
    @st.composite
    def mk(draw):
        sc = draw(scenes.scene(over=True, nmin=1, nmax=4, vang=3.0, eps=(0.1, 0.1, 0.3),
                               gapmax=draw(st.sampled_from([0.099, 0.099, 2.0]))))
        n = len(sc['bodies'])
        for b in sc['bodies']:
            if not b.get('forces') and draw(one_in(3)):
                b['forces'] = [draw(scenes.gravity_or_force())]
        sc['ps'] = draw(one_in(3))
        sc['strict'] = not draw(one_in(5))
        sc['before'] = draw(st.sampled_from([1, 2, 3, 4] if sc['ps'] else [0, 0, 1, 1, 2, 3, 5]))
        sc['hist'] = draw(history(n, 2, 9, p=2))
        sc['mode'] = draw(st.sampled_from(['rebuild', 'rebuild', 'back']))
        sc['back'] = draw(st.sampled_from([0, 0, 1, 2, 4]))
        if draw(st.integers(0, 4)) > 2:
            # a start between two edges, returned to from elsewhere
            sc.update(tied(draw), hist=draw(history(2, 2, 5, p=4)))
            n = len(sc['bodies'])
            sc['visit'] = [[[draw(scenes.angle()), draw(sym(30.0)), draw(sym(30.0))]
                            for _ in range(n)] for _ in range(draw(st.integers(1, 3)))]
        # material changed by the user while the simulation runs
        sc['change'] = [[draw(st.integers(0, 8)), draw(st.integers(0, n - 1)),
                         draw(st.sampled_from(['mu', 'e'])),
                         draw(st.one_of(u(0.0, 1.0), st.just(0.0)))]
                        for _ in range(draw(st.integers(1, 4)) if draw(one_in(2)) else 0)]
        return sc
    return mk()


def tied(draw):
    bodies = [draw(scenes.body('rh', 5.0, 20.0)), draw(scenes.body('rh', 5.0, 20.0))]
    bodies[1]['tie'] = dict(k=draw(st.integers(0, 6)),
                            s=draw(st.one_of(u(-6.0, 0.0), u(-1.0, 0.05))),
                            d=draw(scenes.lu(1e-4, 0.1)) * draw(st.sampled_from([1, -1])))
    return dict(bodies=bodies, cons=[], order=draw(st.permutations([0, 1])), strict=False,
                mode='back', back=0, before=draw(st.integers(0, 2)), ps=False)


def rebuild(sim, sc):
    """Scene whose start is the present state of sim."""
    d = copy.deepcopy(sc)
    d['proj'] = False
    P = {i: sim.p()[3 * j:3 * j + 3] for i, j in sim.model.index.items()}
    V = {i: sim.v()[3 * j:3 * j + 3] for i, j in sim.model.index.items()}
    for i, b in enumerate(d['bodies']):
        b.pop('att', None)
        b.pop('tie', None)
        b['at'] = P[i][1:].tolist()
        b['v'] = V[i].tolist()
        if b['k'] == 'h':
            b['vs'] = geom.shape_at(scenes.local_shape(b)[0], [P[i][0], 0.0, 0.0])[1].tolist()
        else:
            b['a'] = float(P[i][0])
    for c, o in zip(d['cons'], sim.cons_objs):
        if c['t'] == 'joint':
            c['f'] = 0.0
            c['off'] = (scenes.np_(o.pos) - P[c['a']][1:]).tolist()
    return d


def change(sim, changes, k):
    for when, i, what, x in changes:
        if when == k and i < len(sim.objs):
            name = dict(mu='fric_coeff', e='restitution')[what]
            setattr(sim.objs[i], name, getattr(sim.objs[i], name) * 0 + x)
            sim.sc['bodies'][i][what] = x


def safe(sim):
    try:
        sim.step()
    except scenes.Stuck:
        raise OutOfDomain('step cut into nothing')


def check(case, ctx):
    import torch
    sc = copy.deepcopy(case)
    if not sane(sc):
        raise OutOfDomain('degenerate polygon')
    if sc['mode'] != 'rebuild':
        sc['cons'] = [c for c in sc['cons'] if c['t'] not in ('joint', 'fixed')]
    n = len(sc['bodies'])
    a = Sim(sc)
    sc = a.sc
    states = []

    def snap(s):
        return s.p(), s.v(), float(s.world.t)
    hist = sc['hist']
    first = min(sc['before'], len(hist) - 1)
    for k, ks in enumerate(hist[:first]):
        kick(a, ks)
        change(a, sc['change'], k)
        states.append(snap(a))
        safe(a)
    states.append(snap(a))
    ctx.label(sc['mode'])
    rest = hist[first:][:4]
    angles = np.zeros(n)
    if sc['mode'] == 'rebuild':
        d = rebuild(a, sc)
        b = Sim(d)
        b.world.t = a.world.t
        for i in range(n):
            # rotation coordinates restart where the body was built
            if d['bodies'][i]['k'] == 'h':
                angles[i] = a.p()[3 * a.model.index[i]]
    else:
        # an earlier state, continued by the same bodies
        p0, v0, t0 = states[min(sc['back'], len(states) - 1)]
        d = rebuild(a, sc)
        for i, x in enumerate(d['bodies']):
            j = a.model.index[i]
            x['at'] = p0[3 * j + 1:3 * j + 3].tolist()
            x['v'] = v0[3 * j:3 * j + 3].tolist()
            if x['k'] == 'h':
                x['vs'] = geom.shape_at(a.model.shapes[j], [p0[3 * j], 0.0, 0.0])[1].tolist()
                angles[i] = p0[3 * j]
            else:
                x['a'] = float(p0[3 * j])
        b = Sim(d)
        b.world.t = t0
        for ps in sc.get('visit', []):
            a.world.set_p(torch.tensor(np.concatenate(ps)))
            a.world.find_contacts()
        a.world.set_p(torch.tensor(p0))
        a.world.set_v(torch.tensor(v0))
        a.world.t = t0
        a.world.find_contacts()
    tol = 1e-6
    for k, ks in enumerate(rest):
        kick(a, ks)
        kick(b, ks)
        change(a, sc['change'], first + k)
        change(b, sc['change'], first + k)
        ws = a.model.world_shapes(a.p())
        if geom.ambiguous(ws, sc['eps'], a.excluded, 1e-6, 1e-6):
            raise OutOfDomain('tie')
        ca, cb = contact_list(a), contact_list(b)
        diff = match(ca, cb, tol)
        require(diff is not None, 'step %d after the restart: contacts %s but restarted %s', k,
                [(c[0], c[1], c[2].tolist()) for c in ca],
                [(c[0], c[1], c[2].tolist()) for c in cb])
        require(diff < 100 * tol, 'step %d after the restart: contacts differ by %.3g', k, diff)
        ua, ub = Update(a), Update(b)
        ctx.nt(bool(ua.contacts) or any(c['t'] in ('joint', 'fixed') for c in sc['cons']))
        safe(a)
        safe(b)
        ua.after(a.v(), a.dt)
        ub.after(b.v(), b.dt)
        va, vb = inv_order(a, a.v()), inv_order(b, b.v())
        ms = np.sqrt(np.concatenate([[scenes.inertia(x), x['m'], x['m']] for x in sc['bodies']]))
        scale = max(np.abs(ms * va).max(), np.abs(ms * inv_order(a, ua.v0)).max(), ms.max())
        err = np.abs(ms * (va - vb)).max() / scale
        if err > tol:
            if not (ua.well_behaved() and ub.well_behaved()):
                raise OutOfDomain('contact problem without a reachable solution')
            if ua.mu.max(initial=0) > 0 and lawful(ua) and lawful(ub):
                raise OutOfDomain('several solutions')
        require(err < tol, 'step %d after the restart: velocities %s but restarted %s (%.3g)', k,
                va.tolist(), vb.tolist(), err)
        if near_tol(a, ua):
            raise OutOfDomain('length of the step hangs on rounding')
        require(abs(float(a.world.t) - float(b.world.t)) < 1e-9,
                'step %d after the restart: time %.12g but restarted %.12g', k, float(a.world.t),
                float(b.world.t))
        pa, pb = inv_order(a, a.p()), inv_order(b, b.p())
        pb[0::3] += angles
        perr = np.abs(pa - pb).max() / (1 + np.abs(pa).max())
        require(perr < 10 * tol, 'step %d after the restart: poses %s but restarted %s (%.3g)', k,
                pa.tolist(), pb.tolist(), perr)
        tol = min(1e-3, tol * 20)
