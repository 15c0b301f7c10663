"""C18 pairs that may not collide."""
import math

import numpy as np
from hypothesis import strategies as st

from . import geom, pairs, scenes
from .c17 import match
from .common import sane
from .core import OutOfDomain, require
from .scenes import np_, one_in, sym, u

COUNT = dict(quick=1600, thorough=40000)
RULE = ('Overlapping and touching clusters of 2-6 bodies with random sets of excluded pairs, '
        'declared from either side, once or repeatedly, before or after the world is '
        'built, with joints between some, for both contact handlers (circles only for the ODE one); after the start and after every '
        'move the contacts are compared with those of an identical world without exclusions, '
        'less the excluded pairs. Also bodies flying through an excluded partner in a strict '
        'world. Non-trivial: an excluded pair would have been in contact and another pair is.')
ASSUMPTIONS = ['placements with ties between separating edges are judged by existence only']


@st.composite
def _case(draw):
    ode = draw(one_in(5))
    through = draw(one_in(4))
    n = 2 if through else draw(st.integers(2, 6))
    bodies = []
    for i in range(n):
        b = draw(scenes.body('c' if ode else 'crh', 3.0, 15.0))
        if bodies:
            b['att'] = dict(to=draw(st.integers(0, i - 1)), ang=draw(sym(math.pi)),
                            gap=draw(st.one_of(u(-4.0, 0.0), u(0.0, 0.09), u(-0.5, 1.0))))
        bodies.append(b)
    pairs = [[i, j] for i in range(n) for j in range(i)]
    nc = []
    for p in pairs:
        if draw(one_in(3)):
            d = draw(st.sampled_from(['a', 'b', 'ab', 'aa', 'ba']))
            nc.append([*p, d, draw(st.sampled_from(['before', 'before', 'after', 'later']))])
    if through:
        nc = [[1, 0, draw(st.sampled_from(['a', 'b', 'ab'])),
               draw(st.sampled_from(['before', 'after']))]]
        if nc[0][3] == 'after':
            bodies[1]['att']['gap'] = abs(bodies[1]['att']['gap']) + 0.01
    # joints say nothing about contacts
    joints = [[*p, draw(st.sampled_from(['joint', 'joint', 'fixed']))] for p in pairs
              if not through and draw(one_in(4))]
    return dict(bodies=bodies, nc=nc, ode=ode, joints=joints, through=through,
                order=list(draw(st.permutations(list(range(n))))),
                steps=draw(st.integers(0, 3)) if not through else draw(st.integers(2, 12)),
                speed=draw(u(5.0, 400.0)))


def strategy(tier):
    return _case()


def listing(w, objs):
    out = []
    for (n, p1, p2, pen), i, j in w.contacts:
        i = [k for k, o in enumerate(objs) if o is w.bodies[int(i)]][0]
        j = [k for k, o in enumerate(objs) if o is w.bodies[int(j)]][0]
        n, p1, p2 = np_(n), np_(p1), np_(p2)
        if i > j:
            i, j, n, p1, p2 = j, i, -n, p2, p1
        out.append((i, j, np.concatenate([n, p1, p2, [float(pen)]])))
    return out


def declare(objs, i, j, how):
    for d in how:
        if d == 'a':
            objs[i].add_no_contact(objs[j])
        else:
            objs[j].add_no_contact(objs[i])


def check(case, ctx):
    import torch
    from lcp_physics.physics.world import World
    if not sane(case):
        raise OutOfDomain('degenerate polygon')
    poses, local = [], []
    for b in case['bodies']:
        sh, a = scenes.local_shape(b)
        if not poses:
            poses.append([a, 0.0, 0.0])
        else:
            t = b['att']
            poses.append(pairs.against(local, poses, sh, [a, t['to'], t['ang'], t['gap']]))
        local.append(sh)
    n = len(poses)
    kw = dict(contact_callback='OdeContactHandler' if case['ode'] else 'DiffContactHandler',
              strict_no_penetration=case['through'])
    if case['through']:
        d = np.array(poses[0][1:]) - np.array(poses[1][1:])
        ln = np.linalg.norm(d)
        d = d / ln if ln > 1e-9 else np.array([1.0, 0.0])
        case['bodies'][1]['v'][1:] = (d * case['speed']).tolist()
        case['bodies'][0]['v'][1:] = (-0.3 * d * case['speed']).tolist()

    def build():
        return [scenes.make_body(b, p) for b, p in zip(case['bodies'], poses)]
    objs = build()
    later = []
    active = set()
    for i, j, how, when in case['nc']:
        if when == 'before':
            declare(objs, i, j, how)
            active.add((min(i, j), max(i, j)))
    cons = [scenes.make_constraint(dict(t=t, a=i, b=j), objs, poses)
            for i, j, t in case.get('joints', [])]
    if cons:
        ctx.label('jointed pairs')
    w = World([objs[o] for o in case['order']], cons, **kw)
    plain = build()
    twin = World([plain[o] for o in case['order']], [], **dict(kw, strict_no_penetration=False))
    shapes = [scenes.local_shape(b)[0] for b in case['bodies']]
    v0 = [np_(o.v) for o in objs]
    seen = dict(hidden=False, shown=False)

    def compare(what):
        for o, q in zip(objs, plain):
            q.set_p(o.p.clone())
        twin.find_contacts()
        got = listing(w, objs)
        full = listing(twin, plain)
        want = [c for c in full if c[:2] not in active]
        for c in got:
            require(c[:2] not in active, '%s: contact of the excluded pair %s', what, c[:2])
        seen['hidden'] |= len(want) < len(full)
        seen['shown'] |= bool(want)
        ws = [geom.shape_at(s, np_(o.p)) for s, o in zip(shapes, objs)]
        if geom.ambiguous(ws, 0.1):
            require({c[:2] for c in got} == {c[:2] for c in want},
                    '%s: contacts of pairs %s instead of %s', what, [c[:2] for c in got],
                    [c[:2] for c in want])
            return
        diff = match(got, want, 0)
        require(diff is not None, '%s: contacts of pairs %s instead of %s', what,
                [c[:2] for c in got], [c[:2] for c in want])
        require(diff < 1e-6, '%s: contacts differ by %.3g from those without exclusions', what,
                diff)
    compare('at the start')
    for when in ('after', 'later'):
        for i, j, how, wh in case['nc']:
            if wh == when:
                declare(objs, i, j, how)
                active.add((min(i, j), max(i, j)))
                w.find_contacts()
                compare('after declaring %d, %d' % (i, j))
        for k in range(case['steps']):
            if case['through'] and when == 'later':
                break
            t = float(w.t)
            if case['through']:
                w.step()
            else:
                # overlapping bodies have no solvable contact problem: move them by hand
                for o in objs:
                    o.move(0.01 * (k + 1))
                w.find_contacts()
            if case['through']:
                require(all(np.abs(np_(o.v) - v).max() < 1e-9 * (1 + np.abs(v).max())
                            for o, v in zip(objs, v0)),
                        'step %d: an excluded pair changed its velocities from %s to %s', k,
                        [v.tolist() for v in v0], [np_(o.v).tolist() for o in objs])
                require(abs(float(w.t) - t - w.dt) < 1e-9, 'step %d of an excluded pair took %.9g', k,
                        float(w.t) - t)
            compare('after step %d' % k)
    ctx.label('through' if case['through'] else 'ode' if case['ode'] else 'cluster')
    ctx.nt(seen['hidden'] and (seen['shown'] or case['through']))
