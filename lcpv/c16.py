"""C16 end-to-end gradients."""
import numpy as np
from hypothesis import strategies as st

from . import geom, scenes
from .common import history
from .core import OutOfDomain, require
from .oracle import Update
from .scenes import np_, one_in, sym, u

COUNT = dict(quick=560, thorough=16000)
RULE = ('Scenes of 1-4 bodies with contacts, joints, constraints, forces, kicks, 1-5 steps. Loss: '
        'random weights (of sizes from 1e-6 to 1e4) on final poses and velocities. Parameters: masses, radii, dimensions, '
        'vertices, reference points, joint positions, poses, velocities, frictions, restitutions, force vectors and '
        'gravity. The derivative along a random direction in a drawn subset of them is compared '
        'with central differences at two step lengths. Non-trivial: a contact or joint is '
        'involved and the derivative is not negligible.')
ASSUMPTIONS = ['cases whose differences do not agree (an event or kink within the difference '
               'step) are skipped and counted',
             'contacts that are jammed by constraints and start to slide under the least change '
             'of the parameters (no regular contact problem) are not judged']
KINDS = ['m', 'size', 'pose', 'v', 'mu', 'e', 'f', 'j']
H = 2e-5


def strategy(tier):
    @st.composite
    def mk(draw):
        one = draw(st.integers(0, 4)) == 0
        sc = draw(scenes.scene(over=True, nmin=1 if one else 2, nmax=3, vang=2.0,
                               gapmax=draw(st.sampled_from([0.099, 0.099, 2.0])),
                               smin=6.0, mass=(0.3, 10.0), dts=(1 / 30, 0.05)))
        for b in sc['bodies']:
            if 'att' in b:
                # the perturbed scenes have to start free of penetration as well
                if sc.get('tol', 0) < 0.01:
                    b['att']['gap'] = max(b['att']['gap'], 0.012)
            if draw(one_in(3)):
                b['v'][0] = 0.0
            if b['k'] == 'r' and draw(one_in(3)):
                b['a'] = 0.0
            if not b.get('forces') and draw(one_in(3)):
                b['forces'] = [draw(scenes.gravity_or_force())]
        for k in draw(st.sampled_from(['', '', 'e', 'v', 'ev'])):
            # the values themselves vanish, their influence does not
            for b in sc['bodies']:
                b[k] = 0.0 if k == 'e' else [0.0, 0.0, 0.0]
        sc['strict'] = not draw(one_in(5))
        sc['ps'] = draw(one_in(4))
        sc['steps'] = draw(st.integers(1, 5))
        sc['hist'] = draw(history(len(sc['bodies']), sc['steps'], sc['steps'], p=4))
        k = draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=3, unique=True))
        sc['wrt'] = sorted(k) if draw(st.booleans()) else KINDS
        sc['seed'] = draw(st.integers(0, 9999))
        sc['loss'] = draw(st.sampled_from(['all', 'p', 'v']))
        sc['lscale'] = draw(st.sampled_from([1.0, 1.0, 1e-6, 1e4]))
        return sc
    return mk()


def params(sc, poses):
    """Named numpy parameters of the scene."""
    out = {}
    for i, (b, p) in enumerate(zip(sc['bodies'], poses)):
        out['m', i] = np.array(float(b['m']))
        out['e', i] = np.array(float(b['e']))
        out['mu', i] = np.array(float(b['mu']))
        out['v', i] = np.array(b['v'], float)
        if b['k'] == 'c':
            out['size', i] = np.array(float(b['r']))
            out['pose', i] = np.array(p, float)
        elif b['k'] == 'r':
            out['size', i] = np.array(b['d'], float)
            out['pose', i] = np.array(p, float)
        else:
            vs = np.array(b['vs'], float)
            off = np.array(b.get('off', [0.0, 0.0]))
            out['size', i] = vs + off
            out['pose', i] = np.array(p[1:]) - geom.centroid(vs) - off
        for k, f in enumerate(b.get('forces', [])):
            out['f', i, k] = np.array(float(f['g']) if f['t'] == 'g' else f['f'])
    for k, c in enumerate(sc['cons']):
        if c['t'] == 'joint':
            out['j', k] = np.array(scenes.joint_anchor(c, poses), float)
    return out


def build(sc, T, poses):
    from lcp_physics.physics.bodies import Circle, Hull, Rect
    from lcp_physics.physics.forces import ExternalForce, Gravity
    from lcp_physics.physics.world import World
    objs = []
    for i, b in enumerate(sc['bodies']):
        kw = dict(vel=T['v', i], mass=T['m', i], restitution=T['e', i], fric_coeff=T['mu', i],
                  eps=sc['eps'])
        if b['k'] == 'c':
            o = Circle(T['pose', i], T['size', i], **kw)
        elif b['k'] == 'r':
            o = Rect(T['pose', i], T['size', i], **kw)
        else:
            o = Hull(T['pose', i], [T['size', i][k] for k in range(len(b['vs']))], **kw)
        for k, f in enumerate(b.get('forces', [])):
            x = T['f', i, k]
            if f['t'] == 'g':
                o.add_force(Gravity(x))
            else:
                def fn(t, x=x, f=f):
                    return x * scenes.time_factor(f, t)
                o.add_force(ExternalForce(fn, multiplier=f['mult']))
        objs.append(o)
    cons = [make_constraint(c, objs, poses, T.get(('j', k))) for k, c in enumerate(sc['cons'])]
    for c in sc['cons']:
        if c.get('b') is not None:
            objs[c['a']].add_no_contact(objs[c['b']])
    w = World([objs[o] for o in sc['order'] if o < len(objs)], cons, dt=sc['dt'], eps=sc['eps'],
              tol=sc.get('tol', 1e-6),
              strict_no_penetration=sc['strict'], post_stab=sc['ps'])
    return w, objs


def make_constraint(c, objs, poses, anchor):
    from lcp_physics.physics.constraints import Joint
    if c['t'] != 'joint':
        return scenes.make_constraint(c, objs, poses)
    return Joint(objs[c['a']], None if c.get('b') is None else objs[c['b']], anchor)


def run(sc, T, poses, kicks, tie=None, stuck=None):
    """Final poses and velocities (in order of the scene) and what happened on the way."""
    import torch
    w, objs = build(sc, T, poses)
    trace = []
    where = {id(o): k for k, o in enumerate(objs)}
    shapes = [scenes.local_shape(b)[0] for b in sc['bodies']]
    nc = {frozenset((c['a'], c['b'])) for c in sc['cons'] if c.get('b') is not None}
    for k in range(sc['steps']):
        if tie is not None:
            ws = [geom.shape_at(s, np_(o.p)) for s, o in zip(shapes, objs)]
            if geom.ambiguous(ws, sc['eps'], nc, 1e-7, 0.0):
                tie.append(k)
        if kicks[k] is not None:
            dv = torch.cat([torch.tensor(kicks[k][where[id(b)]]) for b in w.bodies])
            w.set_v(w.get_v() + dv)
        t, met = float(w.t), len(w.contacts)
        Jf = w.Jf().detach() if stuck is not None and w.contacts else None
        orig, n = w.find_contacts, [0]

        def counted():
            n[0] += 1
            if n[0] > 60:
                raise OutOfDomain('step cut into nothing')
            return orig()
        w.find_contacts = counted
        w.step()
        del w.find_contacts
        if Jf is not None:
            # which of the contacts are sliding after the step
            stuck.append((np.abs(np_(Jf @ w.get_v())) > 1e-9).tolist())
        trace.append((round(float(w.t) - t, 9), n[0],
                      tuple(sorted((where[id(w.bodies[int(c[1])])], where[id(w.bodies[int(c[2])])])
                                   for c in w.contacts)), met))
    return torch.cat([o.p for o in objs]), torch.cat([o.v for o in objs]), trace


def tensors(P, grad):
    import torch
    return {k: torch.tensor(x, dtype=torch.float64, requires_grad=grad) for k, x in P.items()}


def solvable(sc, kicks):
    """Do all contact problems on the way have a solution the solver can reach?"""
    import torch
    sim = scenes.Sim(dict(sc, nc=[]))
    ix = sim.model.index
    for k in range(sc['steps']):
        if kicks[k] is not None:
            v = sim.v()
            for i, d in enumerate(kicks[k]):
                v[3 * ix[i]:3 * ix[i] + 3] += d
            sim.world.set_v(torch.tensor(v))
        u = Update(sim)
        sim.step()
        if u.contacts and not u.after(sim.v(), sim.dt).well_behaved():
            return False
    return True


def jammed(sc, P, D, poses, kicks):
    """Do contacts that stick start to slide under the least change of the parameters?  Such a
    contact is held by more active rows than there are degrees of freedom: the problem is not
    regular and its multipliers are not determined."""
    import torch
    seen = []
    for s in (0.0, H, -H):
        stuck = []
        Q = {k: x + s * D[k] if k in D else x for k, x in P.items()}
        with torch.no_grad():
            run(sc, tensors(Q, False), poses, kicks, stuck=stuck)
        seen.append(stuck)
    return any(not a and b for x in seen[1:] for f0, f1 in zip(seen[0], x)
               for a, b in zip(f0, f1))


def check(case, ctx):
    import copy
    from .common import sane
    sc = copy.deepcopy(case)
    if not sane(sc):
        raise OutOfDomain('degenerate polygon')
    poses = scenes.place(sc['bodies'])
    n = len(poses)
    scenes.project_velocities(sc, poses, list(range(n)))
    kicks = []
    for ks in sc['hist']:
        if not ks:
            kicks.append(None)
            continue
        d = np.zeros((n, 3))
        for i, *x in ks:
            if len(x) == 4:
                if x[0] == i:
                    continue
                to = np.array(poses[x[0]][1:]) - np.array(poses[i][1:])
                to = to * x[1] / max(1e-9, np.linalg.norm(to))
                x = [x[2], to[0], to[1]]
            d[i] = x
        kicks.append(d)
    kicks += [None] * sc['steps']
    P = params(sc, poses)
    tie = []
    try:
        run(sc, tensors(P, False), poses, kicks, tie)
    except AssertionError:
        raise OutOfDomain('start not accepted')
    wrt = sc['wrt']
    if tie:
        # two edges are exactly parallel: derivatives with respect to the geometry are one of
        # several, so only what the contacts of the first step do not depend on is judged
        ctx.label('parallel edges')
        if tie[0] == 0:
            wrt = [k for k in wrt if k not in ('pose', 'size')]
        later = [k for k in tie if k > 0]
        if later:
            sc['steps'] = later[0]
        if sc['ps']:
            raise OutOfDomain('parallel edges during stabilization')
    rs = np.random.RandomState(sc['seed'])
    wp, wv = rs.randn(3 * n), rs.randn(3 * n) * 0.3
    if sc['loss'] == 'p':
        wv *= 0
    elif sc['loss'] == 'v':
        wp *= 0
    unit = dict(m=1.0, size=1.0, pose=1.0, v=10.0, mu=0.3, e=0.3, f=3.0, j=1.0)
    D = {}
    for k, x in P.items():
        if k[0] in wrt:
            D[k] = rs.randn(*x.shape) * unit[k[0]]
            if k[0] == 'm':
                D[k] = D[k] * x
            if k[0] == 'size':
                D[k] *= 0.3 * (np.abs(x).max() if sc['bodies'][k[1]]['k'] != 'h' else 3.0)
    if not D:
        raise OutOfDomain('nothing to differentiate')

    import torch
    TP, TV = torch.tensor(wp), torch.tensor(wv)

    def value(s):
        Q = {k: x + s * D[k] if k in D else x for k, x in P.items()}
        with torch.no_grad():
            p, v, tr = run(sc, tensors(Q, False), poses, kicks)
            return float((p * TP).sum() + (v * TV).sum()), tr
    T = tensors(P, True)
    try:
        p, v, tr = run(sc, T, poses, kicks)
    except AssertionError:
        raise OutOfDomain('start not accepted')
    loss = (p * TP).sum() + (v * TV).sum()
    try:
        f = {s: value(s) for s in (H, -H, H / 2, -H / 2)}
    except AssertionError:
        raise OutOfDomain('start not accepted')
    touched = any(t[3] for t in tr) or any(c['t'] in ('joint', 'fixed') for c in sc['cons'])
    if any(x[1] != tr for x in f.values()):
        ctx.label('event inside the difference')
        return
    f0 = float(loss)
    d1 = (f[H][0] - f[-H][0]) / (2 * H)
    d2 = (f[H / 2][0] - f[-H / 2][0]) / H
    fw, bw = (f[H][0] - f0) / H, (f0 - f[-H][0]) / H
    fw2, bw2 = (f[H / 2][0] - f0) / (H / 2), (f0 - f[-H / 2][0]) / (H / 2)
    best = d2
    scale = 1e-1 + max(abs(best), abs(d1))
    spread = max(abs(d1 - d2), abs(fw2 - bw2), abs(fw - bw) / 2)
    # the gradient is linear in the loss
    ls = sc.get('lscale', 1.0)
    (loss * ls).backward()
    g = 0.0
    parts = {}
    for k, d in D.items():
        G = T[k].grad
        if G is None:
            continue
        G = np_(G) / ls
        require(np.all(np.isfinite(G)), 'gradient with respect to %s is %s', k, G.tolist())
        parts[str(k)] = float((G * d).sum())
        g += parts[str(k)]
    if spread > 2e-3 * scale:
        ctx.label('kink or rough')
        return
    ctx.nt(touched and abs(best) > 1e-3)
    ctx.label('contacts' if any(t[3] for t in tr) else 'no contacts')
    if sc['cons']:
        ctx.label('constraints')
    mag = scale + 1e-3 * sum(abs(x) for x in parts.values())
    if abs(g - best) >= 2e-2 * mag and not solvable(sc, kicks):
        raise OutOfDomain('contact problem without a reachable solution')
    if abs(g - best) >= 2e-2 * mag and jammed(sc, P, D, poses, kicks):
        raise OutOfDomain('jammed contact starts to slide')
    require(abs(g - best) < 2e-2 * mag,
            'derivative along the direction is %.9g, gradient gives %.9g (differences %.9g, %.9g, '
            'one-sided %.9g, %.9g); parts %s', best, g, d1, d2, fw, bw,
            {k: round(x, 6) for k, x in parts.items()})
