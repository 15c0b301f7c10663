"""C25 argument forms, defaults and precision."""
import copy

import numpy as np
from hypothesis import strategies as st

from . import scenes
from .common import sane
from .core import OutOfDomain, require
from .scenes import np_, one_in, sym, u

COUNT = dict(quick=480, thorough=16000)
RULE = ('Scenes of 1-4 bodies with joints, constraints, forces and contacts, 1-5 steps, built once '
        'with every argument spelled out as Python numbers and once with a drawn form per '
        'argument (list, tuple, numpy array, tensor; left out where it is the default; two or '
        'three coordinates) and, in half of the cases, in single precision. All quantities of '
        'bodies and world are compared at every step. Non-trivial: contacts or joints, and at '
        'least two forms.')
ASSUMPTIONS = ['single precision runs are compared until their contacts or step lengths part '
               'from the double precision run (rounding at a threshold)']
BODY_ARGS = ['pos', 'size', 'vel', 'mass', 'restitution', 'fric_coeff', 'eps']
DEFAULTS = dict(vel=[0.0, 0.0, 0.0], mass=1.0, restitution=0.5, fric_coeff=0.9, eps=0.1)
DT, TOL, G, PUSH = 1.0 / 30, 1e-6, 10.0, 100.0
FORMS = ['py', 'py', 'tuple', 'np', 't', 't']


def strategy(tier):
    @st.composite
    def mk(draw):
        single = draw(st.booleans())
        sc = draw(scenes.scene(nmin=1, nmax=3, vang=2.0, mass=(0.3, 10.0), smin=6.0,
                               gapmax=draw(st.sampled_from([0.099, 0.099, 2.0])),
                               dts=(1 / 30, 1 / 30, 0.05), eps=(0.1, 0.1, 0.3)))
        for b in sc['bodies']:
            if single and 'att' in b:
                b['att']['gap'] = max(b['att']['gap'], 0.012)
            b['form'] = {a: draw(st.sampled_from(FORMS)) for a in BODY_ARGS}
            b['default'] = [a for a in ('vel', 'mass', 'restitution', 'fric_coeff')
                            if draw(one_in(4))]
            b['default'] += ['eps'] if draw(st.booleans()) else []
            b['short'] = draw(st.booleans())
            if single:
                b['form'][draw(st.sampled_from([a for a in BODY_ARGS if a not in b['default']]))] = 't'
            b['names'] = []
            if draw(one_in(3)):
                b['names'] = draw(st.lists(st.sampled_from(
                    ['down', 'vert', 'hor', 'rot', 'push', 'gravity']), min_size=1, max_size=2))
                b['mult'] = draw(u(1.0, 100.0))
        sc['strict'] = not draw(one_in(4))
        sc['ps'] = draw(one_in(5))
        sc['steps'] = draw(st.integers(1, 5))
        sc['single'] = single
        sc['forms'] = [draw(st.sampled_from(['py', 'tuple', 'np', 't'])) for _ in sc['cons']]
        sc['omit'] = [draw(st.booleans()) for _ in range(6)]
        sc['byname'] = draw(st.booleans())
        return sc
    return mk()


def shape_form(x, form, dtype):
    import torch
    if form == 'py':
        return x
    if form == 'tuple':
        return tuple(shape_form(y, form, dtype) for y in x) if isinstance(x, (list, tuple)) else x
    if form == 'np':
        return np.array(x, float)
    return torch.tensor(x, dtype=dtype)


def named_force(name, mult):
    """The same force in its short and in its long form."""
    import torch
    from lcp_physics.physics import forces as F
    vec = dict(down=[0, 0, 1], vert=[0, 0, 1], hor=[0, 1, 0], rot=[1, 0, 0], push=[0, 0, 1])
    if name == 'gravity':
        return F.Gravity(), F.Gravity(G)
    v = torch.tensor(vec[name], dtype=torch.float64)
    if name in ('down', 'push'):
        long = F.ExternalForce(lambda t: v, multiplier=PUSH if name == 'push' else mult)
        return F.ExternalForce() if name == 'push' else F.ExternalForce(F.down_force, mult), long
    fn = dict(vert=F.vert_impulse, hor=F.hor_impulse, rot=F.rot_impulse)[name]
    return F.ExternalForce(fn, mult), F.ExternalForce(lambda t: v * (1.0 if t < 0.1 else 0.0), mult)


def make(b, pose, drawn, dtype):
    from lcp_physics.physics.bodies import Circle, Hull, Rect
    args = dict(vel=list(b['v']), mass=b['m'], restitution=b['e'], fric_coeff=b['mu'],
                eps=b['eps'])
    if b['k'] == 'c':
        cls, args['pos'], args['size'] = Circle, list(pose), b['r']
    elif b['k'] == 'r':
        cls, args['pos'], args['size'] = Rect, list(pose), list(b['d'])
    else:
        cls, args['pos'], args['size'] = Hull, b['ref'], [list(v) for v in b['vs']]
    if drawn:
        for a in b['default']:
            del args[a]
        if b['short'] and 'vel' in args and args['vel'][0] == 0:
            args['vel'] = args['vel'][1:]
        if b['short'] and b['k'] != 'h' and pose[0] == 0:
            args['pos'] = args['pos'][1:]
        args = {a: shape_form(x, b['form'][a], dtype) for a, x in args.items()}
        GIVEN.extend((b['k'] + ' ' + a, x, copy.deepcopy(x)) for a, x in args.items())
    o = cls(args.pop('pos'), args.pop('size'), **args)
    for f in b.get('forces', []):
        o.add_force(scenes.make_force(f) if dtype is None else single_force(f, dtype))
    for name in b['names']:
        o.add_force(named_force(name, b['mult'])[0 if drawn else 1])
    return o


def single_force(f, dtype):
    import torch
    from lcp_physics.physics.forces import ExternalForce, Gravity
    if f['t'] == 'g':
        return Gravity(f['g'])
    vec = torch.tensor(f['f'], dtype=dtype)
    return ExternalForce(lambda t: vec * scenes.time_factor(f, t), multiplier=f['mult'])


GIVEN = []         # arguments of the bodies of this case, and what they were


def untouched(when):
    import torch
    for name, x, was in GIVEN:
        pairs = zip(x, was) if isinstance(x, (list, tuple)) else [(x, was)]
        for y, z in pairs:
            same = torch.equal(y, z) if isinstance(y, torch.Tensor) else np.array_equal(y, z)
            require(same, '%s: the argument %s became %s, it was %s', when, name, x, was)


def build(sc, poses, drawn, dtype):
    from lcp_physics.physics import contacts, engines
    from lcp_physics.physics.constraints import Joint
    from lcp_physics.physics.world import World
    objs = [make(b, p, drawn, dtype if drawn else None) for b, p in zip(sc['bodies'], poses)]
    cons = []
    for c, form in zip(sc['cons'], sc['forms']):
        if c['t'] == 'joint':
            at = scenes.joint_anchor(c, poses)
            cons.append(Joint(objs[c['a']], None if c.get('b') is None else objs[c['b']],
                              shape_form(at, form, dtype) if drawn else at))
        else:
            cons.append(scenes.make_constraint(c, objs, poses))
        if c.get('b') is not None:
            objs[c['a']].add_no_contact(objs[c['b']])
    kw = dict(dt=sc['dt'], eps=sc['eps'], tol=sc['tol'], strict_no_penetration=sc['strict'],
              post_stab=sc['ps'], constraints=cons)
    if drawn:
        usual = dict(dt=DT, eps=0.1, tol=TOL, strict_no_penetration=True, post_stab=False,
                     constraints=[])
        for (k, x), omit in zip(usual.items(), sc['omit']):
            if omit and kw[k] == x:
                del kw[k]
        if sc['byname']:
            kw['engine'] = engines.PdipmEngine
            kw['contact_callback'] = 'DiffContactHandler'
    else:
        kw['engine'] = 'PdipmEngine'
        kw['contact_callback'] = contacts.DiffContactHandler
    return World([objs[o] for o in sc['order'] if o < len(objs)], kw.pop('constraints'), **kw) \
        if not drawn or 'constraints' in kw else World([objs[o] for o in sc['order']], **kw), objs


def quantities(w, objs):
    out = {}
    for i, o in enumerate(objs):
        for name in ('p', 'rot', 'pos', 'v', 'M', 'mass', 'ang_inertia', 'restitution',
                     'fric_coeff', 'eps'):
            out['body %d %s' % (i, name)] = getattr(o, name)
        out['body %d force' % i] = o.apply_forces(w.t)
        if hasattr(o, 'verts'):
            for k, v in enumerate(o.verts):
                out['body %d vertex %d' % (i, k)] = v
        else:
            out['body %d radius' % i] = o.rad
    out['v'], out['M'] = w.get_v(), w.M()
    if w.joints:
        out['Je'] = w.Je()
    return out


def compare(case, a, b, dtype, tol, when):
    for k, x in a.items():
        y = b[k]
        require(y.dtype == dtype, '%s: %s has dtype %s, not %s', when, k, y.dtype, dtype)
        x, y = np_(x), np_(y)
        require(x.shape == y.shape, '%s: %s has shape %s, not %s', when, k, y.shape, x.shape)
        err = np.abs(x - y).max() / (1 + np.abs(x).max()) if x.size else 0.0
        require(not err > tol, '%s: %s is %s, not %s (error %.3g)', when, k, y.tolist(), x.tolist(),
                err)


def check(case, ctx):
    import torch
    sc = copy.deepcopy(case)
    if not sane(sc):
        raise OutOfDomain('degenerate polygon')
    single = sc['single']
    dtype = torch.float32 if single else torch.float64
    sc['tol'] = 1e-3 if single else TOL
    for b in sc['bodies']:
        for a in b['default']:
            if a == 'vel':
                b['v'] = list(DEFAULTS[a])
            elif a != 'eps':
                b[dict(mass='m', restitution='e', fric_coeff='mu')[a]] = DEFAULTS[a]
        b['eps'] = DEFAULTS['eps'] if 'eps' in b['default'] else sc['eps']
    if single:
        for b in sc['bodies']:
            round32(b)
    poses = scenes.place(sc['bodies'])
    scenes.project_velocities(sc, poses, list(range(len(poses))))
    if single:
        poses = [[float(np.float32(x)) for x in p] for p in poses]
    for b, p in zip(sc['bodies'], poses):
        if any(b['v']) and 'vel' in b['default']:
            b['default'].remove('vel')
        if single:
            b['v'] = [float(np.float32(x)) for x in b['v']]
        if b['k'] == 'h':
            b['ref'] = (np.array(p[1:]) - scenes.geom.centroid(np.array(b['vs'], float))).tolist()
    try:
        w0, o0 = build(sc, poses, False, dtype)
    except AssertionError:
        raise OutOfDomain('start not accepted')
    GIVEN.clear()
    w1, o1 = build(sc, poses, True, dtype)
    untouched('at the start')
    forms = {b['form'][a] for b in sc['bodies'] for a in BODY_ARGS}
    ctx.label('single' if single else 'double')
    tol = 1e-5 if single else 1e-9
    compare(sc, quantities(w0, o0), quantities(w1, o1), dtype, tol, 'at the start')
    touched = bool(sc['cons'])
    order = [o for o in sc['order'] if o < len(o0)]
    held = {order.index(c[x]) for c in sc['cons'] for x in 'ab' if c.get(x) is not None}
    for k in range(sc['steps']):
        c0, c1 = summary(w0), summary(w1)
        if c0 != c1:
            require(single, 'before step %d: contacts are %s instead of %s', k, c1, c0)
            ctx.label('parted')
            break
        touched = touched or bool(c0)
        if single and any(i in held and j in held for i, j in c0):
            # impulses need not be unique, the precision decides which ones are found
            ctx.label('contact of two held bodies')
            break
        step(w0)
        step(w1)
        if abs(w0.t - w1.t) > 1e-9:
            require(single, 'after step %d the time is %s instead of %s', k, w1.t, w0.t)
            ctx.label('parted')
            break
        tol *= 10
        if c0 and single:
            tol = CONTACT
        compare(sc, quantities(w0, o0), quantities(w1, o1), dtype, tol, 'after step %d' % k)
        if tol >= CONTACT:
            break
    untouched('at the end')
    ctx.nt(touched and len(forms) > 1)


CONTACT = 6e-2     # accuracy of the contact solver in single precision


def summary(w):
    return sorted((int(c[1]), int(c[2])) for c in w.contacts)


def step(w):
    orig, n = w.find_contacts, [0]

    def counted():
        n[0] += 1
        if n[0] > 60:
            raise OutOfDomain('step cut into nothing')
        return orig()
    w.find_contacts = counted
    w.step()
    del w.find_contacts


def round32(b):
    def r(x):
        return [r(y) for y in x] if isinstance(x, list) else float(np.float32(x))
    for k in ('r', 'd', 'a', 'vs', 'm', 'e', 'mu', 'v'):
        if k in b:
            b[k] = r(b[k])
    for f in b.get('forces', []):
        for k in ('g', 'f', 'mult'):
            if k in f:
                f[k] = r(f[k])
