"""C14 rigid motion and freshness of detection."""
import math

import numpy as np
from hypothesis import strategies as st

from . import geom, pairs, scenes
from .core import OutOfDomain, require
from .scenes import lu, np_, one_in, sym, u

COUNT = dict(quick=1600, thorough=40000)
RULE = ('Three bodies (circle, rectangle, hull in any order, also very elongated ones) in a '
        'non-strict world and a random sequence of set_p, World.set_p, move, contact-free steps '
        'and detections; vertices compared with a rigid transform of the original shape after '
        'every operation, and contacts at the end with those of a freshly built world whose '
        'bodies are constructed in place, the last moves being large or tiny. '
        'Non-trivial: a polygon was turned and contacts exist '
        'at the end.')
ASSUMPTIONS = ['final placements with pair gaps within 1e-6 of eps or ambiguous separating '
               'directions are only judged for rigidity']
FAR = [[0.0, 3000.0, 0.0], [0.0, -3000.0, 0.0], [0.0, 0.0, 3000.0]]


@st.composite
def _case(draw):
    bodies = []
    for k in draw(st.permutations(['c', 'r', 'h'])) if draw(st.booleans()) else \
            [draw(st.sampled_from('rh')), draw(st.sampled_from('crh')), draw(st.sampled_from('rh'))]:
        b = draw(scenes.body(k, 2.0, 20.0))
        if k == 'r' and draw(st.booleans()):
            b['d'] = [draw(u(20.0, 80.0)), draw(u(1.0, 4.0))][::draw(st.sampled_from([1, -1]))]
        b['v'] = [draw(sym(3.0)), draw(sym(30.0)), draw(sym(30.0))]
        bodies.append(b)
    ops = []
    for _ in range(draw(st.integers(0, 7))):
        o = draw(st.sampled_from(['set', 'move', 'step', 'wset', 'det', 'turn', 'vel']))
        i = draw(st.integers(0, 2))
        ops.append([o, i, [draw(sym(9.0)), draw(sym(60.0)), draw(sym(60.0))],
                    draw(st.sampled_from([1 / 30, 0.25, 1.0]))])
    # final placement: bodies 1 and 2 are put against what is placed already
    fin = [[draw(scenes.angle()), draw(sym(100.0)), draw(sym(100.0))]]
    for i in (1, 2):
        fin.append([draw(st.one_of(st.just(0.0), scenes.angle())), draw(st.integers(0, i - 1)),
                    draw(st.one_of(sym(math.pi), st.sampled_from([0.0, 0.5 * math.pi, math.pi,
                                                                  -0.5 * math.pi]))),
                    draw(st.one_of(u(-1.0, 0.09), u(-0.2, 1.0), u(0.03, 0.099)))])
    creep = [draw(st.integers(2, 9)), draw(st.one_of(u(0.005, 0.1), lu(1e-4, 0.2))),
             draw(st.sampled_from(['set', 'wset', 'move'])),
             draw(st.sampled_from([0.0, 0.0, 0.01])), draw(st.booleans())]
    if draw(one_in(6)):
        # bounding boxes as tight as they get, and just about in contact
        for b in bodies:
            if b['k'] != 'c':
                b.update(k='r', d=[draw(u(4.0, 40.0)), draw(u(4.0, 40.0))], a=0.0)
        for f in fin:
            f[0] = 0.0
        for f in fin[1:]:
            f[2] = draw(st.sampled_from([0.0, 0.5 * math.pi, math.pi, -0.5 * math.pi]))
            f[3] = draw(u(0.03, 0.0999))
        creep[1], creep[4] = draw(u(0.02, 0.0999)), True
        creep[3] = 0.0
    return dict(bodies=bodies, ops=ops, fin=fin, creep=creep,
                how=[draw(st.sampled_from(['set', 'wset', 'move', 'step', 'turn', 'creep', 'creep']))
                     for _ in '123'],
                last=draw(st.integers(0, 2)), order=list(draw(st.permutations([0, 1, 2]))))


def strategy(tier):
    return _case()


def rigid(objs, sh, sp, a0, p, what):
    for i, o in enumerate(objs):
        got = np_(o.p)
        require(np.allclose(got, p[i], rtol=1e-12, atol=1e-9),
                '%s: body %d is at %s instead of %s', what, i, got.tolist(), p[i].tolist())
        require(float(o.rot) == got[0] and np.array_equal(np_(o.pos), got[1:]),
                '%s: rotation %s and position %s of body %d are not its pose %s', what,
                float(o.rot), np_(o.pos), i, got)
        if sh[i][0] == 'p':
            want = np.array(sp[i]) @ geom.rot(got[0] - a0[i]).T
            v = np.array([np_(x) for x in o.verts])
            require(v.shape == want.shape and np.abs(v - want).max() < 1e-9 * (1 + np.abs(want).max()),
                    '%s: body %d has vertices %s instead of %s', what, i, v.tolist(),
                    want.tolist())


def contacts(w, objs):
    out = []
    for (n, p1, p2, pen), i, j in w.contacts:
        i = [k for k, o in enumerate(objs) if o is w.bodies[int(i)]][0]
        j = [k for k, o in enumerate(objs) if o is w.bodies[int(j)]][0]
        n, p1, p2 = np_(n), np_(p1), np_(p2)
        if i > j:
            i, j, n, p1, p2 = j, i, -n, p2, p1
        out.append((i, j) + tuple(np.concatenate([n, p1, p2, [float(pen)]]).tolist()))
    return sorted(out, key=lambda c: (c[0], c[1], round(c[4], 4), round(c[5], 4)))


def check(case, ctx):
    import torch
    from lcp_physics.physics.world import World
    if not all(scenes.good_polygon(b['vs']) for b in case['bodies'] if b['k'] == 'h'):
        raise OutOfDomain('degenerate polygon')
    T = lambda x: torch.tensor([float(y) for y in x], dtype=torch.float64)
    specs = case['bodies']
    objs, sh, sp, a0, p = [], [], [], [], []
    for i, b in enumerate(specs):
        o = scenes.make_body(b, FAR[i] if b['k'] == 'h' else [b['a']] + FAR[i][1:])
        objs.append(o)
        s, a = scenes.local_shape(b)
        a = 0.0 if b['k'] == 'h' else b['a']
        sh.append(s)
        a0.append(a)
        p.append(np_(o.p))
        sp.append(np.array([np_(x) for x in o.verts]) if s[0] == 'p' else None)
        if s[0] == 'p':
            # the shape itself, before anything moved
            want = geom.shape_at(s, [a, 0.0, 0.0])[1]
            require(min(np.abs(np.roll(want, k, 0) - sp[-1]).max() for k in range(len(want)))
                    < 1e-9 * (1 + np.abs(want).max()), 'body %d is built as %s instead of %s', i,
                    sp[-1].tolist(), want.tolist())
    order = case['order']
    w = World([objs[o] for o in order], [], strict_no_penetration=False)
    rigid(objs, sh, sp, a0, p, 'start')

    def set_v(i, v):
        allv = np.concatenate([np_(objs[o].v) for o in order])
        k = order.index(i)
        allv[3 * k:3 * k + 3] = v
        w.set_v(T(allv))

    def put(i, q, how):
        """Bring body i to pose q."""
        q = np.array(q, float)
        if how == 'set':
            objs[i].set_p(T(q))
        elif how == 'turn':
            objs[i].set_p(T([q[0], *p[i][1:]]))
            objs[i].set_p(T(q))
        elif how == 'wset':
            allp = np.concatenate([q if o == i else np_(objs[o].p) for o in order])
            w.set_p(T(allp))
        else:
            dt = 0.25
            v = (q - np_(objs[i].p)) / dt
            set_v(i, v)
            objs[i].move(dt)
            set_v(i, [0.0, 0.0, 0.0])
        p[i] = q
    for k, (o, i, x, dt) in enumerate(case['ops']):
        x = np.array(x)
        x[1:] += FAR[i][1:]
        if o in ('set', 'wset', 'move', 'turn'):
            put(i, x, o)
        elif o == 'det':
            w.find_contacts()
        elif o == 'vel':
            set_v(i, [x[0], 5.0, -5.0])
        else:
            w.dt = dt
            vel = [np_(b.v) for b in objs]
            w.step()
            require(not w.contacts, 'contacts between bodies thousands of units apart')
            p = [a + dt * b for a, b in zip(p, vel)]
        rigid(objs, sh, sp, a0, p, 'after operation %d (%s)' % (k, o))
    fin = [case['fin'][0]]
    for i in (1, 2):
        fin.append(pairs.against(sh, fin, sh[i], case['fin'][i]))
    # local shapes of hulls and rectangles refer to rotation a0
    seq = [(i + case['last']) % 3 for i in range(3)]
    for i in seq:
        how = case['how'][i]
        if how == 'creep':
            # the rest of the way in small moves
            m, size, by, turn = case['creep'][:4]
            d = np.array(fin[i][1:]) - np.array(fin[case['fin'][i][1]][1:]) if i else \
                np.array([1.0, 0.0])
            d = d / max(1e-9, np.linalg.norm(d))
            for k in range(m, -1, -1):
                put(i, np.array(fin[i]) + k * size * np.array([turn, d[0], d[1]]), by)
        elif how == 'step':
            # all bodies move through the world's own velocity
            for b in range(3):
                set_v(b, [0, 0, 0])
            set_v(i, (np.array(fin[i]) - np_(objs[i].p)) / 2)
            for b in objs:
                b.move(2.0)
            w.set_v(w.get_v() * 0)
            p[i] = np.array(fin[i])
        else:
            put(i, fin[i], how)
        rigid(objs, sh, sp, a0, p, 'final placement of %d (%s)' % (i, how))
    if case['creep'][4]:
        # and now all of them a little back and forth again, in small moves
        m, size, by, turn, _ = case['creep']
        c = [np.array(f[1:]) for f in [fin[0], fin[1], fin[2]]]
        d = [c[0] - c[1], c[1] - c[0], c[2] - c[case['fin'][2][1]]]
        for k in list(range(m)) + list(range(m, -1, -1)):
            for i in range(3):
                e = k * size * d[i] / max(1e-9, np.linalg.norm(d[i]))
                put(i, np.array(fin[i]) + np.array([k * size * turn, e[0], e[1]]), by)
        rigid(objs, sh, sp, a0, p, 'after creeping')
    w.find_contacts()
    got = contacts(w, objs)
    final = [np_(o.p) for o in objs]
    ws = [geom.shape_at(s, q) for s, q in zip(sh, final)]
    for i in range(3):
        for j in range(i):
            ij = [c for c in got if c[:2] == (j, i)]
            g = geom.signed_gap(ws[i], ws[j])
            if ij:
                require(g <= 0.1 + 1e-7 or 'c' not in (ws[i][0], ws[j][0]),
                        'contact of bodies %d, %d %.9g apart', i, j, g)
            else:
                require(not scenes.must_touch(ws[i], ws[j], 0.1) or g > 0.1 - 1e-6,
                        'no contact of bodies %d and %d with gap %.9g', j, i, g)
    if geom.ambiguous(ws, 0.1):
        ctx.label('tie')
        return
    fresh = []
    for b, q, s, a in zip(specs, final, sh, a0):
        if b['k'] == 'h':
            from lcp_physics.physics.bodies import Hull
            V = s[1] @ geom.rot(q[0] - a).T
            fresh.append(Hull([float(x) for x in q[1:]], [[float(x) for x in v] for v in V]))
        else:
            fresh.append(scenes.make_body(b, q.tolist()))
    w2 = World([fresh[o] for o in order], [], strict_no_penetration=False)
    want = contacts(w2, fresh)
    ctx.label('contacts=%d' % min(4, len(got)))
    require([c[:2] for c in got] == [c[:2] for c in want],
            'contacts %s where bodies built in place have %s', got, want)
    for c, d in zip(got, want):
        require(np.abs(np.array(c) - np.array(d)).max() < 1e-6,
                'contact %s where bodies built in place have %s', c, d)
    ctx.nt(bool(got))
