"""C24 running, recording and drawing."""
import copy
import math
import os
import random
import shutil
import tempfile
import time

import numpy as np
from hypothesis import strategies as st

from . import geom, scenes
from .common import sane
from .core import OutOfDomain, require
from .scenes import Sim, np_, lu, one_in, u

COUNT = dict(quick=480, thorough=10000)
RULE = ('Scenes of all body and constraint kinds run by run_world bare, with a screen, or with a '
        'screen and recorder, any run time, recording interval, animation interval, scale and '
        'window position, some interrupted by a quit event; compared with stepping by hand. '
        'Recorders alone with arbitrary time sequences. Drawn outlines compared with the '
        'projected shapes. Non-trivial: several steps or several frames.')
ASSUMPTIONS = ['SDL dummy driver; time.sleep is replaced by a stand-in, wall clock is not judged',
               'frames are written to a scratch directory that is removed']
SIZE = (640, 480)


def beside(dt, t, most=8):
    return st.tuples(st.integers(1, most), lu(1e-8, 3e-3), st.sampled_from([1, -1])).map(
        lambda x: t + x[0] * dt + x[1] * x[2])


@st.composite
def _case(draw):
    if draw(one_in(4)):
        t, ts = 0.0, []
        for _ in range(draw(st.integers(1, 25))):
            t += draw(st.one_of(u(0.0, 0.05), u(0.0, 0.4), st.just(1 / 30)))
            ts.append(t)
        return dict(what='recorder', ts=ts, dt=draw(u(0.005, 0.3)), deep=draw(st.booleans()))
    sc = draw(scenes.scene(nmin=1, nmax=3, smin=4.0, smax=20.0))
    if draw(st.booleans()):
        # something to draw for every kind of constraint
        sc['cons'] += [dict(t=draw(st.sampled_from(['x', 'y', 'rot'])),
                            a=len(sc['bodies']) - 1)]
    sc['what'] = 'run'
    sc['mode'] = draw(st.sampled_from(['bare', 'screen', 'record', 'record']))
    sc['start_t'] = draw(st.one_of(st.just(0.0), u(0.0, 0.2)))
    dt = sc['dt'] = draw(st.one_of(st.just(1 / 30), u(0.01, 0.1)))
    # run times and intervals anywhere, or just beside the end of a step
    sc['run'] = draw(st.one_of(u(0.0, 0.35), u(0.05, 0.35), beside(dt, sc['start_t'])))
    sc['rec'] = draw(st.one_of(u(0.01, 0.15), beside(dt, 0.0, 4)))
    sc['anim'] = draw(st.one_of(st.none(), u(0.001, 0.2)))
    sc['ppm'] = draw(st.sampled_from([1, 1, 2, 0.5]))
    sc['quit'] = draw(one_in(4))
    sc['twice'] = draw(one_in(4))
    sc['at'] = [draw(u(200.0, 400.0)), draw(u(150.0, 300.0))]
    sc['print'] = draw(st.booleans())
    return sc


def strategy(tier):
    return _case()


def display():
    import pygame
    if not pygame.display.get_init():
        pygame.display.init()
    if pygame.display.get_surface() is None:
        pygame.display.set_mode(SIZE)
    pygame.event.clear()
    s = pygame.display.get_surface()
    s.fill((255, 255, 255))
    return s


def frames_model(ts, dt):
    """Indices into ts at which a frame is written."""
    prev, out = 0.0, []
    for i, t in enumerate(ts):
        if abs(t - prev - dt) < 1e-9:
            raise OutOfDomain('time at the recording interval')
        if t - prev > dt:
            out.append(i)
            prev += dt
    return out


def files(path):
    return sorted(os.listdir(path), key=lambda f: (len(f), f))


def recorder(case, ctx, tmp):
    import pygame
    from lcp_physics.physics.utils import Recorder
    path = os.path.join(tmp, 'a', 'b') if case['deep'] else tmp
    s = pygame.Surface((8, 8))
    rec = Recorder(case['dt'], s, path=path)
    require(os.path.isdir(path), 'recorder did not make its directory')
    want = frames_model(case['ts'], case['dt'])
    n = 0
    for i, t in enumerate(case['ts']):
        s.fill((i * 7 % 256, i * 3 % 256, 99))
        rec.record(t)
        n += i in want
        require(len(os.listdir(path)) == n, '%d frames after times %s with interval %g instead of %d',
                len(os.listdir(path)), case['ts'][:i + 1], case['dt'], n)
    require(files(path) == ['%d.bmp' % k for k in range(n)], 'frames are named %s', files(path))
    for k, i in enumerate(want):
        c = tuple(pygame.image.load(os.path.join(path, '%d.bmp' % k)).get_at((3, 3)))[:3]
        require(c == (i * 7 % 256, i * 3 % 256, 99), 'frame %d shows %s, not the picture of time %g',
                k, c, case['ts'][i])
    ctx.label('recorder')
    ctx.nt(n >= 2)


def boxes(rects):
    r = [x for x in rects if x is not None and x.w > 0 and x.h > 0]
    if not r:
        return None
    return r[0].unionall(r[1:])


def outline(sim, screen, ppm, ctx):
    """Everything is drawn where it is."""
    import pygame
    p = sim.p()
    ws = sim.model.world_shapes(p)
    for b, s in zip(sim.world.bodies, ws):
        screen.fill((255, 255, 255))
        before = (np_(b.p), np_(b.v))
        box = boxes(b.draw(screen, pixels_per_meter=ppm))
        require(np.array_equal(before[0], np_(b.p)) and np.array_equal(before[1], np_(b.v)),
                'drawing changed the state of a body')
        if s[0] == 'c':
            pts = np.array([s[1] + s[2] * np.array([math.cos(t), math.sin(t)])
                            for t in np.arange(0, 6.28, 0.05)])
        else:
            pts = s[1]
        pts = pts * ppm
        lo, hi = pts.min(0), pts.max(0)
        if lo.min() < 3 or hi[0] > SIZE[0] - 4 or hi[1] > SIZE[1] - 4:
            continue
        ctx.label('outlines')
        require(box is not None, 'a body inside the window was not drawn')
        got = np.array([box.left, box.top, box.right - 1, box.bottom - 1], float)
        want = np.concatenate([lo, hi])
        require(np.abs(got - want).max() <= 3.0, 'a body with bounds %s was drawn in %s (scale %g)',
                want.tolist(), got.tolist(), ppm)
    for j in sim.world.joints:
        screen.fill((255, 255, 255))
        box = boxes(j[0].draw(screen, pixels_per_meter=ppm))
        b1 = np_(j[0].body1.pos) * ppm
        at = np_(j[0].pos) * ppm
        if type(j[0]).__name__ == 'FixedJoint':
            at = (b1 + np_(j[0].body2.pos) * ppm) / 2
        if at.min() < 8 or at[0] > SIZE[0] - 9 or at[1] > SIZE[1] - 9 or \
                (type(j[0]).__name__ == 'FixedJoint' and min(b1.min(), (2 * at - b1).min()) < 0):
            continue
        require(box is not None, 'a joint inside the window was not drawn')
        c = np.array([box.left + box.right - 1, box.top + box.bottom - 1]) / 2
        if type(j[0]).__name__ == 'FixedJoint' and (max(b1[0], 2 * at[0] - b1[0]) > SIZE[0] or
                                                    max(b1[1], 2 * at[1] - b1[1]) > SIZE[1]):
            continue
        require(np.abs(c - at).max() <= 3.0, 'a joint at %s was drawn around %s', at.tolist(),
                c.tolist())


def check(case, ctx):
    import contextlib
    import io
    tmp = tempfile.mkdtemp(prefix='lcpv-c24-')
    sleep = time.sleep
    try:
        time.sleep = lambda s: None
        with contextlib.redirect_stdout(io.StringIO()):
            if case['what'] == 'recorder':
                recorder(case, ctx, tmp)
            else:
                run(case, ctx, tmp)
    finally:
        time.sleep = sleep
        shutil.rmtree(tmp)


def run(case, ctx, tmp):
    import pygame
    from lcp_physics.physics.utils import Recorder
    from lcp_physics.physics.world import run_world
    sc = copy.deepcopy(case)
    if not sane(sc):
        raise OutOfDomain('degenerate polygon')
    # pinning twice makes the constraints dependent
    seen, cons = set(), []
    for c in sc['cons']:
        k = (c['t'], c['a'])
        pinned = {q['t'] for q in cons if q['a'] == c['a'] and q.get('b') is None}
        if c['t'] in ('x', 'y', 'rot') and (k in seen or pinned & {'total', 'joint'}):
            continue
        seen.add(k)
        cons.append(c)
    sc['cons'] = cons
    if any(c['t'] in ('joint', 'fixed') for c in cons):
        sc['cons'] = [c for i, c in enumerate(cons)
                      if not (c['t'] in ('x', 'y', 'rot') and i == len(cons) - 1)]
    sc['bodies'][0]['at'] = case['at']
    a, b = Sim(sc), Sim(copy.deepcopy(sc))
    a.world.t = b.world.t = case['start_t']
    stepper = b
    ts = []
    random.seed(1)
    quit_ = case['quit'] and case['mode'] != 'bare'
    while float(b.world.t) < case['run']:
        try:
            stepper.step()
        except scenes.Stuck:
            raise OutOfDomain('step cut into nothing')
        ts.append(float(b.world.t))
        if len(ts) > 60:
            raise OutOfDomain('too many steps')
        if quit_:
            break
    if any(abs(t - case['run']) < 1e-9 for t in ts):
        raise OutOfDomain('step ends at the run time')
    screen = display() if case['mode'] != 'bare' else None
    rec = Recorder(case['rec'], screen, path=tmp) if case['mode'] == 'record' else None
    if rec is not None:
        want = frames_model(ts, case['rec'])
        if quit_:
            want = []
    if quit_:
        pygame.event.post(pygame.event.Event(pygame.QUIT))
    random.seed(1)
    kw = dict(run_time=case['run'], print_time=case['print'], screen=screen, recorder=rec,
              pixels_per_meter=case['ppm'])
    if case['anim'] is not None:
        kw['animation_dt'] = case['anim']
    run_world(a.world, **kw)
    what = '%s run to %g' % (case['mode'], case['run'])
    require(abs(float(a.world.t) - float(b.world.t)) < 1e-9, '%s ended at %.9g instead of %.9g',
            what, float(a.world.t), float(b.world.t))
    scale = 1 + np.abs(b.p()).max() + np.abs(b.v()).max()
    require(np.abs(a.p() - b.p()).max() < 1e-7 * scale and
            np.abs(a.v() - b.v()).max() < 1e-7 * scale,
            '%s: state %s %s but stepping by hand gives %s %s', what, a.p().tolist(),
            a.v().tolist(), b.p().tolist(), b.v().tolist())
    if rec is not None:
        require(files(tmp) == ['%d.bmp' % k for k in range(len(want))],
                '%s: frames %s instead of %d, steps ended at %s, interval %g', what, files(tmp),
                len(want), ts, case['rec'])
        ctx.label('frames', len(want))
    if case['twice']:
        run_world(a.world, run_time=case['run'], print_time=False) if not quit_ else None
        if not quit_:
            require(float(a.world.t) == float(a.world.t) and
                    abs(float(a.world.t) - float(b.world.t)) < 1e-9,
                    '%s: a second run to the same time went on', what)
    if screen is not None:
        outline(a, screen, case['ppm'], ctx)
    ctx.label(case['mode'] + (' quit' if quit_ else ''))
    ctx.nt(len(ts) >= 2)
