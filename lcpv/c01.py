"""C01 the LCP solver solves mixed LCPs."""
import numpy as np
from hypothesis import strategies as st

from . import lcpgen
from .oracle import ipm
from .core import OutOfDomain, require

COUNT = dict(quick=1600, thorough=30000)
RULE = ('(a) batches of 1-4 problems of 1-6 unknowns, 1-7 inequalities, 0-3 equalities, F zero, '
        'PSD, skew or both, constructed from a drawn primal-dual solution (unique x), with '
        'active, inactive, weakly active and duplicated rows; (b) random contact-structured '
        'problems with friction, a half of them with redundant contacts along flat sides, judged by an '
        'impulse certificate; default and other iteration limits, also far beyond convergence. Non-trivial: some row is '
        'active at the solution.')
ASSUMPTIONS = ['Q positive definite, equality rows independent (smallest singular value > 0.1)',
               'contact-structured problems on which a textbook interior-point method does not '
               'converge are left out (counted)']


@st.composite
def _case(draw):
    opts = draw(st.sampled_from([{}, {}, {'max_iter': 30}, {'max_iter': 60, 'not_improved_lim': 40},
                                 {'max_iter': 150, 'not_improved_lim': 150, 'eps': 0.},
                                 {'max_iter': 25, 'not_improved_lim': 6}]))
    if draw(st.integers(0, 3)) == 0:
        n = draw(st.sampled_from([3, 6, 9]))
        k = draw(st.integers(1, 6))
        return dict(raw=draw(lcpgen.raw(n, k, draw(st.integers(0, min(3, n - 1))))),
                    opts=opts)
    nz = draw(st.integers(1, 6))
    m = draw(st.integers(1, 7))
    ne = draw(st.integers(0, min(3, nz - 1)))
    kind = draw(st.sampled_from(['zero', 'psd', 'skew', 'mixed']))
    nb = draw(st.sampled_from([1, 1, 2, 3, 4]))
    kinds = [kind] + [draw(st.sampled_from([kind, 'zero', 'psd', 'skew', 'mixed']))
                      for _ in range(nb - 1)]
    return dict(known=[draw(lcpgen.known(nz, m, ne, q)) for q in kinds], opts=opts)


def strategy(tier):
    return _case()


def check(case, ctx):
    if 'raw' in case:
        r = lcpgen.Raw(case['raw'])
        if len(r.J) and np.linalg.svd(r.J, compute_uv=False).min() < 0.1:
            raise OutOfDomain('dependent equalities')
        prob = r.lcp()
        x, same = lcpgen.solve([prob], **case.get('opts', {}))
        require(same, 'inputs were modified')
        r.after(-x[0], r.dt)
        act = r.slack < r.tau
        ctx.nt(act.any())
        ctx.label('raw')
        bad = None
        # certificates are judged on problems of unit scale
        if not np.all(np.isfinite(x)):
            bad = 'solution is not finite'
        elif r.eq_resid() > 1e-6:
            bad = 'equality rows violated: %s' % (r.J @ r.v1).tolist()
        elif r.slack.min() < -3 * r.tau:
            bad = 'inequality violated: %s' % r.slack.tolist()
        elif r.cone_resid('coulomb') > 2e-4:
            bad = 'no multipliers fit the solution (distance %.3g)' % r.cone_resid('coulomb')
        if bad:
            if not r.well_behaved():
                raise OutOfDomain('contact problem without a reachable solution')
            require(False, '%s; x = %s', bad, x.tolist())
        return
    built = [lcpgen.build(d) for d in case['known']]
    if not all(lcpgen.ok(pr) for pr, _ in built):
        raise OutOfDomain('badly scaled rows')
    probs = [pr for pr, _ in built]
    ctx.label('F=' + case['known'][0]['kind'])
    ctx.nt(any((sol[2] > 0).any() for _, sol in built))
    single = []
    for pr, sol in built:
        x, same = lcpgen.solve([pr], **case.get('opts', {}))
        require(same, 'inputs were modified')
        judge(x[0], pr, sol, 'single problem')
        single.append(x[0])
    if len(probs) > 1:
        ctx.label('batch')
        xs, same = lcpgen.solve(probs, **case.get('opts', {}))
        require(same, 'inputs were modified')
        require(xs.shape == (len(probs), len(probs[0][1])), 'shape %s', xs.shape)
        for i, (pr, sol) in enumerate(built):
            judge(xs[i], pr, sol, 'member %d of a batch of %d' % (i, len(probs)))


def close(got, x, tol):
    return got is not None and np.abs(got[0] - x).max() < tol


def judge(x, pr, sol, what):
    tol = 2e-5 * (1 + np.abs(sol[0]).max() + np.sqrt(np.abs(sol[2]).max()))
    good = np.all(np.isfinite(x)) and np.abs(x - sol[0]).max() < tol
    if not good and not all(close(ipm(*pr, iters=16, tau=t)[1], sol[0], tol / 20)
                            for t in (0.99, 0.999, 0.9995)):
        raise OutOfDomain('no interior-point method converges comfortably')
    require(good,
            '%s: solver returned %s, the solution is %s', what, x.tolist(), sol[0].tolist())
