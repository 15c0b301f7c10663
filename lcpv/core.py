"""Check runner: sharded Hypothesis search over JSON-able cases, shrinking, replay files,
evidence.  Every random choice is made by Hypothesis, seeded from VERIF_SEED."""
import collections
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
SHARDS = 8
CPU_LIMIT = 25.0          # CPU seconds for one case before its termination is examined
LINE_LIMIT = 20_000_000   # executed lcp_physics lines that count as "does not terminate"
SHRINK_BUDGET = 45.0      # seconds spent making a failure smaller (never decides a verdict)

ENV = dict(OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           SDL_VIDEODRIVER='dummy', SDL_AUDIODRIVER='dummy', MPLBACKEND='Agg',
           PYGAME_HIDE_SUPPORT_PROMPT='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')


class Violation(Exception):
    """The code under test broke the property on this case."""


class OutOfDomain(Exception):
    """The case turned out to be outside of what the property quantifies over."""


class _Hang(BaseException):
    pass


class Ctx:
    """What one execution of a case reports about itself."""

    def __init__(self):
        self.labels = collections.Counter()
        self.nontrivial = False

    def label(self, name, n=1):
        self.labels[name] += n

    def nt(self, cond=True):
        self.nontrivial = self.nontrivial or bool(cond)


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def key_of(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def setup_process():
    sys.path.insert(0, REPO)
    if HYP not in sys.path:
        sys.path.append(HYP)
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(10000)
    import torch
    torch.set_num_threads(1)
    import lcp_physics
    loc = os.path.dirname(os.path.abspath(lcp_physics.__file__))
    if loc != os.path.join(REPO, 'lcp_physics'):
        raise RuntimeError('lcp_physics imported from %s' % loc)


def load(pid):
    return importlib.import_module('lcpv.%s' % pid.lower())


def _confirm_hang(mod, case):
    """Deterministic: count executed source lines of lcp_physics."""
    root = os.path.join(REPO, 'lcp_physics')
    n = [0]

    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
            if n[0] > LINE_LIMIT:
                raise _Hang()
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(root):
            return local
        return None
    _reset_globals(case)
    sys.settrace(tracer)
    try:
        mod.check(case, Ctx())
    except _Hang:
        return True
    except Exception:
        return False
    finally:
        sys.settrace(None)
    return False


def _reset_globals(case):
    import torch
    import numpy as np
    random.seed(int(key_of(case)[:8], 16))
    np.random.seed(1)
    torch.manual_seed(1)


def raised(e, what):
    tb = traceback.extract_tb(e.__traceback__)
    inner = [f for f in tb if '/lcp_physics/' in f.filename] or tb
    return '%s %s: %s (at %s:%s)' % (type(e).__name__, what, str(e)[:300], inner[-1].filename,
                                    inner[-1].lineno)


def execute(mod, case, confirm_hang=True):
    """Run one case.  Returns (ctx, None) or (ctx, message)."""
    ctx = Ctx()
    _reset_globals(case)

    active = [True]

    def on_alarm(sig, frm):
        if active[0]:
            raise _Hang()
    old = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, 'CPU_LIMIT', CPU_LIMIT), 1.0)
    msg = None
    left = False
    swallowed = []

    def unraisable(u):
        # ODE drops exceptions of the contact handler, the simulation goes on without the contact
        if isinstance(u.exc_value, Exception) and not isinstance(u.exc_value, (OutOfDomain, _Hang)):
            swallowed.append(u.exc_value)
    sys.unraisablehook = unraisable
    try:
        mod.check(case, ctx)
    except _Hang:
        msg = 'HANG'
    except OutOfDomain as e:
        left = True
        ctx.label('out-of-domain:' + str(e)[:60])
        ctx.nontrivial = False
    except Violation as e:
        msg = str(e)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        msg = raised(e, 'raised on a valid input')
        if os.environ.get('LCPV_TB'):
            traceback.print_exc()
    finally:
        sys.unraisablehook = sys.__unraisablehook__
        active[0] = False
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    if swallowed and msg is None and not left:
        msg = raised(swallowed[0], 'raised by the contact handler (and dropped by ODE) on a valid '
                     'input')
    elif swallowed:
        ctx.label('exception in the contact handler')
    if msg == 'HANG':
        if confirm_hang and not _confirm_hang(mod, case):
            ctx.label('inconclusive-slow')
            ctx.nontrivial = False
            return ctx, None
        msg = 'does not terminate (more than %d lcp_physics lines executed)' % LINE_LIMIT
    return ctx, msg


def _fewer_copies():
    """Hypothesis follows each example by five variations with parts copied over others; do so
    for one in thirty only, so that most cases are independent draws."""
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner as R
        orig = R.generate_mutations_from
    except (ImportError, AttributeError):
        return
    count = [0]

    def some(self, data):
        count[0] += 1
        if count[0] % 30 == 0:
            orig(self, data)
    R.generate_mutations_from = some


def worker(pid, tier, seed, shard, n, out):
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings
    _fewer_copies()
    mod = load(pid)
    res = dict(evaluations=0, nontrivial=[], labels={}, samples=[], failure=None)
    labels = collections.Counter()
    seen = {}
    failing = {}
    state = dict(first=None, last=None)
    nt_keys = set()

    @hypothesis.seed(int(seed) * 1009 + shard)
    @settings(max_examples=n, database=None, deadline=None, derandomize=False,
              suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
              phases=[Phase.generate, Phase.shrink], verbosity=Verbosity.quiet)
    @given(mod.strategy(tier))
    def test(case):
        # make cases plain JSON so that the replay file is exactly what ran
        case = json.loads(json.dumps(case))
        k = key_of(case)
        if k in failing:
            state['last'] = k
            raise Violation(failing[k][1])
        if state['first'] is not None and time.time() - state['first'] > SHRINK_BUDGET:
            return
        if state['first'] is not None and k in seen:
            return
        note('case', case, 'aborts the process')
        ctx, msg = execute(mod, case, confirm_hang=state['first'] is None)
        if state['first'] is None:
            res['evaluations'] += 1
            labels.update(ctx.labels)
            if ctx.nontrivial:
                nt_keys.add(k)
                if len(res['samples']) < 2:
                    res['samples'].append(case)
        else:
            seen[k] = True
        if msg is not None:
            if state['first'] is None:
                state['first'] = time.time()
            failing[k] = (case, msg)
            state['last'] = k
            note('fail', case, msg)
            raise Violation(msg)

    def note(kind, case, msg):
        # what is left of this process if the code under test aborts it
        with open(out + '.' + kind, 'w') as f:
            json.dump([case, msg], f)

    t0 = time.time()
    try:
        if shard == 0:
            for name, case in corpus_cases(pid):
                note('case', case, 'aborts the process')
                ctx, msg = execute(mod, case)
                res['evaluations'] += 1
                labels.update(ctx.labels)
                labels['corpus'] += 1
                if ctx.nontrivial:
                    nt_keys.add(key_of(case))
                if msg is not None:
                    msg = 'corpus %s: %s' % (name, msg)
                    failing[key_of(case)] = (case, msg)
                    state['last'] = key_of(case)
                    raise Violation(msg)
        test()
    except Violation:
        pass
    except BaseException as e:
        if state['last'] is None:
            res['error'] = traceback.format_exc()
            if isinstance(e, KeyboardInterrupt):
                raise
    if state['last'] is not None:
        case, msg = failing[state['last']]
        res['failure'] = dict(case=case, message=msg)
    res['labels'] = dict(labels)
    res['nontrivial'] = sorted(nt_keys)
    res['wall'] = time.time() - t0
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(out + '.tmp', out)


def corpus_cases(pid):
    d = os.path.join(VERIF, 'corpus', pid)
    if not os.path.isdir(d):
        return []
    return [(f, json.load(open(os.path.join(d, f)))) for f in sorted(os.listdir(d))
            if f.endswith('.json')]


def write_replay(pid, case, msg):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (pid, key_of(case)[:12]))
    with open(path, 'w') as f:
        json.dump(dict(property=pid, message=msg, case=case), f, indent=1)
    return path


def run_check(pid, tier, seed):
    t0 = time.time()
    mod = load(pid)
    total = mod.COUNT[tier]
    shards = SHARDS
    per = -(-total // shards)
    tmp = os.path.join(VERIF, 'evidence', 'tmp-%s-%d' % (pid, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    procs = []
    violations = []
    labels = collections.Counter()
    evaluations = 0
    nontriv = set()
    samples = []
    error = None
    try:
        for s in range(shards):
            out = os.path.join(tmp, '%s-%d.json' % (pid, s))
            log = open(os.path.join(tmp, '%d.log' % s), 'w')
            cmd = [sys.executable, os.path.join(VERIF, 'check.py'), '--worker', pid, tier,
                   str(seed), str(s), str(per), out]
            procs.append((subprocess.Popen(cmd, stdout=log, stderr=log), out, log.name))
        done = {}
        while len(done) < len(procs):
            for i, (p, out, log) in enumerate(procs):
                if i in done:
                    continue
                if p.poll() is None:
                    continue
                if os.path.exists(out):
                    done[i] = json.load(open(out))
                else:
                    done[i] = dead(out, p.returncode, open(log).read()[-3000:])
                r = done[i]
                if r.get('failure'):
                    # one shrunk failure decides; the others need not finish
                    for q, _, _ in procs:
                        if q.poll() is None:
                            q.kill()
            if any(r.get('failure') for r in done.values()):
                break
            time.sleep(0.05)
        for r in done.values():
            if r.get('failure'):
                violations.append((r['failure']['case'], r['failure']['message']))
            if r.get('error') and not violations:
                error = r['error']
            evaluations += r.get('evaluations', 0)
            nontriv.update(r.get('nontrivial', []))
            labels.update(r.get('labels', {}))
            samples += r.get('samples', [])
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    ev = dict(property=pid, tier=tier, seed=int(seed), level='exploration',
              coverage=dict(evaluations=evaluations, distinct_nontrivial=len(nontriv),
                            rule=mod.RULE, samples=samples[:4],
                            labels=dict(sorted(labels.items())), shards=shards),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    d = os.path.join(VERIF, 'evidence')
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for line in known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, line))
    if violations:
        for case, msg in violations[:3]:
            path = write_replay(pid, case, msg)
            print('%s: %s' % (pid, msg))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if error:
        print(error)
        print('%s: the harness failed' % pid)
        return 2
    print('%s: held on %d cases (%d distinct non-trivial) in %.1f s' % (
        pid, evaluations, len(nontriv), time.time() - t0))
    return 0


def dead(out, rc, log):
    """What a worker that died leaves: the failure it was shrinking, or the case that aborts."""
    if os.path.exists(out + '.fail'):
        case, msg = json.load(open(out + '.fail'))
        return dict(failure=dict(case=case, message=msg))
    if rc in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGFPE, -signal.SIGBUS, -signal.SIGILL) \
            and os.path.exists(out + '.case'):
        case, msg = json.load(open(out + '.case'))
        alone = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), '--case',
                                os.path.basename(out).split('-')[0], out + '.case'],
                               capture_output=True, text=True)
        if alone.returncode == rc:
            return dict(failure=dict(case=case, message='%s (signal %d): %s' % (
                msg, -rc, ' '.join(log.split())[-300:])))
    return dict(error='worker died rc=%s\n%s' % (rc, log))


def known_findings(pid):
    path = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            pre = 'known: property=%s ' % pid
            if line.startswith(pre):
                out.append(line[len(pre):])
    return out


def main(argv):
    env_ok = all(os.environ.get(k) == v for k, v in ENV.items())
    if not env_ok or os.path.realpath(sys.executable) != os.path.realpath(PY) \
            and not sys.prefix.startswith('/opt/venv'):
        e = dict(os.environ, **ENV)
        os.execve(PY, [PY, os.path.join(VERIF, 'check.py')] + argv, e)
    setup_process()
    if argv[0] == '--selftest':
        import hypothesis  # noqa: F401
        d = os.path.join(VERIF, 'lcpv')
        mods = sorted(f[:-3] for f in os.listdir(d) if f[0] == 'c' and f[1:3].isdigit())
        for m in mods:
            load(m).strategy('quick')
        print('%d checks load' % len(mods))
        return 0
    if argv[0] == '--worker':
        pid, tier, seed, shard, n, out = argv[1:]
        worker(pid, tier, int(seed), int(shard), int(n), out)
        return 0
    if argv[0] == '--case':
        execute(load(argv[1]), json.load(open(argv[2]))[0])
        return 0
    if argv[0] == '--replay':
        d = json.load(open(argv[1]))
        mod = load(d['property'])
        os.environ['LCPV_TB'] = '1'
        ctx, msg = execute(mod, d['case'])
        print(dict(ctx.labels))
        if msg:
            print('%s: %s' % (d['property'], msg))
            print('VIOLATION property=%s replay=%s' % (d['property'], argv[1]))
            return 1
        print('%s: the property holds on this case' % d['property'])
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1:
        tier = argv[1]
    return run_check(argv[0], tier, os.environ.get('VERIF_SEED', '1'))
