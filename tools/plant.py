#!/usr/bin/env python3
"""plant.py SPEC.py [id ...]: turn bug specs into /verif/seeded/<id>/ and try them: demo on the
clean tree, demo, stable tests and the property's quick check on the changed tree."""
import json
import os
import shutil
import subprocess
import sys

V, R = '/verif', '/repo'
PRE = '''#!/bin/bash
# exit 0: the property holds on this scenario, nonzero: it does not
export SDL_VIDEODRIVER=dummy PYGAME_HIDE_SUPPORT_PROMPT=1 OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore - <<'EOF'
import sys
sys.path.insert(0, '/repo')
import math
import torch
from lcp_physics.lcp.lcp import LCPFunction
from lcp_physics.physics import contacts, engines
from lcp_physics.physics.bodies import Circle, Hull, Rect
from lcp_physics.physics.constraints import (FixedJoint, Joint, RotConstraint, TotalConstraint,
                                             XConstraint, YConstraint)
from lcp_physics.physics.forces import ExternalForce, Gravity, down_force, hor_impulse
from lcp_physics.physics.world import World, run_world
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    assert not sh('git -C %s status --short' % R).stdout, 'repo not clean'
    base = {f: sh('git -C %s blame -s %s' % (R, f)).stdout.splitlines()
            for f in sh('git -C %s ls-files lcp_physics' % R).stdout.split() if f.endswith('.py')}
    root = sh('git -C %s rev-list --max-parents=0 HEAD' % R).stdout.strip()[:7]
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        d = os.path.join(V, 'seeded', b['id'])
        try:
            for f, old, new in b['edits']:
                p = os.path.join(R, f)
                s = open(p).read()
                assert s.count(old) == 1, (b['id'], f, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            diff = sh('git -C %s diff' % R).stdout
            # every removed line must be one of the original repository
            cur, ln, foreign = None, 0, []
            for l in diff.splitlines():
                if l.startswith('--- a/'):
                    cur = l[6:]
                elif l.startswith('@@'):
                    ln = int(l.split('-')[1].split(',')[0].split(' ')[0])
                elif l.startswith('-') and not l.startswith('---'):
                    if not base[cur][ln - 1].lstrip('^').startswith(root[:7]):
                        foreign.append(l)
                    ln += 1
                elif l.startswith(' '):
                    ln += 1
            if os.path.exists('/tmp/x/plant.json'):
                os.remove('/tmp/x/plant.json')
            t = sh('timeout -k 1 60 bash /opt/vp/test.sh /tmp/x/plant.json')
            try:
                failed = json.load(open('/tmp/x/plant.json'))['failed']
            except OSError:
                print('%s: the tests hang' % b['id'], flush=True)
                sh('pkill -9 -f pytest_timeout')
                continue
            os.makedirs(d, exist_ok=True)
            with open(d + '/demo.sh', 'w') as fh:
                fh.write(PRE + b['demo'].strip('\n') + '\nEOF\n')
            os.chmod(d + '/demo.sh', 0o755)
            bad = sh('bash %s/demo.sh' % d, cwd=R, timeout=300)
            c = sh('VERIF_SEED=1 timeout 900 python3 check.py %s quick' % b['property'], cwd=V)
        finally:
            sh('git -C %s checkout -- .' % R)
        with open(d + '/patch.diff', 'w') as fh:
            fh.write(diff)
        good = sh('bash %s/demo.sh' % d, cwd=R, timeout=300)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
                  open(d + '/meta.json', 'w'), indent=1)
        ok = good.returncode == 0 and bad.returncode != 0 and not failed and not foreign
        print('%s: %s  check rc=%d %s' % (b['id'], 'counts' if ok else
                                          'INVALID good=%d bad=%d failed=%s foreign=%s' % (
                                              good.returncode, bad.returncode, failed, foreign),
                                          c.returncode,
                                          'CAUGHT' if c.returncode == 1 else '***MISSED***'),
              flush=True)
        print('    demo:', (bad.stdout + bad.stderr).strip().splitlines()[-1:], flush=True)
        if good.returncode:
            print('    clean:', (good.stdout + good.stderr).strip().splitlines()[-3:])
        print('    ' + '\n    '.join(x[:300] for x in c.stdout.strip().splitlines()[-3:]), flush=True)
        if not ok and '--keep' not in sys.argv:
            shutil.rmtree(d)


main()
