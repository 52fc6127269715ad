"""Plant bugs: python tools/plant.py SPEC.py [ID ...]

SPEC.py holds BUGS, a list of dict(id, prop, edits=[(file, old, new)], demo,
needs, breaks).  Each bug is confirmed in a scratch copy of /repo: the stable
tests pass, the demonstration passes without and fails with it; it is then
kept in /verif/seeded/<id>, and the given checks are run against the copy.
Used by hand while building; no check reads it."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = json.load(open('/opt/vp/BASELINE.json'))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OPENMDAO_REPORTS='0',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')


def tests(d):
    e = dict(ENV, PYTHONPATH=d, OPENMDAO_WORKDIR=d + '/../w')
    subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:dash', '-p', 'no:cacheprovider', '--timeout=300',
                    '-o', 'junit_family=xunit2', '--junitxml=' + d + '/../j.xml', 'omtools'], cwd=d, env=e, capture_output=True)
    out = set()
    for t in ET.parse(d + '/../j.xml').getroot().iter('testcase'):
        if not [c for c in t if c.tag in ('failure', 'error', 'skipped')]:
            out.add((t.get('classname'), t.get('name')))
    return out


def demo(s, d):
    p = subprocess.run(['bash', s + '/demo.sh'], cwd=d, env=dict(ENV, PYTHONPATH=d), capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-500:]


def one(b, checks):
    w = '/tmp/plant_' + b['id']
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + '/w')
    d = w + '/repo'
    subprocess.run(['cp', '-a', os.environ.get('OM_REPO', '/repo'), d], check=True)
    s = os.path.join(HERE, 'seeded', b['id'])
    os.makedirs(s, exist_ok=True)
    try:
        with open(s + '/demo.py', 'w') as f:
            f.write('import os\nimport sys\nsys.path.insert(0, os.getcwd())\n' + b['demo'].lstrip('\n'))
        with open(s + '/demo.sh', 'w') as f:
            f.write('#!/bin/bash\nexport OPENMDAO_REPORTS=0 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                    'W=$(mktemp -d) || exit 2\ntrap \'rm -rf "$W"\' EXIT\nexport OPENMDAO_WORKDIR="$W"\n'
                    '/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        rc0, out0 = demo(s, d)
        t0 = tests(d)
        for f, old, new in b['edits']:
            p = d + '/' + f
            x = open(p).read()
            assert x.count(old) == 1, (b['id'], f, x.count(old))
            open(p, 'w').write(x.replace(old, new))
        t1 = tests(d)
        rc1, out1 = demo(s, d)
        diff = subprocess.run(['git', 'diff'], cwd=d, capture_output=True, text=True).stdout
        open(s + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(s + '/meta.json', 'w'), indent=1)
        mine = lines_ours(b, d)
        ok = rc0 == 0 and rc1 != 0 and not t0 - t1 and len(t0) >= 127 and not mine
        print('%s %s demo %d -> %d, tests lost %d of %d%s' % (b['id'], 'OK' if ok else 'NOT OK', rc0, rc1, len(t0 - t1), len(t0),
                                                           ', touches fix lines %s' % mine if mine else ''))
        if rc0:
            print('   unchanged:', out0)
        if not ok:
            print('   changed:', out1, sorted(t0 - t1)[:5])
        else:
            print('  ', out1.strip().split('\n')[-1][:200])
        for c in checks or [b['prop']]:
            p = subprocess.run([PY, 'run.py', c], cwd=HERE, env=dict(ENV, OM_REPO=d, VERIF_SEED='1'), capture_output=True, text=True)
            last = [x for x in p.stdout.split('\n') if x and not x.startswith('VIOLATION')]
            print('   check %s: rc %d  %s' % (c, p.returncode, (last[0][:220] if p.returncode else '')))
        sys.stdout.flush()
        return ok
    finally:
        shutil.rmtree(w, ignore_errors=True)


def lines_ours(b, d):
    """Removed lines that were not in the original repository (no original line changed)."""
    out = []
    for f in {e[0] for e in b['edits']}:
        bl = subprocess.run(['git', 'blame', '-s', 'HEAD', '--', f], cwd=d, capture_output=True, text=True).stdout.split('\n')
        df = subprocess.run(['git', 'diff', '-U0', '--', f], cwd=d, capture_output=True, text=True).stdout.split('\n')
        import re
        orig = 0
        for x in df:
            m = re.match(r'@@ -(\d+)(?:,(\d+))?', x)
            if m:
                a, n = int(m.group(1)), int(m.group(2) if m.group(2) is not None else 1)
                for i in range(a, a + n):
                    if bl[i - 1].startswith('^') or bl[i - 1].startswith('24067a4'):
                        orig += 1
                    else:
                        out.append('%s:%d' % (f, i))
        if orig:
            out = [o for o in out if not o.startswith(f)]
    return out


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    ids = [a for a in sys.argv[2:] if len(a) > 3]
    checks = [a for a in sys.argv[2:] if len(a) == 3]
    for b in bugs:
        if not ids or b['id'] in ids:
            one(b, checks)
