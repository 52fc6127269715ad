"""Run TLC on the modules of /verif/spec and collect what they print."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

from . import env

JARS = '/opt/veriftools/tla/tla2tools.jar'


class TLCError(Exception):
    """TLC could not run, or found an error in the specification itself."""


class Result:
    def __init__(self, rows, states, distinct, wall, cmd, out):
        self.rows, self.states, self.distinct = rows, states, distinct
        self.wall, self.cmd, self.out = wall, cmd, out


def cfg(constants=None, spec='Spec', invariants=(), properties=(), constraints=(), extra=''):
    """Text of a TLC configuration."""
    def val(v):
        if isinstance(v, bool):
            return 'TRUE' if v else 'FALSE'
        if isinstance(v, str):
            return '"%s"' % v
        if isinstance(v, (set, frozenset)):
            return '{' + ', '.join(val(x) for x in sorted(v, key=str)) + '}'
        return str(v)
    t = ''
    for k, v in (constants or {}).items():
        t += 'CONSTANT %s = %s\n' % (k, val(v))
    t += 'SPECIFICATION %s\n' % spec
    for i in invariants:
        t += 'INVARIANT %s\n' % i
    for p in properties:
        t += 'PROPERTY %s\n' % p
    for c in constraints:
        t += 'CONSTRAINT %s\n' % c
    return t + 'CHECK_DEADLOCK FALSE\n' + extra


def run(module, config, args=(), workers=None, timeout=600, files=None, heap='4g'):
    """Run TLC.  Lines that the specification prints as "J<json>" are returned
    parsed.  Any error of TLC (parse, invariant, assumption) raises TLCError:
    it is an error of the specification, never of the implementation."""
    d = tempfile.mkdtemp(prefix='tlc_', dir=env.SCRATCH)
    try:
        sd = os.path.join(env.VERIF, 'spec')
        for f in os.listdir(sd):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(sd, f), d)
        for name, text in (files or {}).items():
            with open(os.path.join(d, name), 'w') as fh:
                fh.write(text)
        with open(os.path.join(d, 'run.cfg'), 'w') as fh:
            fh.write(config)
        cmd = ['tlc', '-workers', str(workers or min(8, env.NPROC)), '-metadir', os.path.join(d, 'meta'),
               '-noGenerateSpecTE', '-config', 'run.cfg'] + list(args) + [module + '.tla']
        e = dict(os.environ, JAVA_TOOL_OPTIONS='-Xmx%s -Xss32m' % heap)
        t0 = time.time()
        outp = os.path.join(d, 'out.txt')
        with open(outp, 'w') as fh:
            try:
                rc = subprocess.run(cmd, cwd=d, env=e, stdout=fh, stderr=subprocess.STDOUT,
                                    timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
        rows, rest = [], []
        states = distinct = 0
        with open(outp) as fh:
            for line in fh:
                if line.startswith('"J'):
                    rows.append(json.loads(json.loads(line)[1:]))
                else:
                    rest.append(line)
                    m = re.match(r'(\d+) states generated, (\d+) distinct', line)
                    if m:
                        states, distinct = int(m.group(1)), int(m.group(2))
                    m = re.search(r'The number of states generated: (\d+)', line)
                    if m:
                        states = distinct = int(m.group(1))
        text = ''.join(x for x in rest if not re.match('Semantic|Linting|Parsing', x))
        if rc != 0:
            raise TLCError('TLC rc=%s on %s\n%s' % (rc, module, text if len(text) < 3000 else text[:800] + '\n...\n' + text[-2000:]))
        return Result(rows, states, distinct, time.time() - t0, ' '.join(cmd), text)
    finally:
        shutil.rmtree(d, ignore_errors=True)
