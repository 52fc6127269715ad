"""Verdict of a check: violations, known findings, evidence."""
import json
import os
import sys
import time

from . import env

KNOWN = os.path.join(env.VERIF, 'known_findings.json')


class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.cov = {'samples': []}
        self.assumptions = []
        self.violations = []       # (key, message, replay)
        self.known_hits = []
        try:
            with open(KNOWN) as f:
                self.known = [k for k in json.load(f)['findings']
                              if k['status'] == 'known' and k['property'] == prop]
        except FileNotFoundError:
            self.known = []

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def tlc(self, res):
        """Account for a run of TLC."""
        self.count('states', res.distinct)
        self.count('transitions', max(0, res.states))
        self.cov.setdefault('tlc_runs', []).append(
            {'module': res.cmd.split()[-1], 'states_generated': res.states, 'distinct': res.distinct,
             'rows': len(res.rows), 'wall_s': round(res.wall, 2)})

    def sample(self, x, limit=3):
        if len(self.cov['samples']) < limit:
            self.cov['samples'].append(x)

    def violate(self, key, message, replay=None):
        for k in self.known:
            if k['key'] == key:
                if key not in self.known_hits:
                    self.known_hits.append(key)
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
                return
        self.violations.append((key, message, replay))

    def finish(self):
        d = os.path.join(env.VERIF, 'evidence')
        os.makedirs(os.path.join(d, 'replay'), exist_ok=True)
        shown = {}
        for n, (key, message, replay) in enumerate(self.violations):
            cls = key.split('|')[0]
            shown[cls] = shown.get(cls, 0) + 1
            if shown[cls] > 2 or len(shown) > 6:
                continue
            path = os.path.join(d, 'replay', '%s-%d.json' % (self.prop, n))
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'key': key, 'message': message, 'seed': env.SEED,
                           'tier': env.TIER, 'replay': replay}, f, indent=1, default=str)
            print('  %s: %s' % (key, message))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        if self.violations:
            print('%d violations in total' % len(self.violations))
        if self.level == 'model_checking':
            for k in ('states', 'transitions', 'traces_validated_against_impl'):
                self.cov.setdefault(k, 0)
        ev = {'property': self.prop, 'tier': env.TIER, 'seed': env.SEED, 'level': self.level,
              'coverage': self.cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s %s: %s; %s; %.1f s' % (
            self.prop, env.TIER, 'VIOLATED' if self.violations else 'held',
            ', '.join('%s=%s' % (k, v) for k, v in self.cov.items() if isinstance(v, int)),
            time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0


def _call(a):
    fn, item = a
    return fn(item)


def pmap(fn, items, chunk=None, tasks=400):
    """Run fn over items in worker processes; results in the order of items.

    A worker that dies is an observation about the code under test: the items
    it was working on are returned as exceptions."""
    from concurrent.futures import ProcessPoolExecutor
    from concurrent.futures.process import BrokenProcessPool
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    items = list(items)
    n = min(env.NPROC, max(1, len(items)))
    chunk = chunk or max(1, min(50, len(items) // (4 * n) or 1))
    out = [None] * len(items)
    todo = [(i, items[i:i + chunk]) for i in range(0, len(items), chunk)]
    single = False
    while todo:
        ex = ProcessPoolExecutor(n, mp_context=ctx)
        futs = [(i, part, ex.submit(_many, fn, part)) for i, part in todo]
        todo = []
        for i, part, f in futs:
            try:
                for k, r in enumerate(f.result()):
                    out[i + k] = r
            except BrokenProcessPool:
                if single and len(part) == 1:
                    out[i] = WorkerDied('the interpreter died')
                else:
                    todo.append((i, part))
        ex.shutdown(wait=False, cancel_futures=True)
        if todo and not single:
            single, n = True, n
            todo = [(i + k, [x]) for i, part in todo for k, x in enumerate(part)]
        elif todo:
            # one at a time, each in its own pool
            nxt = []
            for i, part in todo:
                ex = ProcessPoolExecutor(1, mp_context=ctx)
                try:
                    out[i] = ex.submit(_many, fn, part).result()[0]
                except BrokenProcessPool:
                    out[i] = WorkerDied('the interpreter died')
                ex.shutdown(wait=False)
            todo = nxt
    return out


class WorkerDied(Exception):
    pass


def _many(fn, part):
    return [fn(x) for x in part]
