import hashlib
import json
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from lib import apply as ap
from lib import catalog, env, omrun, report, tlc
LEVEL = 'model_checking'


def told(row):
    return 'shape %s %s' % (tuple(row['sh']), '; '.join(
        'x[%s]%s' % (ap.pykey(h['key'], tuple(row['sh'])), '' if h['ok'] else ' rejected') for h in row['hist']))


def run_one(job):
    """All selections of the row from one expression; None or (aspect, message)."""
    row, seed, kind = job
    ot = omrun.ot
    sh = tuple(row['sh'])
    n = int(np.prod(sh))
    rng = np.random.RandomState(seed % (2 ** 31))
    pts = [np.round(rng.uniform(-2, 2, n), 6).reshape(sh) for _ in range(2)]
    scale = 1. if kind in ('in', 'indep') else 2.
    reject = not row['hist'][-1]['ok']
    last = len(row['hist']) - 1
    state = {}

    def build(g):
        if kind == 'indep':
            x = ap.lent(g.create_indep_var, 'x', shape=sh, val=pts[0])
        else:
            x = ap.lent(g.declare_input, 'x', shape=sh, val=pts[0])
        e = x if scale == 1 else 2. * x
        if kind == 'named':
            g.register_output('e', e)
        first = {}
        for k, h in enumerate(row['hist']):
            state['k'] = k
            key = ap.pykey(h['key'], sh, rng)
            if not h['ok'] and k < last:
                try:
                    e[key]
                except Exception:
                    continue
                raise AssertionError('x[%s] accepted; specified: rejected' % (key, ))
            y = e[key]
            # the same selection again may be the same expression, which can be registered once
            if id(y) in first:
                g.register_output('y%d' % k, 1. * y)
            elif k % 2:
                first[id(y)] = g.register_output('y%d' % k, y)
            else:
                first[id(y)] = y
                g.register_output('y%d' % k, 1. * y)
        state['k'] = None
        if kind == 'after':
            g.register_output('e', e)

    try:
        with omrun.quiet(), omrun.limit(60):
            p = omrun.problem(omrun.make(build), ('fwd', 'rev')[seed % 2])
            if reject:
                return 'reject', 'x[%s] accepted; specified: rejected' % (ap.pykey(row['hist'][-1]['key'], sh), )
            for r, x in enumerate(pts):
                if r:
                    p.set_val('x', x)
                p.run_model()
                J = p.compute_totals(of=['y%d' % k for k, h in enumerate(row['hist']) if h['ok']], wrt=['x'])
                for k, h in enumerate(row['hist']):
                    if not h['ok']:
                        continue
                    at = np.array(h['at']) - 1
                    want = scale * x.ravel()[at].reshape(h['shape'])
                    got = np.array(p.get_val('y%d' % k))
                    if not omrun.close(got, want):
                        return 'value', 'selection %d (%s): %s, specified %s' % (
                            k + 1, ap.pykey(h['key'], sh), got.tolist(), want.tolist())
                    D = np.zeros((at.size, n))
                    D[np.arange(at.size), at] = scale
                    if not omrun.close(J['y%d' % k, 'x'], D):
                        return 'deriv', 'selection %d (%s): derivative %s, specified %s' % (
                            k + 1, ap.pykey(h['key'], sh), np.array(J['y%d' % k, 'x']).tolist(), D.tolist())
    except Exception as e:
        if reject and state.get('k') == last:
            return None
        return 'raised', 'raised ' + omrun.describe(e)
    return None


def several(chk):
    inv = ('Independent', 'Inside', 'RejectedIsNothing')

    def ex(sh):
        return tlc.run('OmIndex', tlc.cfg({'MaxKeys': 2, 'Walk': False, 'Which': sh}, invariants=inv), timeout=800)

    def walk(k):
        return tlc.run('OmIndex', tlc.cfg({'MaxKeys': 12, 'Walk': True,
                                           'Which': 'walk'},
                                          invariants=inv),
                       args=['-simulate', 'num=%d' % (1500 if env.DEEP else 240), '-depth', '30', '-seed',
                             str(env.SEED * 1009 + k)], workers=1, timeout=800)
    rows = []
    for r in [ex('small')] + ([ex('more')] if env.DEEP else []):
        chk.tlc(r)
        rows += r.rows
    with ThreadPoolExecutor(env.NPROC) as pool:
        for r in pool.map(walk, range(8)):
            chk.tlc(r)
            rows += r.rows
    rows = list({json.dumps(r, sort_keys=True): r for r in rows}.values())
    if not env.DEEP:
        two = [r for r in rows if len(r['hist']) <= 2]
        two.sort(key=lambda r: hashlib.md5((json.dumps(r) + str(env.SEED)).encode()).hexdigest())
        rows = two[:1500] + [r for r in rows if len(r['hist']) > 2]
    kinds = ('in', 'indep', 'expr', 'named', 'after')
    jobs = [(r, env.SEED * 7919 + k, kinds[k % 5]) for k, r in enumerate(rows)]
    for (row, _, kind), bad in zip(jobs, report.pmap(run_one, jobs)):
        chk.count('traces_validated_against_impl')
        if isinstance(bad, Exception):
            bad = ('raised', repr(bad))
        if bad:
            chk.violate('several %s|%s' % (bad[0], told(row)[:200]), '%s (%s)' % (bad[1], kind), {'row': row, 'kind': kind})
    for r in rows[-2:]:
        chk.sample(told(r))


def run(chk):
    several(chk)
    catalog.check(chk, 'index', ('value', 'deriv'))
