import collections
import random

import numpy as np

from lib import apply as ap
from lib import catalog, env, omrun, report, tlc
from lib.omrun import ot
LEVEL = 'model_checking'

SHAPES = [(1, ), (1, ), (2, ), (2, ), (3, ), (2, 1), (1, 2), (2, 2), (5, ), (1, 1)]


class NotRejected(Exception):
    pass


def key(k, shape, rng):
    if k['k'] == 's':
        a, b, s = k['s']
        if b < shape[0] and rng.rand() < .3:
            return slice(a, b - shape[0], s if s > 1 else None)     # counted from the end
    return ap.pykey(k, shape, rng)


def run_one(job):
    row, seed = job
    sh = tuple(row['sh'])
    rng = np.random.RandomState(seed % (2 ** 31))
    hist, verdict = row['hist'], row['verdict']
    es = sorted({h['e'] for h in hist if h['e']})
    xs = {e: np.round(rng.uniform(-2, 2, SHAPES[e - 1]), 6) for e in es}
    step = [-1]
    told = []
    unused = []

    def build(g):
        ex = {}
        for e in es:
            x = ap.lent(g.declare_input, 'x%d' % e, shape=SHAPES[e - 1], val=xs[e])
            # an input, an operation, an extraction, a registered expression
            ex[e] = x if e % 3 == 0 else (x * 1 if e % 3 == 1 else g.register_output('r%d' % e, 1 * x))
        y = g.create_output('y', shape=sh)
        for i, h in enumerate(hist):
            step[0] = i
            v = ex[h['e']] if h['e'] else y
            if h['a'] == 'define':
                told.append('y.define(e%d)' % h['e'])
                k = None
            else:
                k = key(h['key'], sh, rng)
                told.append('y[%s] = e%d%s' % (k, h['e'], SHAPES[h['e'] - 1]))
            try:
                if k is None:
                    y.define(v)
                else:
                    y[k] = v
            except Exception as e:
                if h['v'] == 'ok' or i == len(hist) - 1:
                    raise
                told.append('(rejected)')
            else:
                if h['v'] != 'ok' and i < len(hist) - 1:
                    raise NotRejected('statement %d was not rejected (%s)' % (i + 1, h['v']))
        step[0] = len(hist)
        g.register_output('w', 2 * y)
        unused.extend(ex[e].name for e in es if e % 3 == 1 and not any(h['e'] == e and h['v'] == 'ok' for h in hist))
    bad = []
    reject_at = len(hist) - 1 if hist else 0
    try:
        with omrun.quiet(), omrun.limit(60):
            p = omrun.problem(omrun.make(build))
            p.final_setup()
    except NotRejected as e:
        return [('reject', str(e))], told
    except Exception as e:
        if verdict == 'ok' or step[0] != reject_at:
            bad.append(('accept', 'statement %d raised %s, specified: accepted' % (step[0] + 1, omrun.describe(e))))
        return bad, told
    if verdict != 'ok':
        return [('reject', 'a model was built; specified: rejected (%s)' % verdict)], told
    es = [e for e in es if e % 3 == 2 or any(h['e'] == e and h['v'] == 'ok' for h in hist)]
    extra = [a for a in p.model._var_abs2meta['output'] if a.rsplit('.', 1)[-1] in unused]
    if extra:
        bad.append(('extra', 'the model computes %s, which only a rejected statement uses' % extra))
    try:
        with omrun.quiet(), omrun.limit(60):
            for r in range(2):
                p.run_model()
                xe = {e: np.ravel(xs[e]) for e in es}
                el = row['el']
                want = np.array([xe[a][i - 1] if a else 1. for a, i in el]).reshape(sh)
                y, w = np.array(p.get_val('y')), np.array(p.get_val('w'))
                if not omrun.close(y, want) or not omrun.close(w, 2 * want):
                    bad.append(('value', 'run %d: y = %s, specified %s' % (r + 1, y.tolist(), want.tolist())))
                J = p.compute_totals(of=['y', 'w'], wrt=['x%d' % e for e in es])
                for e in es:
                    d = np.zeros((len(el), xe[e].size))
                    for f, (a, i) in enumerate(el):
                        if a == e:
                            d[f, i - 1] = 1
                    if not omrun.close(J['y', 'x%d' % e], d) or not omrun.close(J['w', 'x%d' % e], 2 * d):
                        bad.append(('deriv', 'dy/de%d = %s, specified %s' % (e, J['y', 'x%d' % e].tolist(), d.tolist())))
                for e in es:
                    xs[e] = np.round(rng.uniform(-2, 2, SHAPES[e - 1]), 6)
                    p.set_val('x%d' % e, xs[e])
    except Exception as e:
        bad.append(('value', 'raised ' + omrun.describe(e)))
    return bad, told


INV = ('NeverAmbiguous', 'AgreesWithAssemble')


def histories(chk, maxlen, shapes, rich, forgiven=0):
    r = tlc.run('OmAssign', tlc.cfg({'MaxLen': maxlen, 'Shapes': set(shapes), 'Rich': rich, 'Forgiven': forgiven},
                                    invariants=INV, properties=('Stable', 'RejectedIsNothing')), heap='12g', timeout=800)
    chk.tlc(r)
    if forgiven:
        # the others are histories without forgiveness
        return [x for x in r.rows if any(h['v'] != 'ok' for h in x['hist'][:-1])]
    return r.rows


def run(chk):
    if env.DEEP:
        rows = histories(chk, 2, range(1, 8), True) + histories(chk, 4, (1, 3, 6), False) + \
            histories(chk, 3, (2, 4), False)
        rng = np.random.RandomState(env.SEED)
        cheap = [r for r in rows if r['verdict'] == 'shape']
        keep = set(rng.permutation(len(cheap))[:40000].tolist())
        rows = [r for r in rows if r['verdict'] != 'shape'] + [r for i, r in enumerate(cheap) if i in keep]
    else:
        rows = histories(chk, 2, range(1, 7), False) + histories(chk, 3, (1, 3), True)
    # rejected statements that the user gets over; some of each kind
    over = histories(chk, 3, (1, 3, 6) if env.DEEP else (1, 6), False, 1)
    per = collections.defaultdict(list)
    for r in sorted(over, key=str):
        per[tuple(r['sh']), tuple(h['v'] for h in r['hist'])].append(r)
    rng = random.Random(env.SEED)
    for kind, some in sorted(per.items()):
        num = (400 if env.DEEP else 60) * (1 + (kind[1][-1] == 'ok'))
        rows += some if len(some) <= num else rng.sample(some, num)
    rows.sort(key=lambda r: str(r))
    jobs = [(r, env.SEED * 31337 + k) for k, r in enumerate(rows)]
    kinds = {}
    for j, o in zip(jobs, report.pmap(run_one, jobs)):
        chk.count('traces_validated_against_impl')
        kinds[j[0]['verdict']] = kinds.get(j[0]['verdict'], 0) + 1
        if isinstance(o, Exception):
            o = [('value', 'raised ' + repr(o))], []
        for a, msg in o[0][:1]:
            chk.violate('%s|%s %s' % (a, tuple(j[0]['sh']), '; '.join(o[1])), msg, {'history': j[0], 'statements': o[1]})
        if o[1] and len(o[1]) > 2:
            chk.sample({'shape': j[0]['sh'], 'statements': o[1], 'verdict': j[0]['verdict'], 'elements': j[0]['el']})
    chk.cov['verdicts'] = kinds
    # larger outputs, with operands from everywhere: values and derivatives
    for rot in range(6 if env.DEEP else 4):
        catalog.check(chk, 'assemble', ('value', 'deriv'), rot=rot)
