"""Replay of OmNames."""
import numpy as np

from . import omrun
from .omrun import om, ot


WHERE = ['top', 'class', 'with', 'deep', 'after']


def pick(row, seed):
    return WHERE[1:][(len(str(row)) * 7 + seed) % 4]


def text(row):
    return '; '.join('%s %s%s' % (h['s'], h['n'], ' (%d)' % h['i'] if h['i'] else '') for h in row['hist'])


def place(fn, where):
    def inside(g):
        g.add_subsystem('child', omrun.make(fn), promotes=['*'])

    def within(g, what=fn):
        with g.create_group('child') as c:
            what(c)

    def after(g):
        q = g.register_output('q_a', 2 * g.declare_input('q_x', shape=(2, )))
        with g.create_group('q_c') as c:
            c.register_output('q_b', -c.declare_input('q_a', shape=(2, )))
        fn(g)
        g.register_output('q_d', q + g.declare_input('q_b', shape=(2, )))
    return {'top': fn, 'class': inside, 'with': within, 'after': after,
            'deep': lambda g: g.add_subsystem('up', omrun.make(lambda h: within(h, inside)), promotes=['*'])}[where]


def build(g, hist):
    x = g.declare_input('x', shape=(2, ), val=np.array([.3, .7]))
    made = []
    want = {}
    for k, h in enumerate(hist):
        s, n, c = h['s'], h['n'], float(k + 2)
        v = None
        if s == 'indep':
            v = g.create_indep_var(n, shape=(2, ), val=c)
            want[n] = [c, c]
        elif s in ('out', 'empty'):
            v = g.create_output(n, shape=(2, ))
            if s == 'out':
                v[0:2] = c * x
            want[n] = [.3 * c, .7 * c]
        elif s == 'cyc':
            v = g.create_output(n, shape=(2, ))
            v.define(c * x)
            want[n] = [.3 * c, .7 * c]
        elif s == 'latecyc':
            # y = c x + 0 y: one sweep of the solver is enough
            y = made[h['i'] - 1]
            y.define(c * x + 0 * y)
            want[n] = [.3 * c, .7 * c]
            g.nonlinear_solver = om.NonlinearBlockGS(iprint=-1, maxiter=10)
        elif s == 'itself':
            made[h['i'] - 1].define(made[h['i'] - 1])
        elif s == 'reg':
            v = g.register_output(n, x * c)
            want[n] = [.3 * c, .7 * c]
        elif s == 'regget':
            y = x + c
            v = g.register_output(n, y[1])
            want[n] = [.7 + c]
        elif s == 'sub':
            with g.create_group('g%d' % k) as sub:
                z = sub.declare_input('x', shape=(2, ), val=np.array([.3, .7]))
                sub.register_output(n, z - c)
            want[n] = [.3 - c, .7 - c]
        elif s == 'again':
            g.register_output(n, made[h['i'] - 1])
        elif s == 'input':
            g.register_output(n, g.declare_input('w', shape=(2, )))
        elif s == 'late':
            made[h['i'] - 1][0:2] = c * x
            want[n] = [.3 * c, .7 * c]
        if s in ('indep', 'out', 'cyc', 'empty', 'reg', 'regget', 'sub'):
            made.append(v)
    return want


def run_one(job):
    row, where = job
    want = {}
    try:
        with omrun.quiet(), omrun.limit(60):
            p = omrun.problem(omrun.make(place(lambda g: want.update(build(g, row['hist'])), where)))
            p.final_setup()
    except Exception as e:
        if row['verdict'] == 'ok':
            return 'accept', 'raised %s; specified: well formed' % omrun.describe(e)
        return None
    if row['verdict'] != 'ok':
        return 'reject', 'a model was built; specified: ill formed (%s)' % row['verdict']
    with omrun.quiet(), omrun.limit(60):
        p.run_model()
        for n, v in want.items():
            if not omrun.close(np.ravel(p.get_val(n)), v):
                return 'accept', '%s = %s, specified %s' % (n, p.get_val(n), v)
    return None
