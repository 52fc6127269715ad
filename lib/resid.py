"""Replay of OmResid: statements of an implicit component."""
import numpy as np

from . import omrun
from .omrun import om, ot


def statement(g, h, outs, want, k):
    s, n, c = h['s'], h['n'], k + 2.
    if s == 'implicit':
        outs.append(dict(v=g.create_implicit_output(n, shape=(h['z'], ), val=.4), n=n, z=h['z']))
    elif s == 'out':
        y = g.create_output(n, shape=(2, ))
        y[0:2] = c * g.declare_input('x2', shape=(2, ), val=.5)
        outs.append(dict(v=y, n=n))
    elif s == 'empty':
        outs.append(dict(v=g.create_output(n, shape=(2, )), n=n))
    elif s == 'reg':
        outs.append(dict(v=g.register_output(n, c * g.declare_input('x2', shape=(2, ), val=.5)), n=n))
    elif s in ('residual', 'itself', 'shared'):
        o = outs[h['i'] - 1]
        y = o['v']
        if s == 'residual':
            x = g.declare_input('x%d' % h['z'], shape=(h['z'], ), val=.5)
            z = o['z']
            me = y if z == h['z'] else ot.expand(y, (h['z'], )) if z == 1 else ot.expand(ot.sum(y), (h['z'], )) if h['z'] > 1 else ot.sum(y)
            r = me * c - x
        elif s == 'itself':
            r = y
        else:
            r = outs[h['z'] - 1]['r']
        if h['w'] == 'plain':
            y.define_residual(r)
        else:
            y.define_residual_bracketed(r, x1=-4., x2=4.)
        o['r'] = r
        if s == 'residual':
            want[o['n']] = np.full(z, .5 / c)
    elif s == 'input':
        g.register_output(n + '_in', g.declare_input('x1'))
    elif s == 'again':
        g.register_output(n + '_again', outs[h['i'] - 1]['r'])
    else:
        raise AssertionError(s)


def run_one(job):
    row = job[0]
    hist, want, pending = row['hist'], {}, []

    class C(ot.ImplicitComponent):
        def setup(self):
            outs = []
            want.clear()
            for k, h in enumerate(hist):
                if h['v'] == 'ok':
                    statement(self.group, h, outs, want, k)
                    continue
                try:
                    statement(self.group, h, outs, want, k)
                except Exception:
                    continue
                # the exception is to come when the component is built
                pending.append('statement %d (%s)' % (k + 1, h['v']))
            self.nonlinear_solver = om.NewtonSolver(solve_subsystems=False, iprint=-1, maxiter=10)
            self.linear_solver = om.DirectSolver()
    ways = {h['w'] for h in hist if h['s'] == 'residual' and h['v'] == 'ok'}
    try:
        with omrun.quiet(), omrun.limit(60):
            p = omrun.problem(omrun.make(lambda g: g.add_subsystem('comp', C(), promotes=['*'])))
            p.final_setup()
    except Exception as e:
        if row['verdict'] == 'ok' and not pending:
            return 'accept', 'raised %s; specified: well formed' % omrun.describe(e)
        return None
    if row['verdict'] != 'ok':
        return 'reject', 'a model was built; specified: ill formed (%s)' % row['verdict']
    if pending:
        return 'reject', 'a model was built; specified: %s is ill formed' % pending[0]
    if len(ways) == 1:
        with omrun.quiet(), omrun.limit(60):
            p.run_model()
            for n, v in want.items():
                if not omrun.close(np.ravel(p.get_val(n)), v, 1e-6):
                    return 'accept', '%s = %s, specified %s' % (n, p.get_val(n), v)
    return None


def text(row):
    return '; '.join('%s%s %s%s%s' % ('' if h['v'] == 'ok' else '(rejected) ', h['s'], h['n'], ' of %d' % h['z'] if h['z'] else '',
                                    ' (%d, %s)' % (h['i'], h['w']) if h['i'] else '') for h in row['hist'])
