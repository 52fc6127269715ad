"""Replay of OmBisect.tla: implicit outputs found in brackets or by Newton's method."""
import traceback

import numpy as np

from . import apply as ap
from . import eqn, omrun, prog
from .omrun import om, ot

KAPPA = .25


def reflect(a, kind):
    """The same numbers in one of the forms a user writes."""
    if kind == 'list':
        return a.tolist()
    return a


def run_one(job):
    row, seed, c = job
    rng = np.random.RandomState(seed % (2 ** 31))
    outs, U, M = row['outs'], row['u'], row['m']
    n = len(outs)
    O = range(n)
    bracket = row['kind'] == 'bracket'
    lo, hi, x1, x2, start, far = {}, {}, {}, {}, {}, {}
    sh = {o: tuple(outs[o]['sh']) for o in O}
    y = [{}, {}]                  # expected results of the two runs
    src = [{}, {}]                # inputs of the two runs

    def arr(o, f):
        return np.array([f(e) for e in outs[o]['el']], float).reshape(sh[o])

    def pick(o, a, b, scalar):
        v = np.round(rng.uniform(a, b, sh[o]), 3)
        return np.full(sh[o], v.ravel()[0]) if scalar else v
    for o in O:
        q = outs[o]
        up = arr(o, lambda e: e['up']) > 0
        if bracket:
            scalar = q['br'] == 'scalar'
            if scalar and q['form'] in ('lin', 'quad'):
                l, w = np.full(sh[o], -1.), np.full(sh[o], 2.)
            else:
                l = pick(o, -1.5, .5, scalar)
                w = pick(o, .5, 2.5, scalar)
            if q['br'] == 'mixed':      # the first end is one number
                if up.ravel()[0]:
                    l[...] = l.ravel()[0]
                else:
                    h = (l + w).ravel()[0]
                    l = h - w
            lo[o], hi[o] = l, l + w
            a, b = np.where(up, lo[o], hi[o]), np.where(up, hi[o], lo[o])

            def form(v, one):
                if one:
                    v = float(v.ravel()[0])
                    return int(v) if v == int(v) else v
                return reflect(v, q['br'])
            x1[o], x2[o] = form(a, q['br'] in ('scalar', 'mixed')), form(b, scalar)
            for r in (0, 1):
                root = lo[o] + arr(o, lambda e: e['r%d' % (r + 1)]) / U * (hi[o] - lo[o])
                y[r][o] = lo[o] + np.array(row['res'][r][o], float).reshape(sh[o]) / U * (hi[o] - lo[o])
                z = np.array(root)
                if q['cp']:
                    z = z - KAPPA * np.sin(y[r][q['cp'] - 1])
                src[r]['c%d' % o] = z
                src[r]['s%d' % o] = arr(o, lambda e: e['s'])
                # the other root of a quadratic, above or below the bracket
                src[r]['d%d' % o] = np.where(arr(o, lambda e: e['s']) > 0, lo[o] - .3, hi[o] + .4)
            start[o] = None if seed % 3 == 0 else np.round(rng.uniform(-2, 2, sh[o]), 3)
        else:
            default = q['form'] == 'lin'
            z1, z2 = pick(o, -1, 0, False), pick(o, .5, 1.5, False)
            t = pick(o, .2, .9, False)
            if default:            # the default initial value is one
                gap = z2 - z1
                z1 = np.where(up, 1 + t, 1 - t - gap)
                z2 = z1 + gap
            start[o] = None if default else np.where(up, z1 - t, z2 + t)
            right = arr(o, lambda e: e['r2'] > U // 2) > 0
            far[o] = np.where(right, z2 + 2 * t, z1 - 2 * t)
            y[0][o], y[1][o] = np.where(up, z1, z2), np.where(right, z2, z1)
            for r in (0, 1):
                src[r]['c%d' % o], src[r]['d%d' % o], src[r]['s%d' % o] = z1, z2, arr(o, lambda e: e['s'])
    create, define = list(O), list(O)
    rng.shuffle(create)
    rng.shuffle(define)
    kw = {} if M < 0 else {'maxiter': M}

    def residual(o, v, g):
        q = outs[o]
        name = ['c%d' % o, 's%d' % o, 'd%d' % o]
        z = g.declare_input(name[0], shape=sh[o], val=src[0][name[0]])
        if bracket and q['cp']:
            u = KAPPA * ot.sin(v[q['cp'] - 1])
            if sh[q['cp'] - 1] != sh[o]:
                u = ot.expand(u, sh[o])
            z = z + u
        x = v[o]
        if q['form'] == 'quad' or not bracket:
            d = g.declare_input(name[2], shape=sh[o], val=src[0][name[2]])
            r = (x - z) * (x - d)
            if bracket:
                return r
        else:
            r = {'lin': lambda: x - z, 'scaled': lambda: 3 * (x - z), 'cube': lambda: x**3 - z**3, 'tanh': lambda: ot.tanh(x - z),
                 'exp': lambda: ot.exp(x) - ot.exp(z), 'poly': lambda: (x + x**3) - (z + z**3)}[q['form']]()
        if seed % 2:
            return r * g.declare_input(name[1], shape=sh[o], val=src[0][name[1]])
        return r * src[0][name[1]]

    class Comp(ot.ImplicitComponent):
        def setup(self):
            g = self.group
            if not bracket:
                self.nonlinear_solver = eqn.solver('newton')
                self.linear_solver = eqn.linear('direct')
            elif c['linear']:
                self.linear_solver = eqn.linear(c['linear'])
            v = {}
            for o in create:
                k = {} if start[o] is None else {'val': start[o]}
                v[o] = ap.lent(g.create_implicit_output, 'y%d' % o, shape=sh[o], **k)
            for o in define:
                r = residual(o, v, g)
                if bracket:
                    ap.lent(v[o].define_residual_bracketed, r, x1=x1[o], x2=x2[o])
                else:
                    v[o].define_residual(r)
    bad = []
    stage = 'build'
    try:
        with omrun.quiet(), omrun.limit(120):
            model = om.Group()
            model.add_subsystem('comp', Comp(**kw), promotes=['*'])
            p = omrun.problem(model, c['mode'])
            p.final_setup()
            for o in O:
                e = np.ones(sh[o]) if start[o] is None else start[o]
                if not omrun.close(np.array(p.get_val('y%d' % o)), e):
                    bad.append(('start', 'initial value of y%d is %s, given %s' % (o, np.array(p.get_val('y%d' % o)).tolist(), e.tolist())))
            for r in (0, 1):
                if r:
                    for o in O:
                        p.set_val('c%d' % o, src[1]['c%d' % o])
                        if not bracket:
                            p.set_val('y%d' % o, far[o])
                stage = 'value'
                p.run_model()
                for o in O:
                    v, e = np.array(p.get_val('y%d' % o)), y[r][o]
                    if not omrun.close(v, e, 1e-9):
                        bad.append(('value', 'run %d: y%d = %s, specified %s; brackets %s, %s; roots %s' % (
                            r + 1, o, v.tolist(), e.tolist(), x1.get(o), x2.get(o),
                            [q['r%d' % (r + 1)] for q in outs[o]['el']])))
                if M < 0:
                    stage = 'deriv'
                    D = {}
                    J = p.compute_totals(of=['y%d' % o for o in O], wrt=['c%d' % o for o in O])
                    for o in O:
                        q = outs[o]
                        if bracket:
                            D[o, o] = np.eye(y[r][o].size)
                        else:
                            at1 = (arr(o, lambda e: e['up']) if r == 0 else arr(o, lambda e: e['r2'] <= U // 2)).ravel() > 0
                            D[o, o] = np.diag(at1.astype(float))
                        if bracket and q['cp']:
                            j = q['cp'] - 1
                            # all elements of y depend on the same element of a scalar
                            K = np.diag(KAPPA * np.cos(y[r][j]).ravel()) if sh[j] == sh[o] else \
                                np.full((y[r][o].size, 1), KAPPA * np.cos(y[r][j]).ravel()[0])
                            for i in O:
                                if (j, i) in D:
                                    D[o, i] = D.get((o, i), 0) + K @ D[j, i]
                        for i in O:
                            e = D.get((o, i), np.zeros((y[r][o].size, y[r][i].size)))
                            if not omrun.close(J['y%d' % o, 'c%d' % i], e, 1e-7):
                                bad.append(('deriv', 'run %d: dy%d/dc%d = %s, specified %s' % (
                                    r + 1, o, i, np.array(J['y%d' % o, 'c%d' % i]).tolist(), e.tolist())))
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        bad.append((stage, 'raised ' + omrun.describe(e) + ' @ ' + traceback.format_exc()[-400:]))
    return bad
