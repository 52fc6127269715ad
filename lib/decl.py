"""Replay of OmDecl: declarations with shapes and values."""
import numpy as np

from . import apply as ap
from . import eqn, names, omrun
from .omrun import om, ot


def value(v, want):
    """The value as the user writes it; want: its elements, in order."""
    w = np.array(want) / 2.
    if v['v'] == 'number':
        c = {'int': int, 'float': float, 'npint': np.int64, 'npfloat': np.float64, 'zero': int, 'negative': float}[v['as']]
        return c(w[0])
    a = w.reshape(v['shape'])
    how = v['as']
    if how in ('list', 'intlist'):
        return (a.astype(int) if how == 'intlist' else a).tolist()
    if how == 'int':
        return a.astype(int)
    if how == 'fortran':
        return np.asfortranarray(a)
    if how == 'float32':
        return a.astype(np.float32)
    if how == 'strided':
        b = np.full(tuple(2 * n for n in a.shape), 99.)
        s = tuple(slice(None, None, 2) for _ in a.shape)
        b[s] = a
        return b[s]
    return a


def run_one(job):
    row, where = job
    d = row['decl']
    kind, v = d['kind'], d['val']
    kw = {}
    if d['shape']:
        kw['shape'] = tuple(d['shape'])
    if v['v'] != 'none':
        kw['val'] = value(v, row['written'])
    told = '%s %s' % (kind, ', '.join('%s=%r' % x for x in sorted(kw.items())))
    shape = tuple(row['shape'])

    def build(g):
        if kind == 'indep':
            x = ap.lent(g.create_indep_var, 'x', **kw)
        elif kind == 'input':
            x = ap.lent(g.declare_input, 'x', **kw)
        elif kind == 'assigned':
            x = ap.lent(g.create_output, 'x', **kw)
            x[tuple([slice(0, 1)] + [slice(None)] * (len(shape) - 1)) if len(shape) > 1 else slice(0, 1)] = \
                g.declare_input('z', shape=(1, ) + shape[1:], val=np.reshape([.5 - k for k in range(int(np.prod(shape[1:])))], (1, ) + shape[1:]))
        elif kind == 'output':
            x = ap.lent(g.create_output, 'x', **kw)
            x.define((1 / np.tanh(2.)) * ot.tanh(2. * x))
            g.nonlinear_solver = eqn.solver('gs')
        g.register_output('e', 3. * x)
        g.register_output('s', ot.sum(x))

    class Imp(ot.ImplicitComponent):
        def setup(self):
            g = self.group
            x = ap.lent(g.create_implicit_output, 'x', **kw)
            x.define_residual(x**2 - 1.)
            self.nonlinear_solver = eqn.solver('newton')
            self.linear_solver = eqn.linear('direct')

    class Parameter(ot.ImplicitComponent):
        def setup(self):
            g = self.group
            x = ap.lent(g.declare_input, 'x', **kw)
            e = g.create_implicit_output('e', shape=x.shape)
            e.define_residual(2. * e - 6. * x)
            self.nonlinear_solver = eqn.solver('newton')
            self.linear_solver = eqn.linear('direct')
    if kind == 'parameter':
        def build(g):
            g.add_subsystem('par', Parameter(), promotes=['*'])
            g.register_output('s', ot.sum(g.declare_input('e', shape=shape)) / 3.)
    if kind == 'implicit':
        def build(g):
            g.add_subsystem('imp', Imp(), promotes=['*'])
            x = g.declare_input('x', shape=shape)
            g.register_output('e', 3. * x)
            g.register_output('s', ot.sum(x))
    try:
        with omrun.quiet(), omrun.limit(60):
            p = omrun.problem(omrun.make(names.place(build, where)))
            p.final_setup()
    except Exception as e:
        return ('accept', told, 'raised ' + omrun.describe(e)) if row['ok'] else None
    if not row['ok']:
        return 'reject', told, 'accepted; specified: rejected (the value has another shape)'
    done = []
    try:
        with omrun.quiet(), omrun.limit(60):
            for k, o in enumerate(row['ops']):
                want = np.array(o['holds'], float).reshape(shape) / 2.
                done.append(o['op'])
                if o['op'] == 'setup' and k:
                    p.setup()
                elif o['op'] == 'run':
                    p.run_model()
                elif o['op'] == 'set':
                    p.set_val('x', want)
                p.final_setup()
                got = np.array(p.get_val('x'))
                if not omrun.close(got, want, 1e-9 if kind in ('output', 'implicit') else 1e-12):
                    return 'value', told, 'after %s: x = %s, specified %s' % (', '.join(done), got.tolist(), want.tolist())
                if o['fresh']:
                    e = np.array(p.get_val('e'))
                    if not omrun.close(e, 3 * want):
                        return 'value', told, 'after %s: 3 x = %s, specified %s' % (', '.join(done), e.tolist(), (3 * want).tolist())
                    if not omrun.close(np.ravel(p.get_val('s')), [want.sum()]):
                        return 'value', told, 'after %s: sum of x = %s, specified %s' % (', '.join(done), p.get_val('s'), want.sum())
                    if kind in ('output', 'assigned', 'implicit'):
                        continue
                    J = p.compute_totals(of=['e'], wrt=['x'])['e', 'x']
                    if not omrun.close(J, 3 * np.eye(want.size)):
                        return 'value', told, 'after %s: derivative of 3 x = %s' % (', '.join(done), np.array(J).tolist())
    except Exception as e:
        return 'value', told, 'after %s: raised %s' % (', '.join(done), omrun.describe(e))
    return None
