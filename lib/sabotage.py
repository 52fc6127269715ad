"""Replay of OmSabotage: a program with one mistake is rejected, and goes on
when the statement is rejected and the user catches the exception."""
import numpy as np

from . import apply as ap
from . import omrun, prog, reject
from .omrun import ot


class NotRejected(Exception):
    pass


class Spoiled(prog.Built):
    """The implementation of a program with the mistake m (None: without);
    the user catches the exceptions of the mistakes `caught`."""

    def __init__(self, P, x0, m, caught=()):
        self.m = m
        self.caught = caught
        self.in_mistake = False
        super().__init__(P, x0, None)

    def spoil(self, grp, k):
        for m in self.caught:
            if m['at'] == k:
                try:
                    mistake(self, grp, m)
                except Exception:
                    continue
                raise NotRejected(text(m))
        if self.m is not None and self.m['s'] != 'drop' and self.m['at'] == k:
            self.in_mistake = True
            mistake(self, grp, self.m)
            self.in_mistake = False

    def fill(self, grp, g, part=(None, None)):
        pr = self.prog.row['pr']
        k = 0 if g == 1 else 1 + [i for i, s in enumerate(pr) if s['s'] == 'open' and s['g'] == g][0]
        if part[0] is None:
            self.spoil(grp, k)
        for s in self.bodies[g][slice(*part)]:
            drop = self.m is not None and self.m['s'] == 'drop' and s['s'] in ('set', 'define') and s['n'] == self.m['n']
            if not drop:
                self.statement(grp, s)
            if s['s'] == 'sub':
                depth, j = 0, [i for i, t in enumerate(pr) if t['s'] == 'open' and t['g'] == s['g']][0]
                while True:
                    depth += {'open': 1, 'close': -1}.get(pr[j]['s'], 0)
                    j += 1
                    if depth == 0:
                        break
            else:
                j = 1 + [i for i, t in enumerate(pr) if t is s][0]
            self.spoil(grp, j)


def mistake(b, g, m):
    P, s, x = b.prog, m['s'], m['x']
    v = b.var.get(m['n'])

    def fresh(shape, k=0):
        return 2 * g.declare_input('bad_in%d' % k, shape=tuple(shape), val=.6)
    if s == 'apply':
        e = x['e']
        given = [v, b.var[m['m']]][:len(e['sh'])]
        if e['op'] == 'if_else':
            given = [g.declare_input('bad_cond')] + [v, b.var[m['m']]]
        z = reject.build_entry(g, e, given=given)
        if x['use'] == 'reg':
            g.register_output('bad', z)
        elif x['use'] == 'expr':
            g.register_output('bad', 2 * z)
        else:
            y = g.create_output('bad', shape=z.shape)
            if x['use'] == 'whole':
                y.define(z)
            else:
                y[reject.whole(z.shape)] = z
    elif s == 'index':
        g.register_output('bad', 1 * v[ap.pykey(x['key'], tuple(P.node(m['n'])['sh']))])
    elif s == 'again':
        g.register_output('bad', v)
    elif s == 'input':
        g.register_output('bad', v)
    elif s == 'name':
        n = P.name(m['n'])
        if x['way'] == 'reg':
            g.register_output(n, fresh((1, )))
        elif x['way'] == 'indep':
            g.create_indep_var(n, shape=(1, ), val=.3)
        else:
            g.create_output(n, shape=(1, ))[0] = fresh((1, ))
    elif s == 'undefined':
        g.create_output('bad', shape=(2, ))
    elif s == 'define':
        v.define(fresh(P.node(m['n'])['sh']))
    elif s == 'overlap':
        nd = P.node(m['n'])
        if nd['def']:
            v[reject.whole(tuple(nd['sh']))] = fresh(nd['sh'])
        else:
            v[ap.pykey(nd['p']['keys'][0], tuple(nd['sh']))] = fresh(P.node(nd['a'][0])['sh'])
    elif s in ('self', 'selfset', 'defshape', 'setshape'):
        y = g.create_output('bad', shape=tuple(x['shape']))
        if s == 'self':
            y.define(y)
        elif s == 'selfset':
            y[reject.whole(tuple(x['shape']))] = y
        elif s == 'defshape':
            y.define(v)
        else:
            y[reject.whole(tuple(x['shape']))] = v
    else:
        raise AssertionError(s)


def text(m):
    return '%s%s' % (m['s'], ' ' + m['x']['e']['op'] if m['s'] == 'apply' else '')


def run_one(row):
    """dict(out: [(verdict, mistake, message)] for the program and each of its
    mistakes, trace: of the program that goes on after mistakes)."""
    P = prog.Program(row)
    # a name inside a child is taken only if it is promoted
    P.lists = False
    pts = prog.points(P, 5, 2)
    x0 = pts[0][0] if pts else P.sample(np.random.RandomState(5))
    out = []
    over = []
    for m in [None] + sorted(row['mis'], key=str):
        b = Spoiled(P, x0, m)
        try:
            with omrun.quiet(), omrun.limit(60):
                p = omrun.problem(b.model)
                p.final_setup()
        except Exception as e:
            if m is None:
                return {'out': [('accept', None, 'raised ' + omrun.describe(e))], 'trace': None}
            out.append(('ok', m, omrun.describe(e)))
            if b.in_mistake:
                over.append(m)
        else:
            if m is None:
                continue
            how = 'runs'
            try:
                with omrun.quiet(), omrun.limit(60):
                    p.run_model()
            except Exception as e:
                how = 'fails when it runs: ' + omrun.describe(e)
            out.append(('reject', m, 'a model was built, which ' + how))
    # the user catches the exception of one mistake that leaves something ...
    for m in [m for m in over if m['leaves']]:
        try:
            with omrun.quiet(), omrun.limit(60):
                p = omrun.problem(Spoiled(P, x0, None, [m]).model)
                p.final_setup()
        except Exception as e:
            out.append(('ok', m, omrun.describe(e)))
        else:
            out.append(('reject', m, 'a model was built with an output that was left undefined'))
    # ... and of all mistakes that leave nothing
    trace = None
    over = [m for m in over if not m['leaves']]
    if over:
        bad = []
        try:
            with omrun.quiet(), omrun.limit(60):
                b = Spoiled(P, x0, None, over)
                p = omrun.problem(b.model)
                p.final_setup()
                trace = b.trace()
                for i, (x, v, j) in enumerate(pts or ()):
                    if i:
                        for n in P.sources():
                            p.set_val(P.name(n), x[n])
                    p.run_model()
                    prog.values_at(p, P, v, bad, 'run %d' % (i + 1))
                    prog.totals_at(p, P, j, bad, 'run %d' % (i + 1))
        except Exception as e:
            bad.append(('raised', omrun.describe(e)))
        out += [('caught', {'s': 'several', 'each': over}, '%s %s' % x) for x in bad[:1]] or \
            [('ok', {'s': 'several'}, 'goes on')]
    return {'out': out, 'trace': trace}
