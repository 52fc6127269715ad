"""Replay of the histories of OmLife.tla: problems that live in one process."""
import contextlib
import json
import traceback

import numpy as np

from . import env, eqn, omrun, prog, report, term, tlc
from .omrun import om, ot

INV = ('EmitInv', 'ShownWasCurrent', 'OnlyMemory', 'TotalsClean')


def histories(chk, maxlen, slots, ids):
    """All histories within the bounds."""
    r = tlc.run('OmLife', tlc.cfg({'MaxLen': maxlen, 'NP': slots, 'Ids': set(ids), 'Walk': False}, spec='LSpec',
                                  invariants=INV, properties=('Isolated', 'Forgets')), heap='10g', timeout=800)
    chk.tlc(r)
    return r.rows


def walks(chk, num, maxlen, slots, salt=0):
    """Random long histories."""
    from concurrent.futures import ThreadPoolExecutor
    procs = min(env.NPROC, max(1, num // 10))

    def one(k):
        return tlc.run('OmLife', tlc.cfg({'MaxLen': maxlen, 'NP': slots, 'Ids': {0, 1, 2}, 'Walk': True}, spec='LSpec',
                                         invariants=INV),
                       args=['-simulate', 'num=%d' % -(-num // procs), '-depth', '100', '-seed',
                             str(1 + env.SEED * 100003 + salt * 1009 + k)], workers=1, timeout=800)
    rows, seen = [], set()
    with ThreadPoolExecutor(procs) as ex:
        for r in ex.map(one, range(procs)):
            chk.tlc(r)
            for x in r.rows:
                h = json.dumps([c['call'] for c in x['hist'][:-1]])
                if h not in seen:
                    seen.add(h)
                    rows.append(x)
    return rows


class Subject:
    """A program with the values its sources can have, and what it shows."""

    def __init__(self, kind, row, seed, c):
        self.kind, self.c = kind, c
        self.tag = kind
        rng = np.random.RandomState(seed % (2 ** 31))
        if kind == 'plain':
            self.P = P = prog.Program(row)
        else:
            self.P = P = eqn.Eqn(row)
        self.implicit = kind != 'plain' and not any(P.node(y)['a'] for y in P.unk)
        self.src = P.sources()
        self.ok = False
        for _ in range(6):
            try:
                self.x = [P.sample(rng) for _ in range(3)]
                if kind != 'plain':
                    self.given, y0 = eqn.starts(P, rng)
                    self.y = [y0] + [{n: np.round(rng.uniform(-1.5, 1.5, v.shape), 4) for n, v in y0.items()} for _ in range(2)]
                self.tab = {(o, e): self.specify(self.mix(o, e)) for o in range(3) for e in range(3)}
                self.ok = True
                break
            except (term.Domain, OverflowError, ZeroDivisionError, np.linalg.LinAlgError):
                continue
        if self.ok and self.implicit and c.get('bracket') and len(P.unk) == 1 and all(v.size == 1 for v in self.y[0].values()):
            n, = P.unk
            v = [t[0][n].ravel()[0] for t in self.tab.values()]
            self.bracket = {n: (float(np.floor(min(v)) - 1), float(np.ceil(max(v)) + 1))}
            self.tag = 'bracket'
        else:
            self.bracket = {}

    def mix(self, o, e):
        x = dict(self.x[0])
        for k, n in enumerate(self.src):
            x[n] = self.x[(o, e)[k % 2]][n]
        return x

    def specify(self, x):
        P = self.P
        if self.kind == 'plain':
            return P.evaluate(x)
        if self.kind == 'solved':
            y, val = P.fixed(x, self.y[0])
            return val, P.jacobian(val)
        return x, None

    def named(self):
        P = self.P
        ns = P.unk if self.implicit else P.named()
        return {P.name(n): n for n in ns}

    def shows(self, cur, past):
        """Specified values of all nodes."""
        key = cur['o'], cur['e']
        if self.kind != 'memory':
            return self.tab[key][0]
        y, val = dict(self.y[0]), None
        for p in past:
            if p['t'] == 'guess':
                y = dict(self.y[p['i']])
            else:
                val = self.P.sweep(self.tab[p['cur']['o'], p['cur']['e']][0], y)
                y = {n: val[n] for n in self.P.unk}
        return val

    def model(self):
        P, c = self.P, self.c
        if self.implicit:
            self.b = eqn.BuiltImplicit(P, self.x[0], self.given, c, maxiter=100 if self.bracket else None, bracket=self.bracket)
            if c.get('outside'):         # the component is made once, outside any setup method
                root = om.Group()
                self.b.indeps = lambda: []
                root.add_subsystem('comp', self.b.make_comp(), promotes=['*'])
                if c['solve'] == 'group':
                    root.nonlinear_solver = eqn.solver('newton')
                if c['outer']:
                    root.linear_solver = eqn.linear(c['outer'])
                    if c['outer'] == 'assembled':
                        root.options['assembled_jac_type'] = 'csc'
                return root
            return self.b.model
        style = 'static' if c.get('outside') else 'class'
        if self.kind == 'plain':
            self.b = prog.Built(P, self.x[0], None, reverse=c['reverse'], style=style)
        else:
            self.b = eqn.BuiltEqn(P, self.x[0], self.given, reverse=c['reverse'], style=style)
            if self.kind == 'solved':
                self.b.model.nonlinear_solver = eqn.solver('gs')
                self.b.model.linear_solver = eqn.linear('direct')
        if c.get('wrap'):
            root = om.Group()
            root.add_subsystem('inner', self.b.model, promotes=['*'])
            return root
        return self.b.model


class Skip(Exception):
    pass


def show(S, p, o, bad, when, dep):
    """Compare what problem p shows with the specified observation o."""
    P = S.P
    at = S.tab[o['cur']['o'], o['cur']['e']]
    for k, n in enumerate(S.src):
        e = np.asarray(S.x[(o['cur']['o'], o['cur']['e'])[k % 2]][n], float)
        v = np.array(p.get_val(P.name(n)))
        if not omrun.close(v.ravel(), e.ravel()):
            bad.append(('source', '%s: %s = %s, specified %s' % (when, P.name(n), v.tolist(), e.tolist())))
    if o['st'] == 'run':
        val = S.shows(o['shown'], o['past'])
        eqn.compare(p, S.named(), val, bad, when, 'value')
    elif S.kind != 'plain' and dep is not None:
        for n in P.unk:
            v = np.array(p.get_val(P.name(n)))
            if not omrun.close(v.ravel(), np.ravel(S.y[dep][n])):
                bad.append(('start', '%s: starting value of %s is %s, specified %s' % (when, P.name(n), v.tolist(), S.y[dep][n].tolist())))


def run_one(job):
    hist, subjects, seed = job
    rng = np.random.RandomState(seed % (2 ** 31))
    out = {'skip': False, 'bad': [], 'told': []}
    bad = out['bad']
    S = {}
    for s, (kind, row, c) in subjects.items():
        x = Subject(kind, row, seed * 131 + s * 17, c)
        if not x.ok:
            return {'skip': True}
        S[s] = x
    live, first = {}, {}
    stage = 'build'
    try:
        with omrun.quiet(), omrun.limit(120), contextlib.ExitStack() as st:
            for k, h in enumerate(hist):
                c = h['call']
                a, s, x = c['a'], c['s'], S[c['s']]
                tag = 'call %d (%s of problem %d)' % (k + 1, a, s)
                out['told'].append('%s %d %s %s' % (a, s, c['c'], c['i']))
                if a == 'new':
                    stage = 'build'
                    if c['i']:
                        # the program is built a second time in this process
                        omrun.problem(Subject(x.kind, x.P.row, seed * 131 + s * 17, x.c).model())
                    p = live[s] = om.Problem(x.model())
                    p.setup(mode=x.c['mode'])
                    omrun._omproblem._clear_problem_names()
                elif a == 'setup':
                    stage = 'setup'
                    p = live[s]
                    p.setup(mode=('fwd', 'rev')[c['i']])
                    if rng.rand() < .5:
                        p.final_setup()
                        outs = outputs(p, x.P)
                        if first.setdefault(s, outs) != outs:
                            bad.append(('setup', '%s: outputs %s, at first %s' % (tag, outs, first[s])))
                elif a == 'set':
                    stage = 'set'
                    for i, n in enumerate(x.src):
                        if c['c'] == 'oe'[i % 2]:
                            live[s].set_val(x.P.name(n), x.x[c['i']][n])
                elif a == 'guess':
                    stage = 'set'
                    for n in x.P.unk:
                        live[s].set_val(x.P.name(n), x.y[c['i']][n])
                elif a == 'run':
                    stage = 'value'
                    try:
                        if c['i'] == 2:
                            live[s].final_setup()
                        live[s].run_model()
                        if c['i'] == 1:
                            live[s].run_model()
                    except om.AnalysisError:
                        # Newton's method need not converge from every start
                        if x.kind == 'solved':
                            raise Skip
                        raise
                elif a == 'check':
                    stage = 'check'
                    try:
                        if c['i'] == 0:
                            live[s].check_partials(method='fd', step=1e-3, out_stream=None)
                        elif x.named() and x.src:
                            live[s].check_totals(of=list(x.named())[-1:], wrt=[x.P.name(x.src[0])], step=1e-3, out_stream=None)
                    except om.AnalysisError:
                        if x.kind == 'solved':
                            raise Skip
                        raise
                elif a == 'totals':
                    stage = 'deriv'
                    o = h['obs'][s - 1]
                    val, jac = x.tab[o['shown']['o'], o['shown']['e']]
                    named = x.named()
                    wrt = {x.P.name(n): n for n in x.src}
                    if c['i'] == 1:
                        named = dict([list(named.items())[rng.randint(len(named))]]) if named else {}
                        wrt = dict([list(wrt.items())[rng.randint(len(wrt))]]) if wrt else {}
                    full = {n: {m: jac[n].get(m, np.zeros((val[n].size, np.size(x.x[0][m])))) for m in wrt.values()}
                            for n in named.values()}
                    if c['i'] == 3:
                        live[s].model.run_linearize()
                    for _ in range(2 if c['i'] == 2 else 1):
                        eqn.totals(live[s], named, wrt, full, bad, tag)
                # what every problem shows after the call
                for t in live:
                    o = h['obs'][t - 1]
                    if t == s and a in ('new', 'setup') and rng.rand() < .5:
                        continue
                    dep = None
                    if o['st'] == 'fresh':
                        dep = 0
                        for q in reversed(hist[:k + 1]):
                            if q['call']['s'] == t:
                                if q['call']['a'] == 'guess':
                                    dep = q['call']['i']
                                if q['call']['a'] in ('guess', 'new', 'setup'):
                                    break
                    try:
                        show(S[t], live[t], o, bad, 'problem %d after %s' % (t, tag), dep)
                    except term.Domain:
                        raise Skip
                if bad:
                    return out
    except Skip:
        out['skip'] = True
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        bad.append((stage, 'call %d raised ' % len(out['told']) + omrun.describe(e) + ' @ ' + traceback.format_exc()[-500:]))
    return out


def outputs(p, P):
    """Outputs of the model: those that the user named, and the number of all."""
    m = p.model
    names = [prog.promoted(m, a, 'output') for a in m._var_abs2meta['output'] if not a.startswith('_auto_ivc')]
    mine = {P.name(n) for n in range(1, P.n + 1)}
    return sorted(x for x in names if x in mine), len(names)


def replay(chk, rows, pick):
    """pick(k, s, kind) -> (kind, row, config) of the program of slot s in history k."""
    jobs = []
    for k, r in enumerate(rows):
        used = {h['call']['s'] for h in r['hist']}
        jobs.append((r['hist'], {s: pick(k, s, r['kind'][s - 1]) for s in used}, env.SEED * 7919 + k))
    kinds = {}
    for j, o in zip(jobs, report.pmap(run_one, jobs)):
        if isinstance(o, Exception):
            o = {'skip': False, 'bad': [('run', 'raised ' + repr(o))], 'told': []}
        if o['skip']:
            chk.count('histories_without_point')
            continue
        chk.count('traces_validated_against_impl')
        kinds[len(j[1])] = kinds.get(len(j[1]), 0) + 1
        for a, msg in o['bad'][:1]:
            chk.violate('%s|%s' % (a, '; '.join(o['told'])[:200]), msg,
                        {'history': [h['call'] for h in j[0]], 'subjects': {s: (k, prog.statements(r), c) for s, (k, r, c) in j[1].items()},
                         'rows': {s: r for s, (k, r, c) in j[1].items()}, 'seed': j[2]})
    chk.cov['histories_by_problems'] = kinds
    for j in jobs[:3]:
        chk.sample([h['call'] for h in j[0]])


class Named(prog.Program):
    """A program whose names have a prefix of their own."""

    def __init__(self, row, prefix):
        super().__init__(row)
        self.prefix = prefix

    def name(self, n):
        return self.prefix + super().name(n)


def together(job):
    """Several programs in one model, written statement by statement in turn,
    after `waste` other expressions of the process."""
    rows, seed, c = job
    rng = np.random.RandomState(seed % (2 ** 31))
    bad = []
    out = {'skip': False, 'bad': bad, 'told': ['%d programs, %s' % (len(rows), c)]}
    Ps, pts = [], []
    for i, r in enumerate(rows):
        P = Named(r, '' if c.get('apart') else 'u%d_' % i)
        q = prog.points(P, seed + 7 * i, 2)
        if q is not None:
            Ps.append(P)
            pts.append(q)
    if not Ps:
        return {'skip': True}
    stage = 'build'
    try:
        with omrun.quiet(), omrun.limit(200):
            built = []

            class Static(prog.Built):
                def fill(self, grp, g, part=(None, None)):
                    if g == 1 and c['turns']:
                        self.todo = list(self.bodies[1])
                        self.grp = grp
                    else:
                        super().fill(grp, g, part)

            def build():
                del built[:]
                for P, q in zip(Ps, pts):
                    built.append(Static(P, q[0][0], None, reverse=c['reverse'], style='static' if c['turns'] else 'class'))
                left = [b for b in built if c['turns']]
                while left:
                    b = left[rng.randint(len(left))]
                    if b.todo:
                        b.statement(b.grp, b.todo.pop(0))
                    else:
                        left.remove(b)
                return built
            def own(b):
                root = om.Group()
                root.add_subsystem('s', b.model, promotes=['*'])
                return root if c['parent'] == 'om' else b.model
            if c.get('apart'):       # a problem for each
                ps = [om.Problem(own(b)) for b in build()]
                for p in (ps if c['turns'] else ps[::-1]):
                    p.setup(mode=c['mode'])
                omrun._omproblem._clear_problem_names()
            elif c['parent'] == 'om':
                root = om.Group()
                for i, b in enumerate(build()):
                    root.add_subsystem('s%d' % i, b.model, promotes=['*'])
            else:
                class Parent(ot.Group):
                    def setup(self):
                        for i, b in enumerate(build()):
                            self.add_subsystem('s%d' % i, b.model, promotes=['*'])
                root = Parent()
            if not c.get('apart'):
                ps = [omrun.problem(root, c['mode'])] * len(Ps)
            each = ps if c.get('apart') else ps[:1]
            # automatic names, of all programs of the model
            names = []
            for b in built:
                seen = {}
                mine = {b.local(n) for n in range(1, b.prog.n + 1)}
                for n, v in b.var.items():
                    if v.name not in mine:
                        seen.setdefault(v.name, v)
                names += list(seen)
            if len(set(names)) != len(names):
                bad.append(('names', 'automatic name %s occurs in two programs' % [a for a in names if names.count(a) > 1][0]))
            for i in range(3):
                if i == 2:
                    for p in each:
                        p.setup(mode=c['mode'])
                    order = 0
                else:
                    order = i
                if i == 1:
                    for P, q, p in zip(Ps, pts, ps):
                        for s in P.sources():
                            p.set_val(P.name(s), q[1][0][s])
                stage = 'value'
                for p in each:
                    p.run_model()
                for P, q, p in zip(Ps, pts, ps):
                    prog.values_at(p, P, q[order][1], bad, 'run %d' % (i + 1))
                stage = 'deriv'
                for k in ([i % len(Ps)] if len(Ps) > 3 and not c.get('apart') else range(len(Ps))):
                    prog.totals_at(ps[k], Ps[k], pts[k][order][2], bad, 'run %d' % (i + 1))
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        bad.append((stage, 'raised ' + omrun.describe(e) + ' @ ' + traceback.format_exc()[-500:]))
    return out


def replay_together(chk, jobs):
    for j, o in zip(jobs, report.pmap(together, jobs, chunk=1)):
        if isinstance(o, Exception):
            o = {'skip': False, 'bad': [('run', 'raised ' + repr(o))], 'told': []}
        if o['skip']:
            chk.count('models_without_point')
            continue
        chk.count('models_of_several_programs')
        chk.count('traces_validated_against_impl')
        for a, msg in o['bad'][:1]:
            chk.violate('together %s|%s' % (a, o['told']), msg, {'programs': [prog.statements(r) for r in j[0]], 'config': j[2], 'rows': j[0]})


def issue(job):
    """Names issued automatically to n expressions of several groups."""
    seed, n = job
    rng = np.random.RandomState(seed)
    out = []
    with omrun.quiet():
        groups = []
        while len(out) < n:
            g = ot.Group()
            x = g.declare_input('x', shape=(3, ))
            for _ in range(min(n - len(out), int(rng.randint(1, 2000)))):
                k = rng.randint(6)
                v = x + 1 if k == 0 else 2 * x if k == 1 else ot.sin(x) if k == 2 else x * x if k == 3 else \
                    ot.sum(x) if k == 4 else x - x
                out.append(v.name)
            groups.append(g)
    return out


def fresh(chk, n, procs=4):
    runs = report.pmap(issue, [(env.SEED * 100 + i, n) for i in range(procs)], chunk=1)
    r = tlc.run('OmFresh', tlc.cfg({'File': 'names.json'}, spec='FSpec'), files={'names.json': json.dumps(runs)},
                workers=1, timeout=800, heap='8g')
    chk.tlc(r)
    if len(r.rows) != len(runs):
        raise RuntimeError('OmFresh read %d of %d runs' % (len(r.rows), len(runs)))
    for x in r.rows:
        chk.count('names_issued', x['n'])
        if x['at']:
            names = runs[x['run'] - 1]
            chk.violate('fresh|run %d' % x['run'], 'name %d issued in the process, %s, was issued before (as name %d)' % (
                x['at'], names[x['at'] - 1], names.index(names[x['at'] - 1]) + 1), {'names': names[:x['at']][-50:]})
