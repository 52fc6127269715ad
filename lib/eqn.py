"""Replay of the programs of OmEqn.tla: equations and what they define."""
import contextlib
import json
import traceback

import numpy as np

from . import apply as ap
from . import env, omrun, prog, report, term, tlc
from .omrun import om, ot

PLAIN = dict(solver='gs', linear='direct', place='root', mode='fwd', reverse=0, trace=True)
INV = ('Contraction', 'AcyclicUnrolled', 'OldInside', 'AllDefined', 'WellScoped')


def generate(chk, kind, num, nodes=14, unknowns=3, salt=0, mix=False):
    from concurrent.futures import ThreadPoolExecutor
    procs = min(env.NPROC, max(1, num // 25))
    per = -(-num // procs)

    def one(k):
        return tlc.run('OmEqn', tlc.cfg({'MaxNodes': nodes, 'MaxGroups': 0, 'Ops': 'all', 'Feats': {'indep', 'get'},
                                         'Kind': kind, 'MaxUnk': unknowns, 'MaxLip': 64, 'Mix': mix}, spec='ESpec', invariants=INV),
                       args=['-simulate', 'num=%d' % per, '-depth', '400', '-seed', str(1 + env.SEED * 100003 + salt * 1009 + k)],
                       workers=1, timeout=800, heap='2g')
    with ThreadPoolExecutor(procs) as ex:
        res = list(ex.map(one, range(procs)))
    rows, seen = [], set()
    for r in res:
        chk.tlc(r)
        for x in r.rows:
            h = json.dumps(x, sort_keys=True)
            if h not in seen:
                seen.add(h)
                rows.append(x)
    return rows


class Eqn(prog.Program):
    def __init__(self, row):
        super().__init__(row)
        self.old = [set(o) for o in row['old']]
        self.unk = {u['n']: u for u in row['unk']}

    def leaf(self, n):
        return self.node(n)['k'] in ('in', 'indep', 'inner')

    def f(self, y):
        return self.unk[y]['f']

    def sources(self):
        if not any(self.node(y)['a'] for y in self.unk):
            used = self.closure(u['e'] for u in self.unk.values())
            return [n for n in range(1, self.n + 1) if self.node(n)['k'] == 'in' and n in used]
        return super().sources()

    def sample(self, rng):
        x = super().sample(rng)
        for n in range(1, self.n + 1):
            if self.node(n)['k'] == 'inner':
                nd = self.node(n)
                x[n] = np.round(rng.uniform(.4, 1.6, int(np.prod(nd['sh']))), 6).reshape(nd['sh'])
        return x

    def term(self, n, val):
        nd = self.node(n)
        a = [val[m].tolist() for m in nd['a']]
        if nd['op'] == 'if_else' and abs(a[0][0]) < 1e-6:
            raise term.Domain
        v = np.array([term.ev(t, a) for t in self.den[n - 1]['el']], float)
        if not np.all(np.isfinite(v)) or np.max(np.abs(v)) > 1e6:
            raise term.Domain
        return v

    def sweep(self, x, y):
        """Values of all nodes when every component runs once, in order: the
        expressions that define an unknown use its previous value."""
        val = {n: np.asarray(x[n], float).ravel() for n in x}

        def get(n):
            if n in val:
                return val[n]
            nd = self.node(n)
            if n in self.unk:
                val[n] = get(self.f(n))
                return val[n]
            loc = {m: (np.asarray(y[m], float).ravel() if m in self.old[n - 1] else get(m)) for m in nd['a']}
            val[n] = self.term(n, loc)
            return val[n]
        for n in range(1, self.n + 1):
            get(n)
        return val

    def at(self, x, y):
        """Values of all nodes for given values of the unknowns."""
        val = {n: np.asarray(x[n], float).ravel() for n in x}
        for n in range(1, self.n + 1):
            if n in self.unk:
                val[n] = np.asarray(y[n], float).ravel()
            elif n not in val:
                val[n] = self.term(n, val)
        return val

    def fixed(self, x, y):
        """The solution y = f(x, y), by iteration; and values of all nodes."""
        y = {n: np.asarray(v, float).ravel() for n, v in y.items()}
        last = np.inf
        for _ in range(400):
            val = self.at(x, y)
            new = {n: val[self.f(n)] for n in y}
            d = max(np.max(np.abs(new[n] - y[n])) for n in y)
            y = new
            if d < 1e-15 or (d < 1e-13 and d >= last):
                return y, self.at(x, y)
            last = d
        raise term.Domain

    def jacobian(self, val):
        """Derivatives of all nodes by the sources at the solution, by the
        implicit function theorem."""
        src = [n for n in range(1, self.n + 1) if self.leaf(n)]
        ys = sorted(self.unk)
        jac = {}
        for n in range(1, self.n + 1):
            if self.leaf(n) or n in self.unk:
                jac[n] = {n: np.eye(val[n].size)}
                continue
            nd = self.node(n)
            a = [val[m].tolist() for m in nd['a']]
            jac[n] = {}
            for i, row in enumerate(self.den[n - 1]['jac']):
                for k, j, t in row:
                    c = term.ev(t, a)
                    for s, J in jac[nd['a'][k - 1]].items():
                        if s not in jac[n]:
                            jac[n][s] = np.zeros((val[n].size, J.shape[1]))
                        jac[n][s][i] += c * J[j - 1]
            for J in jac[n].values():
                if not np.all(np.isfinite(J)) or np.max(np.abs(J)) > 1e6:
                    raise term.Domain
        size = {y: val[y].size for y in ys}
        zero = np.zeros
        A = np.block([[(np.eye(size[u]) if u == v else 0.) - jac[self.f(u)].get(v, zero((size[u], size[v]))) for v in ys] for u in ys])
        out = {n: {} for n in jac}
        dY = {}
        for s in src:
            B = np.vstack([jac[self.f(u)].get(s, zero((size[u], val[s].size))) for u in ys])
            X = np.linalg.solve(A, B)
            i = 0
            for u in ys:
                dY[u, s] = X[i:i + size[u]]
                i += size[u]
        for n in jac:
            for s in src:
                J = jac[n].get(s, zero((val[n].size, val[s].size))) if n not in self.unk else dY[n, s]
                if n not in self.unk:
                    for u in ys:
                        if u in jac[n]:
                            J = J + jac[n][u] @ dY[u, s]
                out[n][s] = J
        return out


class BuiltEqn(prog.Built):
    """Explicit cycles; init: initial values of the unknowns (None: not given)."""

    def __init__(self, P, x0, init, **kw):
        self.init = init
        super().__init__(P, x0, None, **kw)

    def statement(self, grp, s):
        if s['s'] == 'create' and self.init.get(s['n']) is not None:
            n = s['n']
            self.var[n] = ap.lent(grp.create_output, self.prog.name(n), shape=tuple(self.prog.node(n)['sh']), val=self.init[n])
        else:
            super().statement(grp, s)


def starts(P, rng):
    """Initial values for the unknowns as given, and as arrays."""
    given, val = {}, {}
    for n in P.unk:
        sh = tuple(P.node(n)['sh'])
        r = rng.randint(4)
        if r == 0:
            given[n], val[n] = None, np.ones(sh)
        elif r == 1:
            v = round(float(rng.uniform(-1.5, 1.5)), 4)
            given[n], val[n] = v, np.full(sh, v)
        else:
            v = np.round(rng.uniform(-1.5, 1.5, sh), 4)
            given[n], val[n] = (v if r == 2 else v.tolist()), v
    return given, val


def points(P, rng, num):
    """Points with the solution there: (x, y0 given, y0, values, derivatives)."""
    out = []
    for _ in range(10):
        x = P.sample(rng)
        given, y0 = starts(P, rng)
        try:
            y, val = P.fixed(x, y0)
            out.append((x, given, y0, val, P.jacobian(val)))
        except (term.Domain, OverflowError, ZeroDivisionError):
            continue
        if len(out) == num:
            return out
    return None


def solver(kind):
    if kind == 'gs':
        return om.NonlinearBlockGS(maxiter=150, atol=1e-13, rtol=1e-300, iprint=-1)
    return om.NewtonSolver(solve_subsystems=False, maxiter=60, atol=1e-12, rtol=1e-300, iprint=-1, err_on_non_converge=True)


def linear(kind):
    if kind == 'direct':
        return om.DirectSolver()
    if kind == 'assembled':
        return om.DirectSolver(assemble_jac=True)
    if kind == 'krylov':
        return om.ScipyKrylov(atol=1e-13, rtol=1e-13, maxiter=300, iprint=-1)
    if kind == 'gs':
        return om.LinearBlockGS(maxiter=150, atol=1e-13, rtol=1e-300, iprint=-1)
    return None


def compare(p, names, val, bad, tag, what='value', tol=1e-8):
    for name, e in names.items():
        v = np.array(p.get_val(name))
        e = val[e].reshape(v.shape) if val[e].size == v.size else val[e]
        if not omrun.close(v, e, tol):
            bad.append((what, '%s: %s = %s, specified %s' % (tag, name, v.tolist(), e.tolist())))


def totals(p, of, wrt, jac, bad, tag):
    if not of or not wrt:
        return
    J = p.compute_totals(of=list(of), wrt=list(wrt))
    for a, n in of.items():
        for b, s in wrt.items():
            if not omrun.close(J[a, b], jac[n][s], 1e-7):
                bad.append(('deriv', '%s: d%s/d%s = %s, specified %s' % (
                    tag, a, b, np.array(J[a, b]).tolist(), jac[n][s].tolist())))


def cycle(job):
    """One explicit-cycle program under one configuration."""
    row, seed, c = job
    P = Eqn(row)
    rng = np.random.RandomState(seed % (2 ** 31))
    pts = points(P, rng, 2)
    if pts is None:
        return {'skip': True}
    bad = []
    out = {'skip': False, 'bad': bad, 'trace': None}
    named = {P.name(n): n for n in P.named()}
    wrt = {P.name(s): s for s in P.sources()}
    stage = 'build'
    try:
        with omrun.quiet(), omrun.limit(60), contextlib.ExitStack() as st:
            if c.get('sets'):
                st.enter_context(prog.permuted_sets(c['sets']))
            x, given, y0, val, jac = pts[0]
            b = BuiltEqn(P, x, given, reverse=c['reverse'])
            g = b.model
            if c['place'] == 'child':
                root = om.Group()
                root.add_subsystem('inner', g, promotes=['*'])
            else:
                root = g
            at = root if c['place'] == 'root' else g
            if c['solver'] != 'once':
                at.nonlinear_solver = solver(c['solver'])
                at.linear_solver = linear(c['linear'])
                if c['linear'] == 'assembled':
                    root.options['assembled_jac_type'] = 'csc'
            p = omrun.problem(root, c['mode'])
            p.final_setup()
            if c['trace'] and c['place'] == 'root':
                out['trace'] = b.trace()
            if c['trace'] == 'only':
                return out
            stage = 'start'
            for y in P.unk:
                v = np.array(p.get_val(P.name(y)))
                if not omrun.close(v, y0[y]):
                    bad.append(('start', 'initial value of %s is %s, given %s' % (P.name(y), v.tolist(), given[y])))
            if c['solver'] == 'once':
                y = y0
                for i in range(3):
                    if i == 2:
                        x, _, y = pts[1][:3]
                        for s in P.sources():
                            p.set_val(P.name(s), x[s])
                        for n in P.unk:
                            p.set_val(P.name(n), y[n])
                    try:
                        v = P.sweep(x, y)
                    except term.Domain:
                        out['skip'] = True
                        return out
                    stage = 'start'
                    p.run_model()
                    compare(p, named, v, bad, 'single run %d' % (i + 1), 'start')
                    y = {n: v[n] for n in P.unk}
                return out
            for i, (x, _, y, val, jac) in enumerate(pts + pts[:1]):
                if i:
                    for s in P.sources():
                        p.set_val(P.name(s), x[s])
                if i == 1:
                    for n in P.unk:
                        p.set_val(P.name(n), y[n])
                stage = 'value'
                try:
                    p.run_model()
                except om.AnalysisError:
                    if c['solver'] == 'newton':
                        out['skip'] = True
                        return out
                    raise
                compare(p, named, val, bad, 'run %d' % (i + 1))
                if i < 2:
                    stage = 'deriv'
                    totals(p, named, wrt, jac, bad, 'run %d' % (i + 1))
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        bad.append((stage, 'raised ' + omrun.describe(e) + ' @ ' + traceback.format_exc()[-400:]))
    return out


def replay(chk, fn, rows, configs, clauses=(), aspects=None, key=''):
    jobs = [(r, env.SEED * 7919 + 31 * k + i, c) for k, r in enumerate(rows) for i, c in enumerate(configs(k))]
    out = report.pmap(fn, jobs)
    index = {id(r): k for k, r in enumerate(rows)}

    def fail(job, what, msg):
        chk.violate('%s%s|program %d' % (key, what, index[id(job[0])]), '%s (%s)' % (msg, job[2]),
                    {'program': prog.statements(job[0]), 'row': job[0], 'config': job[2], 'seed': job[1]})
    traces, tj = [], []
    for j, o in zip(jobs, out):
        if isinstance(o, Exception):
            fail(j, 'run', 'raised ' + repr(o))
            continue
        if o['skip']:
            chk.count('programs_without_point')
            continue
        chk.count('replays')
        for a in sorted({x for x, _ in o['bad'] if aspects is None or x in aspects or x == 'build'}):
            fail(j, a, [m for x, m in o['bad'] if x == a][0])
        if o.get('trace') is not None:
            traces.append(o['trace'])
            tj.append(j)
    if clauses and traces:
        for i, fs in prog.validate(chk, traces).items():
            mine = [f for f in fs if f[1] in clauses]
            if mine:
                fail(tj[i], mine[0][1], 'group %s, subsystem %s: clause %s of OmTrace fails; recorded: %s' % (
                    mine[0][0], mine[0][2], mine[0][1], traces[i]['obs'][mine[0][0] - 1]))
    chk.count('traces_validated_against_impl', sum(1 for o in out if isinstance(o, dict) and not o['skip']))
    for r in rows[:3]:
        chk.sample(prog.statements(r))


class BuiltImplicit:
    """An ImplicitComponent with the residuals of a program, in a model.

    inputs of the component: 'indep' (an independent variable of the outer
    group) or 'free' (set from outside); bracket: {node: (x1, x2)}."""

    def __init__(self, P, x0, init, c, maxiter=None, bracket=None):
        self.P, self.x0, self.init, self.c, self.var = P, x0, init, c, {}
        self.bracket = bracket or {}
        outer = self
        kw = {} if maxiter is None else {'maxiter': maxiter}

        class Comp(ot.ImplicitComponent):
            def setup(self):
                if c['solve'] == 'comp':
                    self.nonlinear_solver = solver('newton')
                    self.linear_solver = linear(c['linear'])
                outer.fill(self.group)

        class Inherits(Comp):
            pass

        class Extends(Comp):
            def setup(self):
                super().setup()
        self.make_comp = lambda: (Comp, Inherits, Extends)[P.n % 3](**kw)

        class Outer(ot.Group):
            def setup(self):
                for n in outer.indeps():
                    self.create_indep_var(P.name(n), shape=tuple(P.node(n)['sh']), val=x0[n])
                self.add_subsystem('comp', outer.make_comp(), promotes=['*'])
                for y in sorted(P.unk):
                    v = self.declare_input(P.name(y), shape=tuple(P.node(y)['sh']))
                    self.register_output('z%d' % y, 3 * v)
        self.model = Outer()
        if c['solve'] == 'group':
            self.model.nonlinear_solver = solver('newton')
        if c['outer']:
            self.model.linear_solver = linear(c['outer'])
            if c['outer'] == 'assembled':
                self.model.options['assembled_jac_type'] = 'csc'

    def indeps(self):
        return [n for n in self.P.sources() if (n + self.c.get('indep', 0)) % 2]

    def fill(self, g):
        P, var = self.P, self.var
        inner = [n for n in range(1, P.n + 1) if P.node(n)['k'] == 'inner']
        # what an internal subsystem does not compute is declared before it
        for n in range(1, P.n + 1):
            if P.node(n)['k'] == 'in':
                v = self.x0[n]
                var[n] = g.declare_input(P.name(n), shape=tuple(P.node(n)['sh']),
                                         val=float(v.ravel()[0]) if v.size == 1 and n % 2 else v)
        for n in inner:
            sh, v = tuple(P.node(n)['sh']), self.x0[n]
            with g.create_group('sub%d' % n) as s:
                if n % 3:
                    q = s.create_indep_var('q%d' % n, shape=sh, val=v - 1.)
                    s.register_output('v%d' % n, q + 1.)
                else:      # the subsystem solves a cycle of its own
                    q = s.create_indep_var('q%d' % n, shape=sh, val=v - .25 * np.cos(v))
                    w = s.create_output('v%d' % n, shape=sh)
                    w.define(.25 * ot.cos(w) + q)
                    s.nonlinear_solver = solver('gs')
            var[n] = g.declare_input('v%d' % n, shape=sh)
        for s in P.row['pr']:
            n = s['n']
            nd = P.node(n)
            if s['s'] == 'create':
                kw = {} if self.init.get(n) is None else {'val': self.init[n]}
                var[n] = ap.lent(g.create_implicit_output, P.name(n), shape=tuple(nd['sh']), **kw)
            elif s['s'] == 'residual':
                if n in self.bracket:
                    a, b = self.bracket[n]
                    ap.lent(var[n].define_residual_bracketed, var[s['e']], x1=a, x2=b)
                else:
                    var[n].define_residual(var[s['e']])
            elif nd['k'] not in ('in', 'inner'):
                r2 = np.random.RandomState(n * 7919 + P.n)
                var[n] = ap.apply(ot, nd['op'], [var[a] for a in nd['a']], nd['p'], r2)


def implicit(job):
    """One program with implicit outputs under one configuration."""
    row, seed, c = job
    P = Eqn(row)
    rng = np.random.RandomState(seed % (2 ** 31))
    pts = points(P, rng, 2)
    if pts is None:
        return {'skip': True}
    bad = []
    out = {'skip': False, 'bad': bad}
    named = dict({P.name(y): y for y in P.unk})
    wrt = {P.name(s): s for s in P.sources()}
    stage = 'build'
    try:
        with omrun.quiet(), omrun.limit(60), contextlib.ExitStack() as st:
            if c.get('sets'):
                st.enter_context(prog.permuted_sets(c['sets']))
            x, given, y0, val, jac = pts[0]
            b = BuiltImplicit(P, x, given, c)
            p = omrun.problem(b.model, c['mode'])
            p.final_setup()
            inner = {n: x[n] for n in x if P.node(n)['k'] == 'inner'}
            for i in range(3):
                if i == 1:
                    x = {**pts[1][0], **inner}
                    try:
                        y, val = P.fixed(x, y0)
                        jac = P.jacobian(val)
                    except term.Domain:
                        break
                    for n in P.unk:
                        p.set_val(P.name(n), pts[1][2][n])
                elif i == 2:
                    x, val, jac = pts[0][0], pts[0][3], pts[0][4]
                if i:
                    for s in P.sources():
                        p.set_val(P.name(s), x[s])
                stage = 'value'
                p.run_model()
                compare(p, named, val, bad, 'run %d' % (i + 1))
                compare(p, {'z%d' % y: y for y in P.unk}, {y: 3 * val[y] for y in P.unk}, bad, 'run %d' % (i + 1))
                stage = 'deriv'
                totals(p, named, wrt, jac, bad, 'run %d' % (i + 1))
                if i == 0:
                    totals(p, {'z%d' % y: y for y in P.unk}, wrt, {y: {s: 3 * J for s, J in jac[y].items()} for y in P.unk},
                           bad, 'run %d' % (i + 1))
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        bad.append((stage, 'raised ' + omrun.describe(e) + ' @ ' + traceback.format_exc()[-400:]))
    return out
