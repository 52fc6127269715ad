"""Replay of the programs of OmProg.tla on the real code."""
import itertools
import json
import os

import numpy as np

from . import apply as ap
from . import catalog, env, omrun, term, tlc
from .omrun import om, ot

FEATS = {'indep', 'group', 'set', 'define', 'get', 'again'}
INV = ('WellScoped', 'Acyclic', 'NeverStuck', 'EmittedInOrder', 'ChildReadsBefore')


def generate(chk, num, nodes=14, groups=2, ops='all', feats=FEATS, salt=0, procs=None,
             module='OmProg', spec='Spec', inv=INV):
    """Programs written by the machine OmProg, num in total."""
    from concurrent.futures import ThreadPoolExecutor
    procs = procs or min(env.NPROC, max(1, num // 25))
    per = -(-num // procs)

    def one(k):
        return tlc.run(module, tlc.cfg({'MaxNodes': nodes, 'MaxGroups': groups, 'Ops': ops, 'Feats': set(feats)},
                                       spec=spec, invariants=inv),
                       args=['-simulate', 'num=%d' % per, '-depth', '400',
                             '-seed', str(1 + env.SEED * 100003 + salt * 1009 + k)],
                       workers=1, timeout=800, heap='2g')
    with ThreadPoolExecutor(procs) as ex:
        res = list(ex.map(one, range(procs)))
    rows, seen = [], set()
    for r in res:
        chk.tlc(r)
        for x in r.rows:
            h = json.dumps(x, sort_keys=True)
            if h not in seen:
                seen.add(h)
                rows.append(x)
    return rows


def small(chk, units, regs=2, groups=1, feats=('indep', 'group', 'set', 'define'), keep=None):
    """All programs of the small scope of OmSmall, or about `keep` of them."""
    import hashlib
    r = tlc.run('OmSmall', tlc.cfg({'MaxNodes': 14, 'MaxGroups': groups, 'Ops': 'all', 'Feats': set(feats),
                                    'MaxUnits': units, 'MaxRegs': regs}, spec='SmallSpec',
                                   invariants=('WellScoped', 'Acyclic', 'SmallStuck', 'ChildReadsBefore')),
                timeout=800, heap='12g')
    chk.tlc(r)
    rows = r.rows
    chk.count('small_scope_programs', len(rows))
    h = [hashlib.md5((json.dumps(x['pr']) + json.dumps([n['a'] for n in x['nd']]) + str(env.SEED)).encode()).hexdigest()
         for x in rows]
    o = sorted(range(len(rows)), key=lambda i: h[i])
    return [rows[i] for i in (o if keep is None else o[:keep])]


def pipeline(chk, units, groups=1, feats=('indep', 'group', 'set', 'define')):
    """The algorithm that sorts expressions, on all programs of the small scope."""
    chk.tlc(tlc.run('OmPipeline', tlc.cfg({'MaxNodes': 14, 'MaxGroups': groups, 'Ops': 'all', 'Feats': set(feats),
                                           'MaxUnits': units, 'MaxRegs': 2}, spec='PipeSpec',
                                          invariants=('Admitted', 'AllEmitted', 'PassedOnce', 'AfterDependents', 'OrderKept')),
                    timeout=800, heap='12g'))


class Program:
    """A program, with its statements as a tree of groups."""

    def __init__(self, row):
        self.row = row
        self.nd, self.gr, self.den = row['nd'], row['gr'], row['den']
        self.reg = set(row['reg'])
        self.n = len(self.nd)
        # whether children are promoted by lists of names
        self.lists = self.n % 6 > 3
        # how names are chosen
        self.naming = len(str(row['pr'])) % 8
        # the tree of statements: body[g] is a list of statements and ('sub', group)
        self.body = {1: []}
        stack = [1]
        for s in row['pr']:
            if s['s'] == 'open':
                self.body[stack[-1]].append({'s': 'sub', 'g': s['g']})
                self.body[s['g']] = []
                stack.append(s['g'])
            elif s['s'] == 'close':
                stack.pop()
            else:
                self.body[stack[-1]].append(s)

    def node(self, n):
        return self.nd[n - 1]

    def resolve(self, n):
        return self.node(n)['a'][0] if self.node(n)['k'] == 'alias' else n

    def name(self, n):
        """Name the user gives to node n."""
        n = self.resolve(n)
        k = self.node(n)['k']
        c = {'in': 'x', 'indep': 'p', 'out': 'y'}.get(k, 'v')
        if self.naming == 1:  # in the opposite order
            return '%s%d' % (c, 999 - n)
        if self.naming == 2:  # pairs that differ in case only
            return '%s%d' % (c if n % 2 else c.upper(), n // 2)
        if self.naming == 3:  # each begins with the one before
            return c + '1' + '_1' * (n - 1)
        if self.naming == 4:
            return '%s_is_a_name_of_many_words_and_the_number_%d' % (c, n)
        return '%s%d' % (c, n)

    def named(self):
        return [n for n in range(1, self.n + 1)
                if self.node(n)['k'] == 'out' or n in self.reg]

    def closure(self, roots):
        seen, todo = set(), list(roots)
        while todo:
            n = todo.pop()
            if n not in seen:
                seen.add(n)
                todo += self.node(n)['a']
        return seen

    def sources(self):
        """External inputs that occur in the model, and independent variables."""
        used = set()
        for g in range(1, len(self.gr) + 1):
            roots = [n for n in range(1, self.n + 1) if self.node(n)['g'] == g and
                     (self.node(n)['k'] in ('out', 'indep') or n in self.reg)]
            for m in self.closure(roots):
                if self.node(m)['g'] == g:
                    used |= {self.resolve(a) for a in self.node(m)['a']}
        return [n for n in range(1, self.n + 1)
                if self.node(n)['k'] == 'indep' or (self.node(n)['k'] == 'in' and n in used)]

    def interface(self, k):
        """Names of the inputs and of the named outputs of group k."""
        inside = {k}
        for h in range(k + 1, len(self.gr) + 1):
            if self.gr[h - 1]['up'] in inside:
                inside.add(h)
        ins, outs = set(), set()
        for h in inside:
            roots = [n for n in range(1, self.n + 1) if self.node(n)['g'] == h and
                     (self.node(n)['k'] in ('out', 'indep') or n in self.reg)]
            outs |= {self.name(n) for n in roots}
            for m in self.closure(roots):
                if self.node(m)['g'] == h:
                    ins |= {self.name(a) for a in self.node(m)['a'] if self.node(a)['k'] in ('in', 'alias')}
        return sorted(ins), sorted(outs)

    def order(self):
        out, mark = [], set()

        def visit(n):
            if n in mark:
                return
            mark.add(n)
            for a in self.node(n)['a']:
                visit(a)
            out.append(n)
        for n in range(1, self.n + 1):
            visit(n)
        return out

    def evaluate(self, x, derivs=True):
        """Values (and derivatives by source) of all nodes; x: node -> value."""
        val, jac = {}, {}
        for n in self.order():
            nd, den = self.node(n), self.den[n - 1]
            if nd['k'] in ('in', 'indep'):
                val[n] = np.asarray(x[n], float).ravel()
                jac[n] = {n: np.eye(val[n].size)}
                continue
            a = [val[m].tolist() for m in nd['a']]
            val[n] = np.array([term.ev(t, a) for t in den['el']], float)
            if nd['op'] == 'if_else' and abs(a[0][0]) < 1e-6:
                raise term.Domain
            if not np.all(np.isfinite(val[n])) or np.max(np.abs(val[n])) > 1e5:
                raise term.Domain
            if not derivs:
                continue
            jac[n] = {}
            for i, row in enumerate(den['jac']):
                for k, j, t in row:
                    c = term.ev(t, a)
                    for s, J in jac[nd['a'][k - 1]].items():
                        if s not in jac[n]:
                            jac[n][s] = np.zeros((val[n].size, J.shape[1]))
                        jac[n][s][i] += c * J[j - 1]
            for J in jac[n].values():
                if not np.all(np.isfinite(J)) or np.max(np.abs(J)) > 1e6:
                    raise term.Domain
        return val, jac

    def sample(self, rng):
        x = {}
        for n in range(1, self.n + 1):
            nd = self.node(n)
            if nd['k'] in ('in', 'indep'):
                size = int(np.prod(nd['sh']))
                if nd['cls'] not in ('pos', 'any'):
                    v = catalog.sample(nd['cls'], tuple(nd['sh']), rng).ravel()
                else:
                    v = rng.uniform(.4, 1.6, size) if nd['cls'] == 'pos' else \
                        rng.uniform(.1, 1.5, size) * np.where(rng.rand(size) < .5, -1, 1)
                x[n] = np.round(v, 6).reshape(nd['sh'])
        return x


def permuted(row, rng, tries=20):
    """The same program with its statements in another order: any order in
    which expressions are created before they are used, values that a child
    group reads are there before it is added, and inputs that refer to a child
    are declared after it was added.  None if only one order was found."""
    P = Program(row)
    ng = len(P.gr)

    def path(g):
        out = []
        while g:
            out.append(g)
            g = P.gr[g - 1]['up']
        return out[::-1]

    def unit(h, n):
        """('n', n) or ('g', child of h) that makes node n available in group h."""
        pa = path(P.node(n)['g'])
        if h not in pa:
            return None
        i = pa.index(h)
        return ('n', n) if i == len(pa) - 1 else ('g', pa[i + 1])

    def order(g):
        st = P.body[g]
        key = {}
        for i, s in enumerate(st):
            if s['s'] in ('node', 'create'):
                key['n', s['n']] = i
            elif s['s'] == 'sub':
                key['g', s['g']] = i
            elif s['s'] == 'reg':
                key['r', s['n']] = i
        before = [set() for _ in st]
        for i, s in enumerate(st):
            if s['s'] in ('node', 'create') and s['s'] == 'node':
                nd = P.node(s['n'])
                if nd['k'] == 'alias':
                    u = unit(g, nd['a'][0])
                    if u and u[0] == 'g':
                        before[i].add(key[u])
                    elif u and P.node(u[1])['k'] not in ('in', 'indep'):
                        # an output of this group: a child stays between the two
                        c = key['g', next(k for k, x in enumerate(P.gr, 1) if x['up'] == g and x['no'] == nd['af'])]
                        before[i].add(c)
                        before[c].add(key.get(('r', u[1]), key['n', u[1]]))
                else:
                    before[i] |= {key['n', a] for a in nd['a']}
            elif s['s'] in ('set', 'define'):
                nd = P.node(s['n'])
                before[i] |= {key['n', s['n']],
                              key['n', nd['a'][s['i'] - 1] if s['s'] == 'set' else nd['def']]}
            elif s['s'] == 'reg':
                before[i].add(key['n', s['n']])
            elif s['s'] == 'sub':
                for n in range(1, P.n + 1):
                    nd = P.node(n)
                    if nd['k'] == 'alias' and s['g'] in path(nd['g']):
                        m = nd['a'][0]
                        u = unit(g, m)
                        if u and u != ('g', s['g']) and P.node(m)['k'] != 'in':
                            if u[0] == 'g':
                                before[i].add(key[u])
                            else:
                                before[i].add(key.get(('r', m), key['n', m]))
                                # everything that is assigned to it comes first as well
        out, left = [], set(range(len(st)))
        while left:
            ready = sorted(i for i in left if not before[i] & left)
            if not ready:
                return None
            i = ready[rng.randint(len(ready))]
            out.append(i)
            left.discard(i)
        return [st[i] for i in out]

    def accept(bodies):
        """No output is created before a child group that its assignments need."""
        nd = json.loads(json.dumps(row['nd']))
        gr = json.loads(json.dumps(row['gr']))
        for g, b in bodies.items():
            subs, roots = 0, []
            for s in b:
                if s['s'] == 'sub':
                    subs += 1
                    gr[s['g'] - 1]['no'] = subs
                    gr[s['g'] - 1]['before'] = sorted(roots)
                elif s['s'] in ('node', 'create'):
                    k = nd[s['n'] - 1]['k']
                    nd[s['n'] - 1]['af'] = 0 if k == 'indep' else subs
                    if k in ('indep', 'out'):
                        roots.append(s['n'])
                elif s['s'] == 'reg':
                    roots.append(s['n'])
        for n in range(1, P.n + 1):
            if nd[n - 1]['k'] == 'out':
                for m in P.closure([n]):
                    x = nd[m - 1]
                    if x['g'] == nd[n - 1]['g'] and (x['k'] in ('in', 'alias') and x['af'] > nd[n - 1]['af']):
                        return None
        new = dict(row, nd=nd, gr=gr, pr=[])

        def emit(g):
            for s in bodies[g]:
                if s['s'] == 'sub':
                    new['pr'].append({'s': 'open', 'g': s['g']})
                    emit(s['g'])
                    new['pr'].append({'s': 'close'})
                else:
                    new['pr'].append(s)
        emit(1)
        return new

    for _ in range(tries):
        bodies = {g: order(g) for g in range(1, ng + 1)}
        if any(b is None for b in bodies.values()):
            return None
        new = accept(bodies)
        if new is not None and new['pr'] != row['pr']:
            return new
    return None


class Built:
    """A program built by the implementation."""

    def __init__(self, prog, x0, rng, reverse=False, bodies=None, flat=False, style='class', early=False):
        self.prog, self.var, self.groups = prog, {}, {}
        self.x0, self.rng = x0, rng
        self.reverse = reverse
        self.bodies = bodies or prog.body
        self.flat = flat          # write everything in one group
        self.early = early        # inputs are declared at the beginning of their group as well
        # names in a group may begin differently from those outside, which are given on promotion
        self.prefix = {1: ''}
        for k in range(2, len(prog.gr) + 1):
            up = self.prefix[prog.gr[k - 1]['up']]
            renamed = prog.lists and not flat and prog.gr[k - 1]['style'] not in ('with', 'om') and (k + len(prog.reg)) % 2
            self.prefix[k] = 'r%d_' % k if renamed else up
        self.model = self.make_group(1, style)

    def make_group(self, g, style):
        if style == 'class':
            outer = self

            how = (g + self.prog.n) % 4
            at = len(self.bodies[g]) // 2

            class G(ot.Group):
                def setup(self):
                    if how < 2:
                        outer.fill(self, g)
                    elif how == 2:
                        outer.fill(self, g, part=(None, at))
                    else:
                        outer.fill(self, g, part=(at, None))

            class Inherits(G):
                pass

            class Extends(G):
                def setup(self):
                    super().setup()
                    outer.fill(self, g, part=(at, None))

            class Begins(G):
                def setup(self):
                    outer.fill(self, g, part=(None, at))
                    super().setup()
            obj = (G, Inherits, Extends, Begins)[how]()
        else:
            obj = ot.Group()
            self.fill(obj, g)
        obj.reverse_branch_sorting = self.reverse
        self.groups[g] = obj
        return obj

    def om_component(self, g):
        prog = self.prog
        x, y = [s['n'] for s in self.bodies[g] if s['s'] == 'node']
        xn, yn, sh = self.local(x), self.local(y), tuple(prog.node(x)['sh'])
        src = prog.resolve(x)
        val = self.x0[src] if src in self.x0 else np.full(sh, .77)

        class Triple(om.ExplicitComponent):
            def setup(self):
                self.add_input(xn, shape=sh, val=val)
                self.add_output(yn, shape=sh)
                r = np.arange(int(np.prod(sh)))
                self.declare_partials(yn, xn, rows=r, cols=r, val=3.)

            def compute(self, inputs, outputs):
                outputs[yn] = 3 * inputs[xn]
        obj = Triple()
        self.groups[g] = obj
        return obj

    def local(self, n):
        """Name of node n in its group."""
        return self.prefix[self.prog.node(n)['g']] + self.prog.name(n)

    def fill(self, grp, g, part=(None, None)):
        """Write the statements of group g, or those of a part of it."""
        if self.early and part[0] is None:
            keep = self.__dict__.setdefault('kept', [])
            for s in self.bodies[g]:
                if s['s'] == 'node' and self.prog.node(s['n'])['k'] in ('in', 'alias'):
                    keep.append(self.declare(grp, s['n']))
        for s in self.bodies[g][slice(*part)]:
            self.statement(grp, s)

    def statement(self, grp, s):
        prog, var = self.prog, self.var
        if s['s'] == 'sub':
            k = s['g']
            if self.flat:
                return self.fill(grp, k)
            style = prog.gr[k - 1]['style']
            name = 'g%d' % k
            if style == 'om':
                grp.add_subsystem(name, self.om_component(k), promotes=['*'])
            elif style == 'with':
                with grp.create_group(name) as sub:
                    sub.reverse_branch_sorting = self.reverse
                    self.groups[k] = sub
                    self.fill(sub, k)
            else:
                # children are promoted in one way, the other, or both in turn; by '*' or by their names
                apart = (False, True, k % 2 == 0, k % 3 == 1, False, True)[prog.n % 6]
                ins, outs = (['*'], ['*'])
                if prog.lists:
                    q, up = self.prefix[k], self.prefix[prog.gr[k - 1]['up']]
                    ins, outs = ([q + x if q == up else (q + x, up + x) for x in xs] for xs in prog.interface(k))
                kw = dict(promotes_inputs=ins, promotes_outputs=outs) if apart else dict(promotes=sorted(set(ins) | set(outs), key=str))
                grp.add_subsystem(name, self.make_group(k, style), **kw)
            return
        n = s['n']
        nd = prog.node(n)
        sh = tuple(nd['sh'])
        if s['s'] == 'node':
            if nd['k'] == 'alias' and self.flat:
                var[n] = var[prog.resolve(n)]
            elif nd['k'] in ('in', 'alias'):
                var[n] = self.declare(grp, n)
            elif nd['k'] == 'indep':
                v = self.x0[n]
                kw = {'dv': True} if nd['p']['dv'] else {}
                var[n] = ap.lent(grp.create_indep_var, self.local(n), shape=sh,
                                 val=float(v.ravel()[0]) if v.size == 1 and n % 2 else v, **kw)
            else:
                r2 = np.random.RandomState(n * 7919 + len(prog.nd) + 1009 * int(np.prod(sh)))
                var[n] = ap.apply(ot, nd['op'], [var[a] for a in nd['a']], nd['p'], r2)
        elif s['s'] == 'create':
            var[n] = grp.create_output(self.local(n), shape=sh)
        elif s['s'] == 'set':
            i = s['i'] - 1
            var[n][ap.pykey(nd['p']['keys'][i], sh, np.random.RandomState(n * 31 + i + 1009 * int(np.prod(sh))))] = var[nd['a'][i]]
        elif s['s'] == 'define':
            var[n].define(var[nd['def']])
        elif s['s'] == 'reg':
            grp.register_output(self.local(n), var[n])

    def declare(self, grp, n):
        prog = self.prog
        sh, src = tuple(prog.node(n)['sh']), prog.resolve(n)
        if src in self.x0 and prog.node(src)['k'] == 'in':
            v = self.x0[src]
            val = float(v.ravel()[0]) if v.size == 1 and n % 2 else v
        else:
            val = np.full(sh, .77)
        return ap.lent(grp.declare_input, self.local(n), shape=sh, val=val)

    # observation --------------------------------------------------------
    def names(self, n):
        """Promoted name of the value of node n."""
        return self.var[n].name

    def observe(self):
        """What OmTrace expects: for each group the subsystems in order."""
        prog, model = self.prog, self.model
        conns = model._conn_global_abs_in2out
        # names are unique in the program; those that are not promoted have a path before them
        out_prom = {a: promoted(model, a, 'output').rsplit('.', 1)[-1] for a in model._var_abs2meta['output']}
        in_prom = {a: promoted(model, a, 'input').rsplit('.', 1)[-1] for a in model._var_abs2meta['input']}
        node_of = {}
        for n, v in self.var.items():
            if prog.node(n)['k'] not in ('in', 'alias'):
                q = self.prefix[prog.node(n)['g']]
                node_of.setdefault(v.name[len(q):] if v.name.startswith(q) else v.name, n)
        # components of OpenMDAO inside the program are not built from expressions
        for g in range(1, len(prog.gr) + 1):
            if prog.gr[g - 1]['style'] == 'om':
                y = [s['n'] for s in self.bodies[g] if s['s'] == 'reg'][0]
                node_of[prog.name(y)] = y
        ext = {prog.name(n): n for n in range(1, prog.n + 1) if prog.node(n)['k'] == 'in'}

        def inside(names, path):
            return [a for a in names if a.startswith(path + '.')]

        # components that compute no expression of the program (for example a
        # copy of a repeated operand) are helpers of the components that read
        # them; they are numbered -1, -2, ...
        helper = {}
        for sub in model.system_iter(recurse=True, include_self=False):
            if isinstance(sub, om.Group) or sub.name == '_auto_ivc':
                continue
            outs = inside(out_prom, sub.pathname)
            if outs and all(out_prom[a] not in node_of for a in outs):
                if any(src in outs for src in conns.values()):
                    helper[sub.pathname] = -1 - len(helper)

        def reads(path, deep=True):
            rd = set()
            for a in inside(in_prom, path):
                src = conns.get(a)
                if src is None or src.startswith('_auto_ivc'):
                    rd.add(ext.get(in_prom[a], 0))
                elif out_prom[src] in node_of:
                    rd.add(node_of[out_prom[src]])
                else:
                    h = src.rsplit('.', 1)[0]
                    if h in helper:
                        rd.add(helper[h])
                        rd.update(reads(h))
                    else:
                        rd.add(0)
            return sorted(rd)

        obs = []
        kids = {id(self.groups[k]): k for k in self.groups}
        for g in range(1, len(prog.gr) + 1):
            sysm = self.groups[g]
            lst = []
            for sub in ([sysm] if prog.gr[g - 1]['style'] == 'om' else omrun.components(sysm)):
                path = sub.pathname
                if sub.name == '_auto_ivc':
                    continue
                if id(sub) in kids and sub is not sysm:
                    lst.append({'t': 's', 'n': [kids[id(sub)]], 'rd': [r for r in reads(path) if r >= 0]})
                elif path in helper:
                    lst.append({'t': 'h', 'n': [helper[path]], 'rd': reads(path)})
                else:
                    lst.append({'t': 'c', 'n': sorted(node_of.get(out_prom[a], 0) for a in inside(out_prom, path)),
                                'rd': reads(path)})
            obs.append(lst)
        return obs

    def outputs(self):
        """Promoted names of all outputs that the user named."""
        m = self.model
        mine = {self.prog.name(n) for n in self.prog.named()}
        return sorted(x for x in (promoted(m, a, 'output') for a in m._var_abs2meta['output']) if x in mine), \
            sum(1 for a in m._var_abs2meta['output'] if not a.startswith('_auto_ivc'))

    def trace(self):
        row = self.prog.row
        return {'nd': [{k: x[k] for k in ('k', 'a', 'g', 'af', 'def')} for x in row['nd']],
                'gr': [{k: x[k] for k in ('up', 'no', 'before')} for x in row['gr']],
                'reg': row['reg'], 'obs': self.observe()}


def promoted(model, abs_name, io):
    if hasattr(model, '_resolver'):
        return model._resolver.abs2prom(abs_name, io)
    return model._var_allprocs_abs2prom[io][abs_name]


def points(prog, seed, num=2, tries=8):
    """Points in the domain of the program with the values there."""
    rng = np.random.RandomState(seed % (2 ** 31))
    out = []
    for _ in range(tries):
        x = prog.sample(rng)
        try:
            out.append((x, ) + prog.evaluate(x))
        except (term.Domain, OverflowError):
            continue
        if len(out) == num:
            return out
    return None


_hash_seed = [0]


class permuted_sets:
    """Iterate internal sets of expressions in another order: the order of a
    set follows the hashes of its elements."""

    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        from omtools.core.variable import Variable
        self.cls = Variable
        rng = np.random.RandomState(self.seed)
        table = {}

        def h(v):
            k = id(v)
            if k not in table:
                table[k] = (int(rng.randint(1 << 30)), v)
            return table[k][0]
        self.had = '__hash__' in Variable.__dict__
        self.old = Variable.__hash__
        Variable.__hash__ = h

    def __exit__(self, *a):
        if self.had:
            self.cls.__hash__ = self.old
        else:
            del self.cls.__hash__


def values_at(p, prog, val, bad, tag):
    for n in prog.named():
        v = np.array(p.get_val(prog.name(n)))
        e = val[n].reshape(prog.node(n)['sh'])
        if not omrun.close(v, e, 1e-8):
            bad.append(('value', '%s: %s = %s, specified %s' % (tag, prog.name(n), v.tolist(), e.tolist())))


def totals_at(p, prog, jac, bad, tag):
    of = [prog.name(n) for n in prog.named()]
    src = prog.sources()
    if not of or not src:
        return
    wrt = [prog.name(n) for n in src]
    J = p.compute_totals(of=of, wrt=wrt)
    for n in prog.named():
        for s in src:
            e = jac[n].get(s)
            if e is None:
                e = np.zeros((int(np.prod(prog.node(n)['sh'])), int(np.prod(prog.node(s)['sh']))))
            if not omrun.close(J[prog.name(n), prog.name(s)], e, 1e-7):
                bad.append(('deriv', '%s: d%s/d%s = %s, specified %s' % (
                    tag, prog.name(n), prog.name(s), np.array(J[prog.name(n), prog.name(s)]).tolist(), e.tolist())))


def statements(row):
    """The program as readable text (for replay files)."""
    prog = Program(row)
    out = []
    for s in row['pr']:
        if s['s'] == 'node':
            nd = prog.node(s['n'])
            out.append('%s %d = %s%s %s %s' % (nd['k'], s['n'], nd['op'], nd['a'], tuple(nd['sh']),
                                              '' if nd['k'] != 'op' and nd['k'] != 'get' else nd['p']))
        else:
            out.append(json.dumps(s))
    return out


def validate(chk, traces, label='OmTrace'):
    """Check recorded models against OmTrace; returns {trace: [(group, clause, at)]}."""
    bad = {}
    done = 0
    CH = 400
    for i in range(0, len(traces), CH):
        part = traces[i:i + CH]
        res = tlc.run('OmTrace', tlc.cfg({'File': 'trace.json'}), files={'trace.json': json.dumps(part)}, timeout=800)
        chk.tlc(res)
        ok = {r['t'] for r in res.rows if r['g'] == 0}
        done += len(ok)
        if len(ok) != len(part):
            raise RuntimeError('OmTrace consumed %d of %d traces' % (len(ok), len(part)))
        for r in res.rows:
            if r['g']:
                bad.setdefault(i + r['t'] - 1, []).extend((r['g'], c, at) for c, at in r['bad'])
    chk.count('traces_validated_against_impl', done)
    return bad
