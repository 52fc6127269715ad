"""Replay of the catalog of operations (OmCatalog.tla) on the real code."""
import numpy as np

from . import apply as ap
from . import env, report, term, tlc


def sample(dom, shape, rng):
    n = int(np.prod(shape))
    def u(a, b):
        return rng.uniform(a, b, n)
    def sgn():
        return np.where(rng.rand(n) < .5, -1., 1.)
    if dom == 'any':
        v = u(.05, 2) * sgn()
    elif dom == 'anyz':
        v = u(.05, 2) * sgn()
        v[rng.randint(n)] = 0.
    elif dom == 'nz':
        v = u(.3, 2.2) * sgn()
    elif dom == 'pos':
        v = u(.3, 2.5)
    elif dom == 'posz':
        v = u(.3, 2.5)
        v[rng.randint(n)] = 0.
    elif dom == 'posw':
        v = np.exp(u(-5, 5))
    elif dom == 'unit':
        v = u(-.95, .95)
    elif dom == 'wide':
        v = u(.05, 9) * sgn()
    elif dom == 'offcos':
        v = u(-1.3, 1.3) + np.pi * rng.randint(-2, 3, n)
    elif dom == 'offsin':
        v = u(.3, 2.8) + np.pi * rng.randint(-2, 2, n)
    elif dom == 'neg1':
        v = -u(.01, 2)
    elif dom == 'pos1':
        v = u(.01, 2)
    elif dom == 'cond1':      # changes sign from point to point
        v = u(.01, 2) * rng.randint(-1, 2)
    elif dom == 'huge':
        v = rng.choice((19., 30., 180., 400., 720., 1e4), n) * sgn()
    elif dom == 'hugexp':
        v = rng.choice((30., 100., 290., 340.), n) * sgn()
    elif dom == 'hugpos':
        v = rng.choice((1e-150, 1e-30, 1e40, 1e160), n)
    elif dom == 'edge':
        v = rng.choice((0., .9999999, 1e-9), n) * sgn()
    elif dom == 'zero1':
        v = np.zeros(n)
    else:
        raise KeyError(dom)
    return v.reshape(shape)


SPECIAL = {
    'ones': dict(any=(0, 1, -1, 2), anyz=(0, 1, -1), nz=(1, -1, 2, -.5), pos=(1, .25, 4), posz=(0, 1, 4), posw=(1, 10, 100, 1e-3), unit=(0, .5, -.5, .25),
                 wide=(0, 1, -1, 7), offcos=(0, 1, -1, np.pi), offsin=(np.pi / 2, 1, -1), neg1=(-1, ), pos1=(1, ), zero1=(0, ), cond1=(1, -1, 0)),
    'large': dict(any=(30, -25, 12.5, -40, 1), anyz=(0, 20, -30), nz=(40, -35, 1e3), pos=(50, 20.5, 7), posz=(0, 50, 1e6), posw=(1e6, 1e-6, 1e12), unit=(.999, -.999, .7),
                  wide=(100, -321.5, 50), offcos=(40, -60.5, 21), offsin=(40, -60.5, 21), neg1=(-1e3, ), pos1=(1e3, ), zero1=(0, ), cond1=(1e3, -1e3)),
    'small': dict(any=(1e-5, -1e-4, 1e-3), anyz=(0, 1e-4), nz=(1e-3, -1e-2), pos=(1e-4, 1e-2), posz=(0, 1e-4), posw=(1e-8, 1e-3), unit=(1e-5, -1e-4, 1e-3),
                  wide=(1e-5, -1e-3), offcos=(1e-5, -1e-4), offsin=(1e-2, -1e-2), neg1=(-1e-9, ), pos1=(1e-9, ), zero1=(0, ), cond1=(-1e-9, 1e-9, 0)),
}


def special(kind, ins, rng):
    """A point with unusual values: zeros and ones, large or small numbers, or
    the same number everywhere."""
    if kind == 'ties':
        pts = [sample(i['dom'], i['sh'], rng) for i in ins]
        return [np.full(x.shape, x.ravel()[0]) for x in pts]
    return [sample(i['dom'], i['sh'], rng) if i['dom'] not in SPECIAL[kind] else
            rng.choice(SPECIAL[kind][i['dom']], int(np.prod(i['sh']))).astype(float).reshape(i['sh']) for i in ins]


def close(a, b, tol, floor=1e-12):
    """Relative error at most tol, for small numbers too."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape or not np.all(np.isfinite(a)):
        return False
    top = max(1., float(np.max(np.abs(b))) if b.size else 1.)
    return bool(np.all(np.abs(a - b) <= tol * np.maximum(np.abs(a), np.abs(b)) + floor * top))


def run_case(job):
    """Returns a list of (aspect, message); aspect is 'value' or 'deriv'."""
    from . import omrun
    row, seed, variant, modes = job
    ot = omrun.ot
    e, d = row['e'], row['d']
    rng = np.random.RandomState((seed * 1000003 + row['n'] * 97 + hash_str(e['op'])) % (2 ** 31))
    ins = e['ins']
    pts = [[sample(i['dom'], i['sh'], rng) for i in ins] for _ in range(2)]
    pts += [special(s, ins, rng) for s in ('ones', 'large', 'small', 'ties')]
    if any(i['dom'] == 'cond1' for i in ins):
        pts += [[sample(i['dom'], i['sh'], rng) for i in ins] for _ in range(12)]
    place = row['from']
    shape = tuple(d['shape'])
    bad = []

    def build(g):
        x = []
        for k, i in enumerate(ins):
            if place[k] == 'child':
                child(g, k, tuple(i['sh']))
        for k, i in enumerate(ins):
            sh = tuple(i['sh'])
            if place[k] == 'child':
                x.append(g.declare_input('c%d' % k, shape=sh))
            elif place[k] == 'indep':
                x.append(ap.lent(g.create_indep_var, 'x%d' % k, shape=sh, val=pts[0][k]))
            else:
                x.append(ap.lent(g.declare_input, 'x%d' % k, shape=sh, val=pts[0][k]))
                if place[k] != 'input':
                    x[k] = 1 * x[k]
                if place[k] == 'before':
                    g.register_output('e%d' % k, x[k])
        a = [x[k - 1] for k in e['args']]
        r2 = np.random.RandomState(seed + row['n'])
        if e['op'] == 'pos':
            a = [1 * a[0]]
        if e['op'] == 'assemble':
            z = g.create_output('z', shape=shape)
            for key, x_ in zip(e['p']['keys'], a):
                z[ap.pykey(key, shape, r2)] = x_
        else:
            z = ap.apply(ot, e['op'], a, e['p'], r2, variant)
            g.register_output('z', z)
        for k in range(len(ins)):
            if place[k] == 'after':
                g.register_output('e%d' % k, x[k])
        g.register_output('w', -z)

    def child(g, k, sh):
        with g.create_group('child%d' % k) as c:
            c.register_output('c%d' % k, 1 * c.declare_input('x%d' % k, shape=sh, val=pts[0][k]))

    def switch(pt):
        return e['op'] == 'if_else' and not np.all(pt[e['args'][0] - 1])

    def expected(pt):
        a = [list(map(float, np.ravel(pt[k - 1]))) for k in e['args']]
        v = np.array([term.ev(t, a) for t in d['el']]).reshape(shape)
        J = [np.zeros((v.size, np.size(x))) for x in pt]
        for i, row_ in enumerate(d['jac']):
            for k, j, t in row_:
                J[e['args'][k - 1] - 1][i, j - 1] += term.ev(t, a)
        return v, J

    specified = []
    for n, pt in enumerate(pts):
        try:
            specified.append(expected(pt))
            if n > 1 and not all(np.all(np.abs(x) < 1e14) for x in [specified[-1][0]] + specified[-1][1]):
                specified[-1] = None
        except (term.Domain, OverflowError):
            if n < 2:
                raise
            specified.append(None)

    for mode in modes:
        stage = 'value'
        try:
            with omrun.quiet(), omrun.limit(60):
                p = omrun.problem(omrun.make(build), mode, '' if mode == 'cs' else ('', 'csc', '')[(row['n'] // 2 + seed) % 3])
                for n, pt in enumerate(pts):
                    if specified[n] is None or mode == 'cs' and (n == 3 or switch(pt)):   # complex functions overflow sooner
                        continue
                    if n:
                        for k, v in enumerate(pt):
                            p.set_val('x%d' % k, v)
                    stage = 'value'
                    p.run_model()
                    ev, eJ = specified[n]
                    z, w = np.array(p.get_val('z')), np.array(p.get_val('w'))
                    if z.shape != shape:
                        bad.append(('value', 'shape %s, specified %s' % (z.shape, shape)))
                        break
                    if not close(z, ev, 1e-8) or not close(w, -ev, 1e-8):
                        bad.append(('value', 'run %d: value %s, specified %s' % (n, z.tolist(), ev.tolist())))
                    stage = 'deriv'
                    J = p.compute_totals(of=['z', 'w'], wrt=['x%d' % k for k in range(len(ins))])
                    for k in range(len(ins)):
                        for o, s in (('z', 1), ('w', -1)):
                            if not close(J[o, 'x%d' % k], s * eJ[k], 1e-7):
                                bad.append(('deriv', 'run %d, %s mode: d%s/dx%d = %s, specified %s' % (
                                    n, mode, o, k, np.array(J[o, 'x%d' % k]).tolist(), (s * eJ[k]).tolist())))
        except BaseException as exc:
            if isinstance(exc, term.Domain):
                raise
            bad.append((stage, 'raised ' + omrun.describe(exc)))
    return bad


def program(row):
    """A catalog entry as a program (see OmProg.tla)."""
    e, d = row['e'], row['d']
    nd, pr = [], []
    none = {'shape': [], 'el': [], 'jac': []}
    for i in e['ins']:
        nd.append(dict(k='in', op='in', a=[], p={}, sh=i['sh'], cls=i['dom'], g=1, af=0, **{'def': 0}))
        pr.append({'s': 'node', 'n': len(nd)})
    n = len(nd) + 1
    k = {'assemble': 'out', 'get': 'get'}.get(e['op'], 'op')
    nd.append(dict(k=k, op=e['op'], a=e['args'], p=e['p'], sh=d['shape'], cls='any', g=1, af=0, **{'def': 0}))
    if k == 'out':
        pr += [{'s': 'create', 'n': n}] + [{'s': 'set', 'n': n, 'i': i + 1} for i in range(len(e['args']))]
    else:
        pr += [{'s': 'node', 'n': n}, {'s': 'reg', 'n': n}]
    return dict(nd=nd, pr=pr, gr=[{'up': 0, 'no': 0, 'style': 'model', 'before': []}], reg=[] if k == 'out' else [n],
                den=[none] * len(e['ins']) + [d])


def kin(chk):
    """Programs of one operation each, by operation."""
    res = tlc.run('OmCatalog', tlc.cfg({'Family': 'all', 'Deep': False, 'Rot': 0}, invariants=('WellFormed', 'MovesOnly')), timeout=800)
    chk.tlc(res)
    out = {}
    for r in sorted(res.rows, key=lambda r: r['n']):
        if all(len(x) <= 40 for x in r['d']['jac']):
            out.setdefault(r['e']['op'], []).append(program(r))
    return out


def hash_str(s):
    h = 7
    for c in s:
        h = (h * 131 + ord(c)) % 1000003
    return h


def name(row, variant):
    e = row['e']
    return '%s%s%s%s' % (e['op'], ['%s%s' % (f, tuple(i['sh'])) for f, i in zip(row['from'], e['ins'])], e['args'],
                         (' ' + '/'.join(variant)) if variant else '')


def check(chk, family, aspects, ops=None, invariants=('WellFormed', 'MovesOnly'), rot=0, deep=None, keep=None, modes=None):
    res = tlc.run('OmCatalog', tlc.cfg({'Family': family, 'Deep': env.DEEP if deep is None else deep, 'Rot': rot + env.SEED},
                                       invariants=invariants), timeout=800)
    chk.tlc(res)
    rows = sorted((r for r in res.rows if ops is None or r['e']['op'] in ops), key=lambda r: r['n'])
    if keep is not None:
        rows = [r for r in rows if keep(r)]
    jobs = []
    for r in rows:
        variants = [None]
        if r['e']['op'] == 'einsum':
            variants = [(a, f) for a in ('old', 'new') for f in ('dense', 'sparse')]
        for k, v in enumerate(variants):
            both = ('fwd', 'rev') if env.DEEP else (('fwd', 'rev')[(r['n'] + k + env.SEED) % 2], )
            jobs.append((r, env.SEED, v, modes or both))
    from . import omrun  # noqa: F401  (imported before forking)
    out = report.pmap(run_case, jobs)
    distinct = set()
    for j, bad in zip(jobs, out):
        chk.count('traces_validated_against_impl')
        distinct.add(name(j[0], j[2]) + str(j[0]['e']['p']))
        if isinstance(bad, Exception):
            bad = [('value', 'raised ' + repr(bad)), ('deriv', 'raised ' + repr(bad))]
        seen = set()
        for aspect, msg in bad:
            a = aspect if aspect in aspects else ('value' if 'raised' in msg and aspect == 'value' else None)
            if a is None or a in seen:
                continue
            seen.add(a)
            chk.violate('%s|%s %s' % (j[0]['e']['op'], name(j[0], j[2]), j[0]['e']['p']), msg,
                        {'entry': j[0]['e'], 'denotation': j[0]['d'], 'variant': j[2], 'modes': j[3]})
    chk.count('distinct_cases', len(distinct))
    for j in jobs[:: max(1, len(jobs) // 3)][:3]:
        chk.sample({'operation': name(j[0], j[2]), 'parameters': j[0]['e']['p'],
                    'element_1': j[0]['d']['el'][0], 'shape': j[0]['d']['shape']})
    return rows
