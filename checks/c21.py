from concurrent.futures import ThreadPoolExecutor

from lib import env, omrun, report, tlc
LEVEL = 'model_checking'

PY = {'int': int, 'float': float, 'str': str, 'bool': bool, 'list': list, 'none': type(None)}


def value(x):
    t, v = x['ty'], x['v']
    return {'int': lambda: int(v), 'float': lambda: v / 2, 'bool': lambda: bool(v), 'str': lambda: 's%d' % v,
            'list': lambda: [v], 'none': lambda: None}[t]()


def even(name, v):
    if isinstance(v, int) and v % 2:
        raise ValueError('%s must be even' % name)


def declare(o, n, d, k):
    kw = {}
    ts = [PY[t] for t in sorted(d['ts'])]
    if ts:
        kw['types'] = ts[0] if len(ts) == 1 and k % 2 else (tuple, list, set)[k % 3](ts)
    if d['vs']:
        kw['values'] = (tuple, list, set)[k % 3](value(v) for v in d['vs'])
    if d['lo'] != 99:
        kw['lower'] = d['lo']
    if d['up'] != 99:
        kw['upper'] = d['up']
    if d['chk']:
        kw['check_valid'] = even
    if d['an']:
        kw['allow_none'] = True
    if d['def']['ty'] != 'undef':
        kw['default'] = value(d['def'])
    if d['bad'] == 'both':
        kw.update(types=int, values=[1, 2])
    elif d['bad'] == 'values':
        kw.update(values=3)
    elif d['bad'] == 'types':
        kw.update(types='int')
    o.declare(n, desc='option %s' % n, **kw)


def compare(o, want):
    for n, s in want.items():
        if (n in o) != s['decl'] or (n in list(o)) != s['decl']:
            return '%s is %sdeclared' % (n, '' if n in o else 'not ')
        try:
            v = o[n]
        except (KeyError, RuntimeError):
            if s['has']:
                return '%s cannot be read, specified %r' % (n, value(s['val']))
            continue
        if not s['has']:
            return '%s reads %r; specified: cannot be read' % (n, v)
        w = value(s['val'])
        if type(v) is not type(w) or v != w:
            return '%s reads %r, specified %r' % (n, v, w)
    return None


def run_one(row):
    import omtools.api as ot
    cls = ot.OptionsDictionary
    hist = row['hist']
    # leading accepted declarations can be made by a subclass
    o = cls(read_only=row['ro'])
    other = cls()
    other.declare('a', default='other')
    told = []
    for k, h in enumerate(hist):
        c = h['call']
        n = c['n']
        told.append(' '.join(str(x) for x in c.values()))
        try:
            if c['c'] == 'declare':
                declare(o, n, c['d'], k + len(hist))
            elif c['c'] == 'set':
                if k % 4 == 3:
                    o.update({n: value(c['x'])})
                else:
                    o[n] = value(c['x'])
            elif c['c'] == 'update':
                o.update({n: value(c['x']), c['m']: value(c['y'])})
            elif c['c'] == 'get':
                o[n]
            else:
                o.undeclare(n)
            ok = True
        except Exception as e:
            ok = False
            what = omrun.describe(e)
        if ok != h['ok']:
            return ('verdict', 'call %d %s; specified: %s' % (k + 1, 'accepted' if ok else 'raised ' + what,
                                                             'accepted' if h['ok'] else 'raises')), told
        bad = compare(o, h['opt'])
        if bad:
            return ('state', 'after call %d: %s' % (k + 1, bad)), told
    if other['a'] != 'other' or list(other) != ['a']:
        return ('state', 'another dictionary changed'), told
    return None, told


def subclass_one(row):
    """The same calls, made by initialize and by the arguments of the constructor."""
    import omtools.api as ot
    decls = [h for h in row['hist'] if h['call']['c'] == 'declare']
    sets = [h for h in row['hist'] if h['call']['c'] == 'set']
    if row['hist'] != decls + sets or len({h['call']['n'] for h in sets}) != len(sets) or not all(h['ok'] for h in decls):
        return None, []

    class O(ot.OptionsDictionary):
        def initialize(self):
            for k, h in enumerate(decls):
                declare(self, h['call']['n'], h['call']['d'], k)
    told = ['subclass'] + [str(h['call']) for h in row['hist']]
    try:
        o = O(read_only=row['ro'], **{h['call']['n']: value(h['call']['x']) for h in sets})
    except Exception as e:
        if all(h['ok'] for h in sets):
            return ('verdict', 'constructor raised %s' % omrun.describe(e)), told
        return None, told
    if not all(h['ok'] for h in sets):
        return ('verdict', 'constructor accepted; specified: raises'), told
    bad = compare(o, row['hist'][-1]['opt'])
    return (('state', bad) if bad else None), told


INV = ('OnlyValid', 'NotDeclaredNotHeld', 'ReadOnly')


def run(chk):
    def ex(n, names, rich):
        return tlc.run('OmOptions', tlc.cfg({'MaxLen': n, 'Names': set(names), 'Rich': rich, 'Walk': False}, invariants=INV,
                                            properties=('RaisesChangesNothing', )), heap='10g', timeout=800)

    def walk(k):
        return tlc.run('OmOptions', tlc.cfg({'MaxLen': 25, 'Names': {'a', 'b', 'c'}, 'Rich': True, 'Walk': True}, invariants=INV),
                       args=['-simulate', 'num=%d' % (1500 if env.DEEP else 250), '-depth', '40', '-seed',
                             str(env.SEED * 1009 + k)], workers=1, timeout=800)
    res = [ex(3, 'a', False), ex(2, 'ab', False), ex(2, 'a', True)]
    if env.DEEP:
        res.append(ex(3, 'a', True))
    with ThreadPoolExecutor(env.NPROC) as pool:
        res += list(pool.map(walk, range(8)))
    rows = []
    for r in res:
        chk.tlc(r)
        rows += r.rows
    rows.sort(key=lambda r: (len(r['hist']), str(r)))
    for fn in (run_one, subclass_one):
        for row, (bad, told) in zip(rows, report.pmap(fn, rows)):
            if told:
                chk.count('traces_validated_against_impl')
            if bad:
                chk.violate('%s|%s' % (bad[0], '; '.join(told)[:300]), bad[1], row)
    for row in rows[:: max(1, len(rows) // 3)][:3]:
        chk.sample([h['call'] for h in row['hist']])
