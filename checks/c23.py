import collections
import random

from lib import decl, env, names, report, tlc
LEVEL = 'model_checking'


def run(chk):
    r = tlc.run('OmDecl', tlc.cfg({'MaxOps': 4 if env.DEEP else 3, 'Deep': env.DEEP},
                                  invariants=('Filled', 'ShapeKept', 'SinceSetup')), heap='8g', timeout=800)
    chk.tlc(r)
    # every declaration with some of its histories
    per = collections.defaultdict(list)
    for x in sorted(r.rows, key=str):
        per[str(x['decl'])].append(x)
    rng = random.Random(env.SEED)
    rows = [x for _, xs in sorted(per.items()) for x in rng.sample(xs, min(len(xs), 8 if env.DEEP else 2))]
    jobs = [(x, names.WHERE[(k + env.SEED) % len(names.WHERE)] if k % 3 else 'top') for k, x in enumerate(rows)]
    for (row, where), o in zip(jobs, report.pmap(decl.run_one, jobs)):
        chk.count('traces_validated_against_impl')
        chk.count('well_formed' if row['ok'] else 'ill_formed')
        if isinstance(o, Exception):
            o = ('value', str(row['decl']), 'raised ' + repr(o))
        if o:
            chk.violate('%s|%s in %s' % (o[0], o[1], where), o[2], {'row': row, 'where': where})
    for row in rows[:: max(1, len(rows) // 3)][:3]:
        chk.sample(row)
