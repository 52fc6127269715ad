"""Implicit outputs satisfy their residual equations."""
import json

from lib import bisect, env, report, tlc
LEVEL = 'model_checking'
INV = ('InsideBracket', 'RootBetween', 'Halves', 'Signs', 'Accurate', 'Triangular')


def packed(rows, outs):
    """Single elements side by side: one output for the elements of one depth."""
    for m in sorted({r['m'] for r in rows}):
        part = [r for r in rows if r['m'] == m]
        yield {'kind': 'bracket', 'm': m, 'u': part[0]['u'],
               'outs': [{'sh': [len(part)], 'form': f, 'br': 'array', 'cp': 0, 'el': [r['outs'][0]['el'][0] for r in part]} for f in outs],
               'res': [[[r['res'][i][0][0] for r in part]] * len(outs) for i in (0, 1)]}


def rows_of(chk, num, outs):
    ex = tlc.run('OmBisect', tlc.cfg({'MaxOuts': 1, 'Exhaustive': True}, invariants=INV), timeout=600)
    chk.tlc(ex)
    rows = list(packed(ex.rows, ['lin', 'quad'])) + list(packed(ex.rows, ['exp']))
    chk.count('brackets_enumerated', len(ex.rows))
    sim = tlc.run('OmBisect', tlc.cfg({'MaxOuts': outs, 'Exhaustive': False}, invariants=INV),
                  args=['-simulate', 'num=%d' % num, '-depth', '60', '-seed', str(1 + env.SEED * 1009)], workers=1, timeout=600)
    chk.tlc(sim)
    return rows + sim.rows


def replay(chk, rows, aspects):
    jobs = [(r, env.SEED * 7919 + k, {'linear': ('', 'direct')[k % 2], 'mode': ('fwd', 'rev')[k // 2 % 2]}) for k, r in enumerate(rows)]
    for j, bad in zip(jobs, report.pmap(bisect.run_one, jobs)):
        if isinstance(bad, Exception):
            bad = [(aspects[0], 'raised ' + repr(bad))]
        chk.count('replays')
        for a in sorted({x for x, _ in bad if x in aspects or x == 'build'}):
            chk.violate('%s|component %d' % (a, rows.index(j[0])), [m for x, m in bad if x == a][0][:1500], {'row': j[0], 'seed': j[1], 'config': j[2]})
    chk.count('traces_validated_against_impl', len(jobs))
    for r in rows[-3:]:
        chk.sample(json.dumps(r)[:600])


def run(chk):
    replay(chk, rows_of(chk, 6000 if env.DEEP else 400, 4 if env.DEEP else 3), ('value', 'start'))
