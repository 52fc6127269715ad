import random

from lib import env, names, prog, reject, report, resid, sabotage, tlc
LEVEL = 'model_checking'


def applications(chk):
    """Entries of OmReject in contexts."""
    r = tlc.run('OmReject', tlc.cfg({'Deep': env.DEEP}, invariants=('Meaningful', )), heap='8g', timeout=800)
    chk.tlc(r)
    rows = sorted((x for x in r.rows if x['e']['op'] != 'context'), key=str)
    ctx = sorted((x['e']['p'] for x in r.rows if x['e']['op'] == 'context'), key=str)
    chk.count('contexts', len(ctx))
    rng = random.Random(env.SEED)
    jobs = []
    for x in rows:
        some = rng.sample(ctx, 16 if env.DEEP else 5)
        if x['ok']:
            some += rng.sample(ctx, 6)
        jobs += [(x['e'], x['ok'], c) for c in [reject.PLAIN] + some]
    for (e, ok, c), o in zip(jobs, report.pmap(reject.run_one, jobs)):
        chk.count('traces_validated_against_impl')
        chk.count('well_formed' if ok else 'ill_formed')
        if isinstance(o, Exception):
            o = ('accept', repr(o))
        if o:
            where = '' if c == reject.PLAIN else ' in %s' % ' '.join(c[k] for k in ('pl', 's1', 's2', 'use'))
            chk.violate('%s|%s %s %s%s' % (o[0], e['op'], [tuple(s) for s in e['sh']], e['p'], where), o[1],
                        {'e': e, 'ok': ok, 'context': c})
    for row in rows[:: max(1, len(rows) // 3)][:3]:
        chk.sample(row)


def histories(chk, module, constants, inv, run_one, text, where):
    """Sequences of statements about names, definitions and registration."""
    r = tlc.run(module, tlc.cfg(constants, invariants=(inv, )), heap='8g', timeout=800)
    chk.tlc(r)
    rows = sorted(r.rows, key=str)
    jobs = [(x, w) for x in rows for w in where(x)]
    for (row, w), o in zip(jobs, report.pmap(run_one, jobs)):
        chk.count('traces_validated_against_impl')
        chk.count('well_formed' if row['verdict'] == 'ok' else 'ill_formed')
        if isinstance(o, Exception):
            o = ('accept', repr(o))
        if o:
            chk.violate('%s %s|%s in %s' % (o[0], module, text(row), w), o[1], {'row': row, 'where': w})
    for row in rows[:: max(1, len(rows) // 2)][:2]:
        chk.sample(row, 7)


def mistakes(chk):
    """Programs of OmSabotage with one mistake each."""
    rows = prog.generate(chk, 2500 if env.DEEP else 400, salt=18, module='OmSabotage', spec='SabSpec',
                         inv=('WellScoped', 'Acyclic', 'ChildReadsBefore'))
    traces = []
    for row, o in zip(rows, report.pmap(sabotage.run_one, rows)):
        if isinstance(o, Exception):
            o = {'out': [('accept', None, repr(o))], 'trace': None}
        if o['trace'] is not None:
            traces.append((row, o['trace']))
        for verdict, m, msg in o['out']:
            chk.count('programs_with_a_mistake')
            if verdict == 'ok':
                chk.count('traces_validated_against_impl')
                chk.count('mistake ' + sabotage.text(m))
            else:
                pr = prog.statements(row)
                chk.violate('%s|%s' % ('accept program' if m is None else verdict + ' mistake ' + sabotage.text(m), '; '.join(pr)[:200]),
                            msg, {'program': pr, 'mistake': m, 'row': row})
    # the models of programs that go on are those of the program
    bad = prog.validate(chk, [t for _, t in traces])
    for i, fs in bad.items():
        pr = prog.statements(traces[i][0])
        chk.violate('caught trace|%s' % '; '.join(pr)[:200], 'group %s, subsystem %s: clause %s of OmTrace fails after a '
                    'rejected statement' % (fs[0][0], fs[0][2], fs[0][1]), {'program': pr, 'row': traces[i][0]})
    chk.sample({'program': prog.statements(rows[0]), 'mistakes': rows[0]['mis'][:3]}, 8)


def run(chk):
    applications(chk)
    histories(chk, 'OmNames', {'MaxLen': 4 if env.DEEP else 3, 'Names': {'a', 'b'}}, 'OwnNames', names.run_one, names.text,
              lambda x: names.WHERE if env.DEEP or x['verdict'] == 'ok' else ['top', names.pick(x, env.SEED)])
    histories(chk, 'OmResid', {'MaxLen': 5 if env.DEEP else 4, 'Names': {'a', 'b'}, 'Sizes': {1, 2}, 'Forgiven': 1}, 'OneResidual',
              resid.run_one, resid.text, lambda x: ['component'])
    mistakes(chk)
