"""Replay programs of OmProg in many configurations; verdicts by aspect."""
import contextlib
import traceback

from . import env, omrun, prog, report, term

CLAUSES = ('known', 'group', 'needed', 'once', 'reads', 'barrier', 'indeps', 'source', 'feedback', 'wiring', 'complete')


def config_name(c):
    return 'reverse=%d sets=%s mode=%s order=%s%s' % (c.get('reverse', 0), c.get('sets', '-'), c.get('mode', 'auto'),
                                                      c.get('order', '-'), c.get('linear', '') and ' linear=' + c['linear'])


def run_one(job):
    """Returns dict(skip) or dict(bad: [(aspect, message)], trace, names)."""
    row, seed, c, want = job
    P = prog.Program(row)
    pts = prog.points(P, seed, 3 if 'total' in want else 2)
    if pts is None:
        return {'skip': True}
    bad = []
    out = {'skip': False, 'bad': bad, 'trace': None}
    stage = 'build'
    try:
        with omrun.quiet(), omrun.limit(60):
            with contextlib.ExitStack() as st:
                if c.get('sets'):
                    st.enter_context(prog.permuted_sets(c['sets']))
                b = prog.Built(P, pts[0][0], None, reverse=bool(c.get('reverse')), bodies=c.get('bodies'),
                               flat=c.get('flat', False), early=c.get('early', False))
                p = omrun.problem(b.model, c.get('mode', 'auto'), c.get('linear', ''))
                if 'trace' in want:
                    p.final_setup()
                    out['trace'] = b.trace()
                if 'outputs' in want:
                    out['outputs'] = b.outputs()
                if 'indep' in want:
                    stage = 'indep'
                    indeps(P, b, p, pts, bad)
                if 'value' in want or 'total' in want:
                    for i, (x, v, j) in enumerate(pts):
                        if i:
                            for s in P.sources():
                                p.set_val(P.name(s), x[s])
                        stage = 'value'
                        p.run_model()
                        if 'value' in want:
                            prog.values_at(p, P, v, bad, 'run %d' % (i + 1))
                        if 'total' in want:
                            stage = 'total'
                            prog.totals_at(p, P, j, bad, 'run %d' % (i + 1))
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        bad.append((stage, 'raised ' + omrun.describe(e) + ' @ ' + traceback.format_exc()[-400:]))
    return out


def indeps(P, b, p, pts, bad):
    """Independent variables: present, initial values, settable, design variables."""
    import numpy as np
    x0 = pts[0][0]
    mine = [n for n in range(1, P.n + 1) if P.node(n)['k'] == 'indep']
    p.final_setup()
    for n in mine:
        v = np.array(p.get_val(P.name(n)))
        if not omrun.close(v, x0[n]):
            bad.append(('indep', 'initial value of %s is %s, given %s' % (P.name(n), v.tolist(), x0[n].tolist())))
    dvs = {str(k).split('.')[-1] for k in p.model.get_design_vars(recurse=True, get_sizes=False)}
    want = {P.name(n) for n in mine if P.node(n)['p']['dv']}
    if dvs != want:
        bad.append(('indep', 'design variables %s, specified %s' % (sorted(dvs), sorted(want))))
    if not mine:
        return
    for x, v, j in pts[1:]:
        for s in P.sources():
            p.set_val(P.name(s), x[s])
        for _ in range(2):
            p.run_model()
            for n in mine:
                w = np.array(p.get_val(P.name(n)))
                if not omrun.close(w, x[n]):
                    bad.append(('indep', '%s is %s after a run, was set to %s' % (P.name(n), w.tolist(), x[n].tolist())))


def replay(chk, rows, configs, want, aspects, clauses=(), seed=None, key=''):
    """Replay every row under every configuration of configs(row, k).

    aspects: aspects of replay that decide the property of chk.
    clauses: clauses of OmTrace that decide it."""
    jobs = [(r, env.SEED * 7919 + (seed or 0) + k, c, want) for k, r in enumerate(rows) for c in configs(r, k)]
    out = report.pmap(run_one, jobs)
    seen = set()

    index = {id(r): k for k, r in enumerate(rows)}

    def fail(job, what, msg):
        chk.violate('%s%s|program %d' % (key, what, index[id(job[0])]), '%s (%s)' % (msg, config_name(job[2])),
                    {'program': prog.statements(job[0]), 'row': job[0], 'config': {k: v for k, v in job[2].items() if k != 'bodies'},
                     'bodies': job[2].get('bodies')})
    traces, tj = [], []
    for j, o in zip(jobs, out):
        if isinstance(o, Exception):
            fail(j, aspects[0] if aspects else 'trace', 'raised ' + repr(o))
            continue
        if o['skip']:
            chk.count('programs_without_point')
            continue
        chk.count('replays')
        for a in {x for x, _ in o['bad']}:
            msg = [m for x, m in o['bad'] if x == a][0]
            if a in aspects or a == 'build':
                fail(j, a, msg)
        if o['trace'] is not None:
            traces.append(o['trace'])
            tj.append(j)
    if clauses and traces:
        bad = prog.validate(chk, traces)
        for i, fs in bad.items():
            mine = [f for f in fs if f[1] in clauses]
            if mine:
                fail(tj[i], mine[0][1], 'group %s, subsystem %s: clause %s of OmTrace fails; recorded: %s' % (
                    mine[0][0], mine[0][2], mine[0][1], traces[i]['obs'][mine[0][0] - 1]))
    else:
        chk.count('traces_validated_against_impl', sum(1 for o in out if isinstance(o, dict) and not o['skip']))
    for r in rows[:3]:
        chk.sample(prog.statements(r))
    return jobs, out
