import numpy as np

from lib import env, eqn, prog, replay
LEVEL = 'model_checking'


def run(chk):
    """Every way of ordering gives the model that the specification describes."""
    D = env.DEEP
    base = prog.generate(chk, 2500 if env.DEEP else 300, nodes=15, groups=2, salt=9)
    base += prog.small(chk, 3, keep=6000 if env.DEEP else 500)
    rows, ref = [], []
    for k, r in enumerate(base):
        rng = np.random.RandomState(env.SEED * 613 + k)
        ref.append(r)
        rows.append(r)
        for _ in range(4 if env.DEEP else 2):
            q = prog.permuted(r, rng)
            if q is not None:
                chk.count('permuted_programs')
                rows.append(q)
                ref.append(r)

    def configs(r, k):
        if r is ref[k]:
            return [dict(), dict(reverse=1), dict(sets=k + 1), dict(sets=k + 2, reverse=1)]
        return [dict(sets=k + 3 if k % 2 else 0, reverse=k % 2, order='permuted')]
    jobs, out = replay.replay(chk, rows, configs, {'trace', 'value', 'total', 'outputs'},
                              ('value', 'total', 'deriv'), replay.CLAUSES)
    first = {}
    index = {id(r): k for k, r in enumerate(rows)}
    for j, o in zip(jobs, out):
        if isinstance(o, dict) and o.get('outputs'):
            r = ref[index[id(j[0])]]
            was = first.setdefault(id(r), (j, o['outputs']))
            if was[1] != o['outputs']:
                chk.violate('outputs|program %d' % index[id(j[0])],
                            'outputs %s, in another order %s' % (o['outputs'], was[1]),
                            {'program': prog.statements(j[0]), 'other': prog.statements(was[0][0]), 'row': j[0],
                             'config': j[2], 'other config': was[0][2]})
    # cycles and residuals: sets of expressions in other orders, both sortings
    cyc = eqn.generate(chk, 'cycle', 1200 if D else 120, salt=119)
    eqn.replay(chk, eqn.cycle, cyc, lambda k: [dict(eqn.PLAIN, place=('root', 'child')[k // 2 % 2], reverse=(k + i) % 2,
                                                    sets=k * 41 + i + 1, trace=True, mode=('fwd', 'rev')[k % 2])
                                               for i in range(4 if D else 2)],
               ('needed', 'once', 'reads', 'feedback', 'wiring', 'known', 'complete'), key='cycle ')
    res = eqn.generate(chk, 'residual', 900 if D else 80, nodes=12, salt=120)
    eqn.replay(chk, eqn.implicit, res, lambda k: [dict(solve=('comp', 'group')[k % 2], linear=('direct', '')[k % 2],
                                                       outer=('', 'direct')[k % 2], mode=('rev', 'fwd')[k // 2 % 2],
                                                       indep=k % 2, sets=k * 43 + i + 1)
                                                  for i in range(4 if D else 2)], key='residual ')
