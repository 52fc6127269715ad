import numpy as np

from lib import catalog, env, eqn, life, prog
LEVEL = 'model_checking'


def run(chk):
    D = env.DEEP
    plain = prog.generate(chk, 400 if D else 80, nodes=10, salt=20)
    cyc = eqn.generate(chk, 'cycle', 300 if D else 60, salt=21)
    res = eqn.generate(chk, 'residual', 300 if D else 60, nodes=12, salt=22)
    single = [r for r in res if len(r['unk']) == 1 and all(r['nd'][u['n'] - 1]['sh'] == [1] for u in r['unk'])]
    CONF = [dict(solve='comp', linear='direct', outer=''), dict(solve='comp', linear='krylov', outer='direct'),
            dict(solve='group', linear='', outer='direct'), dict(solve='group', linear='', outer='assembled')]

    def pick(k, s, kind):
        i = k + 5 * s
        mode = ('auto', 'fwd', 'rev')[k % 3]
        base = dict(mode=mode, reverse=i % 2, outside=(i // 2) % 3 == 0, wrap=i % 5 < 2)
        if kind == 'plain':
            return kind, plain[i % len(plain)], base
        if kind == 'memory' or i % 2:
            return kind, cyc[i % len(cyc)], base
        c = dict(CONF[i // 2 % 4], mode=mode, outside=base['outside'], indep=i % 2, bracket=i % 4 == 0)
        rows = single if c['bracket'] and single else res
        if c['bracket']:
            c.update(solve='none', linear='direct', outer='')
        return kind, rows[i % len(rows)], c
    some = life.histories(chk, 6, 1, {1}) + life.histories(chk, 5, 2, {1})
    some.sort(key=lambda r: hash_of(r))
    rows = some[:12000 if D else 900] + life.walks(chk, 1600 if D else 320, 24, 2, salt=23) + \
        life.walks(chk, 800 if D else 120, 40, 3, salt=24)
    life.replay(chk, rows, pick)
    # several programs in one model
    jobs = []
    for i in range(400 if D else 48):
        n = (2, 2, 3, 12, 2, 30)[i % 6] if not D else (2, 3, 20, 60)[i % 4]
        jobs.append(([plain[(7 * i + 3 * k) % len(plain)] for k in range(n)], env.SEED * 6151 + 100 * i,
                     dict(turns=i % 2 == 0, parent=('om', 'ot')[(i // 2) % 2], mode=('auto', 'fwd', 'rev')[i % 3], reverse=i % 2)))
    life.replay_together(chk, jobs)
    # models of one operation, with different shapes and parameters, beside each other and one after the other
    jobs = []
    for op, ks in sorted(catalog.kin(chk).items()):
        for i in range((12 if D else 2) * (3 if op in ('get', 'assemble') else 1)):
            rng = np.random.RandomState(env.SEED * 9973 + 31 * len(jobs))
            sel = [ks[j] for j in rng.permutation(len(ks))[:24 if D else 12]]
            jobs.append(([r for r in sel], env.SEED * 4409 + len(jobs),
                         dict(turns=i % 2 == 0, parent=('ot', 'om')[i % 2], mode=('fwd', 'rev')[len(jobs) // 2 % 2], reverse=0,
                              apart=i % 2 == 1)))
    life.replay_together(chk, jobs)
    life.fresh(chk, 60000 if D else 20000)


def hash_of(r):
    import hashlib
    import json
    return hashlib.md5((json.dumps(r) + str(env.SEED)).encode()).hexdigest()
