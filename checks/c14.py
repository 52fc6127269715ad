from lib import env, eqn
LEVEL = 'model_checking'
CONF = [dict(solver='gs', linear='direct', place='root'), dict(solver='once', linear='', place='root'),
        dict(solver='newton', linear='direct', place='root'), dict(solver='gs', linear='gs', place='child'),
        dict(solver='gs', linear='krylov', place='root'), dict(solver='gs', linear='assembled', place='child'),
        dict(solver='once', linear='', place='child'), dict(solver='newton', linear='krylov', place='child')]


def run(chk):
    rows = eqn.generate(chk, 'cycle', 3000 if env.DEEP else 240, salt=14)
    rows += eqn.generate(chk, 'cycle', 1500 if env.DEEP else 80, nodes=22, unknowns=4, salt=15)

    def configs(k):
        n = 3 if env.DEEP else 1
        sel = [CONF[0 if i == 0 and k % 2 else (k // 2 + i) % 8] for i in range(n)] + [CONF[1 + 5 * (k % 2)]]
        return [dict(c, mode=('fwd', 'rev')[(k + i) % 2], reverse=(k // 3) % 2, trace=i == 0) for i, c in enumerate(sel)]
    eqn.replay(chk, eqn.cycle, rows, configs, ('once', 'needed', 'reads', 'feedback', 'wiring', 'known', 'complete'))
