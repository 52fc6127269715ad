from lib import env, eqn, prog, replay
LEVEL = 'model_checking'


def run(chk):
    if env.DEEP:
        rows = prog.small(chk, 3)
        rows += prog.small(chk, 4, feats=('indep', ), keep=12000)
        rows += prog.small(chk, 4, feats=('group', ), keep=12000)
    else:
        rows = prog.small(chk, 3, keep=2500)
    nsmall = len(rows)
    rows += prog.generate(chk, 4000 if env.DEEP else 400, salt=1)
    rows += prog.generate(chk, 4000 if env.DEEP else 300, nodes=10, groups=3, ops='light', salt=2)

    def configs(r, k):
        n = (2 if k < nsmall else 6) if env.DEEP else (1 if k < nsmall else 2)
        return [dict(reverse=i % 2, sets=(k * 31 + i * 7 + 1)) for i in range(n)]
    replay.replay(chk, rows, configs, {'trace'}, (), ('reads', 'feedback'))
    cyc = eqn.generate(chk, 'cycle', 3000 if env.DEEP else 240, salt=101)

    def configs(k):
        return [dict(eqn.PLAIN, reverse=(k + i) % 2, sets=(k * 31 + i * 7 + 1) if i or k % 2 else 0, trace='only')
                for i in range(6 if env.DEEP else 2)]
    eqn.replay(chk, eqn.cycle, cyc, configs, ('reads', 'feedback'), aspects=(), key='cycle ')
