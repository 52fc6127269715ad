from lib import env, eqn, prog, replay
LEVEL = 'model_checking'


def run(chk):
    prog.pipeline(chk, 3, groups=2 if env.DEEP else 1)
    rows = prog.small(chk, 3, keep=None if env.DEEP else 1500)
    rows += prog.generate(chk, 6000 if env.DEEP else 600, salt=3)

    def configs(r, k):
        return [dict(reverse=(k + i) % 2, sets=(k * 37 + i)) for i in range(3 if env.DEEP else 1)]
    replay.replay(chk, rows, configs, {'trace'}, (), ('known', 'group', 'needed', 'once', 'complete'))
    cyc = eqn.generate(chk, 'cycle', 3000 if env.DEEP else 200, salt=102)

    def configs(k):
        return [dict(eqn.PLAIN, reverse=(k + i) % 2, sets=(k * 37 + i) if i or k % 2 else 0, trace='only')
                for i in range(3 if env.DEEP else 1)]
    eqn.replay(chk, eqn.cycle, cyc, configs, ('known', 'group', 'needed', 'once', 'complete'), aspects=(), key='cycle ')
