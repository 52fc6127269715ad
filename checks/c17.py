from lib import env, prog, replay
LEVEL = 'model_checking'


def run(chk):
    rows = prog.generate(chk, 5000 if env.DEEP else 500, salt=6, feats={'indep', 'group', 'set', 'get'})

    def configs(r, k):
        return [dict(reverse=k % 2, sets=(k * 43 + 5))]
    replay.replay(chk, rows, configs, {'trace', 'indep'}, ('indep', ), ('indeps', 'complete'))
