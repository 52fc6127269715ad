from lib import catalog, env, prog, replay
LEVEL = 'model_checking'


def run(chk):
    for rot in range(3 if env.DEEP else 1):
        catalog.check(chk, 'all', ('deriv', ), rot=rot, modes=('cs', ))
        catalog.check(chk, 'cond', ('deriv', ), rot=rot, modes=('cs', ))
    rows = prog.generate(chk, 4000 if env.DEEP else 400, salt=24)
    replay.replay(chk, rows, lambda r, k: [dict(reverse=k % 2, mode='cs')], {'total'}, ('total', 'deriv'))
