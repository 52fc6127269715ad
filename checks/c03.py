from lib import catalog, env, prog, replay
LEVEL = 'model_checking'


def run(chk):
    rows = prog.generate(chk, 8000 if env.DEEP else 700, salt=4)

    def configs(r, k):
        return [dict(reverse=(k + i) % 2, sets=(k * 41 + i)) for i in range(2 if env.DEEP else 1)]
    replay.replay(chk, rows, configs, {'trace', 'value'}, ('value', ), ('wiring', 'source'))
    # every operation, with operands from every place, named before and after the operation is written
    for rot, family, part in ((0, 'arith', 1), (3, 'arith', 1), (0, 'std', 1), (2, 'std', 1), (1, 'array', 3), (4, 'einsum', 4),
                              (0, 'index', 3), (2, 'cond', 1)):
        for i in range(3 if env.DEEP else 1):
            catalog.check(chk, family, ('value', ), rot=rot + 2 * i, deep=False,
                          keep=lambda r: env.DEEP or r['n'] % part == env.SEED % part)
