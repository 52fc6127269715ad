from lib import catalog, env
LEVEL = 'model_checking'


def run(chk):
    for rot in range(6 if env.DEEP else 6):
        catalog.check(chk, 'cond', ('value', 'deriv'), rot=rot)
