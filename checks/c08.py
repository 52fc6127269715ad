from lib import catalog, env
LEVEL = 'model_checking'


def run(chk):
    for rot in range(3 if env.DEEP else 1):
        catalog.check(chk, 'array', ('deriv', ), rot=2 * rot)
