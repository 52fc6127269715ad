from lib import env, prog, replay
LEVEL = 'model_checking'


def run(chk):
    rows = prog.generate(chk, 6000 if env.DEEP else 500, salt=5)

    def configs(r, k):
        return [dict(reverse=k % 2, mode=m, linear=('', 'csc', '', 'dense')[k // 2 % 4]) for m in (('fwd', 'rev') if env.DEEP or k % 3 == 0 else (('fwd', 'rev')[k % 2], ))]
    replay.replay(chk, rows, configs, {'total'}, ('total', 'deriv'))
