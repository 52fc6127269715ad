from checks import c15
from lib import env, eqn
LEVEL = 'model_checking'
# where Newton's method is attached, the linear solver of the component, that of the group
CONF = [dict(solve='comp', linear='direct', outer=''), dict(solve='comp', linear='krylov', outer='direct'),
        dict(solve='group', linear='', outer='direct'), dict(solve='group', linear='', outer='assembled'),
        dict(solve='group', linear='', outer='krylov'), dict(solve='comp', linear='direct', outer='assembled'),
        dict(solve='comp', linear='assembled', outer='gs'), dict(solve='group', linear='', outer=''),
        dict(solve='group', linear='', outer='gs')]


def run(chk):
    rows = eqn.generate(chk, 'residual', 3000 if env.DEEP else 240, salt=16)
    rows += eqn.generate(chk, 'residual', 1500 if env.DEEP else 80, nodes=22, unknowns=4, salt=17)

    def configs(k):
        n = 4 if env.DEEP else 2
        return [dict(CONF[(k + (7, 4)[i % 2] * i) % 9], mode=('fwd', 'rev')[(k + i) % 2], indep=(k // 2) % 2, sets=(k * 17 + i) if k % 2 else 0) for i in range(n)]
    eqn.replay(chk, eqn.implicit, rows, configs)
    # one output, whose equations are solved by the component's own linear solver
    rows = eqn.generate(chk, 'residual', 1500 if env.DEEP else 160, nodes=11, unknowns=1, salt=18, mix=True)
    own = [c for c in CONF if not c['linear'] and c['outer'] in ('', 'gs')]
    eqn.replay(chk, eqn.implicit, rows, lambda k: [dict(own[(k + i) % 2], mode=('rev', 'fwd')[i], indep=k % 2, sets=(k * 19 + i) if k % 2 else 0) for i in range(2)])
    # implicit outputs that are found in brackets
    c15.replay(chk, c15.rows_of(chk, 3000 if env.DEEP else 300, 3), ('deriv', ))
