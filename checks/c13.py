from lib import env, prog, replay
LEVEL = 'model_checking'


def run(chk):
    """Barriers by trace validation; nested and flat ways of writing by values and totals."""
    rows = prog.generate(chk, 3000 if env.DEEP else 320, nodes=18, groups=4, salt=7)
    rows += prog.generate(chk, 3000 if env.DEEP else 240, nodes=14, groups=4, ops='light', salt=8)
    rows = [r for r in rows if len(r['gr']) > 1]
    small = [r for r in prog.small(chk, 3, groups=2, feats=('group', 'set', 'indep')) if len(r['gr']) > 1]
    rows = small[:8000 if env.DEEP else 700] + rows

    def configs(r, k):
        return [dict(reverse=k % 2, sets=(k * 29 + 3), mode=('fwd', 'rev')[k % 2], early=k % 3 == 0)]
    want = {'trace', 'value', 'total'}
    replay.replay(chk, rows, configs, want, ('value', 'total', 'deriv'),
                  ('barrier', 'reads', 'feedback', 'source'), key='nested ')
    flat = [r for r in rows if not any(g['style'] == 'om' for g in r['gr']) and distinct_gets(r)]

    def configs(r, k):
        return [dict(flat=True, mode=('rev', 'fwd')[k % 2])]
    replay.replay(chk, flat, configs, {'value', 'total'}, ('value', 'total', 'deriv'), key='flat ')


def distinct_gets(r):
    """Elements taken of one value in several groups may be the same expression when
    everything is written in one group; such programs are not flattened."""
    P = prog.Program(r)
    base = [P.resolve(n['a'][0]) for n in r['nd'] if n['k'] == 'get']
    return len(set(base)) == len(base)
