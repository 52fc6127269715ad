"""Run the check of one property: python run.py [--thorough] C04 [C05 ...]"""
import importlib
import os
import sys
import traceback

if '--thorough' in sys.argv:
    sys.argv.remove('--thorough')
    os.environ['VERIF_TIER'] = 'thorough'

from lib import env, report   # noqa: E402


def self_test():
    """The toolchain works: TLC parses and checks the laws of the specification."""
    from lib import tlc
    res = tlc.run('OmCatalog', tlc.cfg({'Family': 'cond', 'Deep': False, 'Rot': 0}, invariants=('WellFormed', )))
    print('TLC: %d states, %d denotations' % (res.states, len(res.rows)))
    return 0 if res.rows else 2


def main(argv):
    rc = 0
    if argv == ['--self-test']:
        return self_test()
    for prop in argv:
        try:
            mod = importlib.import_module('checks.' + prop.lower())
            chk = report.Check(prop, mod.LEVEL)
            mod.run(chk)
            r = chk.finish()
        except BaseException:
            traceback.print_exc()
            print('ERROR of the check of', prop)
            r = 2
        rc = max(rc, r) if r != 1 else (1 if rc in (0, 1) else rc)
    return rc


if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.exit(rc)
