A = 'Assumes float64 evaluation of the symbolic terms and OpenMDAO itself.'
PROG = 'TLA+ machine that writes programs (TLC, exhaustive small scope and simulation), '
T = {
 'trace': (PROG + 'replayed on the real code; the built models are checked against the graph requirements in TLA+ (trace validation)',
           'Exhaustive over all small programs, sampled beyond; every built model is recorded and TLC checks the recorded order, '
           'wiring and contents against the specified requirements.'),
 'value': (PROG + 'replayed on the real code; values are compared with the denotations TLC computes',
           'Exhaustive over all small programs, sampled beyond; symbolic values evaluated at random points. ' + A),
 'total': (PROG + 'replayed on the real code; total derivatives are compared with the chain rule over the specified partial derivatives',
           'Sampled programs, forward and reverse mode, three points each. ' + A),
 'history': ('TLA+ state machine of the histories of calls (TLC, exhaustive and simulation), every behaviour replayed on the real code',
             'TLC enumerates every history within the bounds with the outcome of every call; the replay compares outcome and state '
             'after every call. ' + A),
 'reject': ('TLA+ catalog of well-formed and ill-formed statements with their specified verdict (TLC), replayed on the real code',
            'Both verdicts are checked: the ill-formed program raises, the well-formed one builds. Exhaustive within the catalog.'),
 'order': (PROG + 'each program replayed in permuted statement orders, set orders and sorting options; models compared',
           'Orders are sampled. ' + A),
 'cycle': ('TLA+ specification of fixed points and residuals with exact arithmetic (TLC), replayed on the real code',
           'TLC enumerates systems and computes their solutions and derivatives exactly; the real model is run with iterative solvers. ' + A),
 'complex': ('TLA+ catalog of operations and TLA+ machine that writes programs (TLC), replayed on the real code under complex step',
             'Every catalog entry, and sampled programs, run with complex vectors; totals by a complex step through the whole model are '
             'compared with the derivatives the specification gives. ' + A),
}
KIND = {'C24': 'complex', 'C01': 'trace', 'C02': 'trace', 'C03': 'value', 'C10': 'total', 'C12': 'history', 'C13': 'trace', 'C17': 'trace',
        'C18': 'reject', 'C19': 'order', 'C21': 'history', 'C14': 'cycle', 'C15': 'cycle', 'C16': 'cycle', 'C20': 'history', 'C23': 'history'}
