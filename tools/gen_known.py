"""Write known_findings.json: the repaired defects, by commit of /repo.

Usage: gen_known.py   (run by hand; never by a check)"""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [  # (start of the commit's subject, properties, what failed)
 ('p-norm over all axes loses', ['C24'], 'the norm over all axes had no imaginary part under complex step, so derivatives by complex step were zero'),
 ('derivatives of max, min and pnorm', ['C20'], 'after check_partials or check_totals, derivatives of max, min and pnorm were those of the perturbed point'),
 ('remove indirect dependencies in descending', ['C01', 'C02', 'C03'], 'wrong dependencies were removed from nodes, so that components ran before the components they read, or were missing'),
 ('delete unused expressions', ['C02'], 'building failed with KeyError when an unused expression had been named by the user'),
 ('flatten partials of sech', ['C06'], 'partials of sech and arcsin of arrays of rank 2 and up raised an exception'),
 ('average over more than one axis', ['C07'], 'average over several axes returned a wrong value'),
 ('einsum partials when a repeated', ['C09'], 'partials of einsum with a repeated operand before another operand'),
 ('sparse einsum partials', ['C09'], 'sparse partials of einsum raised an exception or were wrong for repeated operands'),
 ('expand of a scalar input', ['C03', 'C07'], 'expand of a scalar input ignored the declared value'),
 ('do not scale an array coefficient', ['C05', 'C20'], 'an array coefficient was scaled in place on each linearization'),
 ('raise an exception instead of exiting', ['C18'], 'division by the number zero exited the interpreter'),
 ('raise to an array power', ['C04', 'C05'], 'x**array raised an exception'),
 ('divide an expression by an array', ['C04'], 'x/array raised an exception'),
 ('arithmetic on an expression and itself', ['C04', 'C05'], 'x + x, x * x, x - x, x / x raised an exception'),
 ('accept numpy numbers', ['C04'], 'numpy scalars were rejected as literals'),
 ('reject operands that arithmetic', ['C18'], 'unsupported operands gave an expression that computes nothing'),
 ('cross product along an axis counted', ['C07', 'C08'], 'cross with a negative axis'),
 ('inner product along axes counted', ['C07', 'C08'], 'inner with negative axes'),
 ('shape of matmat', ['C07'], 'matmat with one column or with a vector had a wrong shape'),
 ('library functions applied to an expression and itself', ['C07', 'C08'], 'dot(x, x) and others raised an exception'),
 ('matmat with a vector that', ['C07'], 'matmat with a vector expression raised an exception'),
 ('reject expand indices', ['C18'], 'expand with permuted indices silently ignored the permutation'),
 ('if_else of arrays', ['C22'], 'if_else of arrays raised an exception, and its derivatives were wrong'),
 ('index expressions whose default', ['C11'], 'indexing an expression with a scalar default value raised an exception'),
 ('assign to elements an expression that is registered later', ['C12', 'C03'], 'y[key] = e with e named afterwards lost the element'),
 ('reject assignment to elements', ['C12'], 'y[key] = e after y.define(f) was accepted'),
 ('reject definition of an output by', ['C18'], 'y.define(e) with another shape was accepted'),
 ('use the initial value given to create_output', ['C14'], 'the initial value of an output that forms a cycle was ignored'),
 ('build the same model when Problem.setup', ['C20'], 'calling Problem.setup twice raised an exception or built another model'),
 ('subclasses of Group', ['C20'], 'a subclass inheriting setup or calling it with super built its components twice'),
 ('an input of an ImplicitComponent may appear', ['C15'], 'an input shared by two residuals raised an exception'),
 ('use the initial value given to create_implicit_output', ['C15'], 'the initial value of an implicit output was ignored'),
 ('keep the brackets of each', ['C15'], 'the brackets of one implicit output were lost when another was defined'),
 ('use the maximum number of iterations', ['C15'], 'maxiter was ignored, and linearize used a stale point'),
 ('derivatives of coupled residuals', ['C16'], 'derivatives of coupled residuals ignored the other outputs'),
 ('build the same ImplicitComponent', ['C20'], 'Problem.setup twice with an ImplicitComponent raised an exception'),
 ('bracketed outputs whose residuals', ['C15'], 'a bracketed output that depends on another was solved for a stale value'),
 ('if_else with the same expression', ['C22'], 'if_else with a repeated operand raised an exception'),
 ('dot and inner of vectors that', ['C03', 'C07'], 'dot and inner raised TypeError for a vector that results from a reduction over axes'),
 ('reject operands of different shapes in sum', ['C18'], 'sum and average of operands of different shapes built a model that broadcast them'),
 ('reject inner products along', ['C18'], 'inner products along axes of different sizes built a model'),
 ('reject einsum over axes', ['C18'], 'einsum over axes of different sizes built a model'),
 ('reject reshape to another size', ['C18'], 'reshape to another size built a model'),
 ('reject constant arrays whose shape', ['C18'], 'a constant array of another shape was reinterpreted in the shape of the expression'),
 ('coupled residuals of an ImplicitComponent may share', ['C16', 'C15'], 'coupled residuals that share expressions raised an exception (Variable name already exists)'),
 ('total derivatives of coupled implicit outputs through', ['C16'], 'total derivatives of an implicit output were zero for an input that only the residual of another output uses'),
 ('wrong total derivatives after setting up', ['C20'], 'after setting up a problem again, total derivatives through hidden expressions of a group within another group were zero'),
 ('an input that is declared more than once', ['C03', 'C10', 'C12'], 'with an input declared twice in a group, an output assembled from both declarations lost elements; library functions and elements of both raised an exception'),
 ('reject a residual whose shape', ['C18'], 'a residual of another shape than its implicit output built a model whose output has another shape than declared'),
 ('reject outputs of an ImplicitComponent', ['C18'], 'an output of an ImplicitComponent that is left undefined was dropped'),
 ('reject an output of an ImplicitComponent with', ['C18'], 'another output of an ImplicitComponent with the name of its implicit output built a model'),
 ('report the derivative zero of an expression raised', ['C05'], 'derivatives of an expression raised to the power zero were not numbers where the expression is zero'),
 ('reduce over all axes', ['C07', 'C08'], 'sum and average over all axes raised an exception; max, min, pnorm and inner over all axes declared an output of another shape than that of its component'),
 ('expressions keep the constants and values', ['C03', 'C04', 'C15'], 'an array used as a constant, value or bracket and changed later in setup changed the expressions written before'),
 ('indexing an expression fails after', ['C11'], 'after a key that was rejected and caught, every further selection of the expression raised an exception'),
 ('an assignment that is rejected', ['C12'], 'an assignment that was rejected and caught left a dependency behind and shadowed the elements it named'),
 ('options dictionary: list of types', ['C21'], 'types given as a list raised an exception; an invalid default value was kept'),
]

log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
out, used = [], set()
for line in log:
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    hit = [p for p in PROP if s[5:].startswith(p[0])]
    assert len(hit) == 1, s
    used.add(hit[0][0])
    for prop in hit[0][1]:
        out.append({'status': 'fixed', 'property': prop, 'commit': h, 'what': hit[0][2],
                    'record': 'fixed: property=%s %s %s' % (prop, h, hit[0][2])})
assert used == {p[0] for p in PROP}, {p[0] for p in PROP} - used
KEEP = []
path = os.path.join(HERE, 'known_findings.json')
if os.path.exists(path):
    KEEP = [f for f in json.load(open(path))['findings'] if f['status'] == 'known']
json.dump({'findings': KEEP + sorted(out, key=lambda f: (f['property'], f['commit']))}, open(path, 'w'), indent=1)
print(len(out))
