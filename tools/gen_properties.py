"""Writes properties.jsonl (one property per line) from the list below."""
import json, os
G='omtools/core/group.py'; V='omtools/core/variable.py'; GR='omtools/core/graph.py'
EO='omtools/core/explicit_output.py'; IO='omtools/core/implicit_output.py'; IC='omtools/comps/implicit_component.py'
AC='omtools/comps/arithmetic_comps/'
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

prop('C01','Execution order is free of unnecessary feedback',
 "In the model built from a group, every component (and child subsystem) runs after every component of the same group whose outputs it reads, and after everything its expression depends on. The only exceptions are the reads of an output inside the expression that defines that same output (a declared cycle). This holds for any set of expressions and any order of creating them and registering them.",
 ['programs','configurations'],"all acyclic and cyclic expression graphs, any fan-in/fan-out, any order of creation/registration, both branch-sorting settings, any order in which sets of expressions are iterated",
 "Tests assert values on a few graphs with at most a handful of dependencies per expression; a wrong order still gives right values after a second run, and many graphs have a topological order by luck.",
 [G,GR,V],[("prune redundant edges, count dependents, topological sort","omtools/core/graph.py: remove_indirect_dependencies, topological_sort"),("build components in reverse sorted order","omtools/core/group.py: _post_setup")],
 ["order of subsystems in the OpenMDAO group and its connections, after Problem.setup"],
 [("dependencies","expressions an expression reads",V),("dependents / times_visited","bookkeeping of the sort",V)])
prop('C02','The model contains exactly the needed components',
 "The model built from a group computes every registered output, every created output and every expression they transitively use, each by exactly one component; expressions that no registered or created output uses yield no component. Every child subsystem that was added and every independent variable that was created is present exactly once.",
 ['programs'],"all expression graphs and all subsets of expressions registered as outputs",
 "Tests list a few promoted names; a lost or duplicated branch only shows for particular graph shapes (shared subexpressions, dead branches next to live ones).",
 [G,GR,V],[("registration of reachable nodes and removal of unused ones","omtools/core/group.py: _post_setup"),("topological sort visits each node once","omtools/core/graph.py: topological_sort")],
 ["components and promoted outputs of the OpenMDAO group after Problem.setup"],[("nodes","expressions found from the registered outputs",G)])
prop('C03','Each use of an expression receives that expression\'s value',
 "When the model has run, every registered output equals the mathematical value of the expression the user wrote, evaluated at the values of independent variables and inputs, no matter how operations are composed, how often an expression is reused, and whether an expression is given its output name before or after other expressions use it. Inputs that nothing else computes take the value they were declared with until the user sets them. An expression keeps the constants and values it was written with: arrays that the user changes afterwards do not change it.",
 ['programs','inputs'],"all compositions of the supported operations, all interleavings of using, indexing, assigning and registering expressions, all input values",
 "Tests evaluate single operations on one set of inputs; mis-wiring needs a specific composition and naming order.",
 [G,V,EO,'omtools/core/input.py','omtools/core/indep.py'],[("names are resolved when components are built","omtools/core/variable.py and omtools/std/*: build closures"),("renaming on registration","omtools/core/group.py: register_output")],
 ["Problem[...] of each registered output after run_model"],[("name","promoted OpenMDAO name of an expression",V)])
prop('C04','Arithmetic operators compute elementwise arithmetic',
 "For expressions x and y of the same shape and any number or same-shape array c, the expressions +x, -x, x+y, x-y, x*y, x/y, x+c, c+x, x-c, c-x, x*c, c*x, x/c, c/x and x**c (c may be an array only to the right of the operator) evaluate elementwise to exactly that arithmetic, for operands of any shape, also when an operand is repeated or is itself any other expression.",
 ['inputs','programs'],"all operators, operand shapes, literal kinds (int, float, numpy number, array) and sides, operand values in the domain of the operation",
 "Tests check one example per operator with small vectors or scalars and no array literals, repeated operands or numpy numbers.",
 [V,AC+'power_combination_comp.py','omtools/comps/linearcombination_comp.py','omtools/comps/linearpowercombination.py'],[("operator overloads collect literals into coefficients, powers and constants","omtools/core/variable.py: Elementwise*")],
 ["value of the registered output after run_model; shape of the output"])
prop('C05','Arithmetic operators report exact derivatives',
 "For every arithmetic expression of C04, the partial derivatives the model reports with respect to each operand equal the analytic derivatives at the current point, element by element, and remain so after the inputs change and the model runs and is linearized again.",
 ['inputs','programs','histories'],"as C04, over every input point (zeros and negative bases with integer powers included) and repeated linearization",
 "check_partials in the tests uses one point per operator; wrong coefficients, stale or mutated coefficient arrays, and special points (zero base) are not visited.",
 [V,AC+'power_combination_comp.py','omtools/comps/linearcombination_comp.py','omtools/comps/linearpowercombination.py'],[("compute_partials of the combination components",AC+'power_combination_comp.py')],
 ["Problem.compute_totals and check_partials (analytic values)"])
prop('C06','Standard functions are elementwise and differentiate exactly',
 "For each standard function (exp, log, log10, the trigonometric, inverse trigonometric and hyperbolic functions and their reciprocals) applied to an expression of any shape, the output has the operand's shape, each element is the function of the corresponding element, and the reported derivative is the analytic derivative on the diagonal and zero elsewhere, at every point of the function's domain.",
 ['inputs'],"all functions, all shapes, all points of the domain",
 "Tests use one scalar or vector point per function; sign regions, quadrant-dependent branches and rank-2+ shapes are not sampled.",
 ['omtools/std','omtools/comps/sincomp.py','omtools/comps/arccoscomp.py','omtools/comps/sechcomp.py'],[("one component per function","omtools/comps/*comp.py: compute, compute_partials")],
 ["value and compute_totals of the registered output"])
prop('C07','Array functions return the documented values and shapes',
 "sum, average (of one or several operands, in whole or over axes), max, min (smoothed with sharpness rho: the log-sum-exp with the given rho of the elements reduced), pnorm, dot, inner, outer, cross, matmat, matvec, transpose, reorder_axes, reshape, expand and rotmat evaluate to their mathematical definition with the documented output shape, for operands of any admissible shape, axes and parameters, also when two operands are the same expression.",
 ['inputs','configurations'],"all admissible operand shapes, axes (also counted from the last), numbers of operands, subscripts and parameters",
 "Tests fix one or two shapes and axes per function, mostly with distinct dimension sizes and axis 0 or 1; other axes, ranks and sizes-one dimensions are not sampled.",
 ['omtools/std','omtools/comps','omtools/utils/decompose_shape_tuple.py','omtools/utils/reorder_axes_utils.py'],[("shape computation in the API function and compute() of the component","omtools/std/*.py, omtools/comps/*_comp.py")],
 ["value and shape of the registered output after run_model"])
prop('C08','Array functions report exact derivatives',
 "For every array function of C07, the derivatives the model reports with respect to every operand equal the analytic derivatives for every element of the output and of the operand, at the current point and again after inputs change.",
 ['inputs','configurations','histories'],"as C07, over all input points",
 "Tests run check_partials at one point and one shape per function; wrong row/column index arithmetic shows only for particular shapes and axes.",
 ['omtools/std','omtools/comps'],[("rows/cols/values computed in setup and compute_partials","omtools/comps/*_comp.py")],
 ["compute_totals and check_partials (analytic values)"])
prop('C09','Einstein summation is exact in both interfaces and both formats',
 "For every valid list of subscripts and operands (repeated operands, labels repeated within an operand, repeated sums, scalar result, any order of output subscripts), einsum and einsum_new_api evaluate to the Einstein sum with the shape given by the output subscripts, and the reported derivatives equal the analytic ones; dense and sparse partial formats and both interfaces give the same values and derivatives.",
 ['inputs','configurations'],"all subscript patterns over up to three operands, ranks and sizes, repeated operands, both formats",
 "Tests use a few patterns with distinct sizes; index bookkeeping errors need particular orders or repeated operands.",
 ['omtools/std/einsum.py','omtools/std/einsum_new_api.py','omtools/comps/einsum_comp_dense_derivs.py','omtools/comps/einsum_comp_sparse_derivs.py','omtools/utils/einsum_utils.py'],[("subscript parsing, output shape, derivative operation strings","omtools/utils/einsum_utils.py, omtools/comps/einsum_comp_*")],
 ["value, shape and compute_totals of the registered output"])
prop('C10','Total derivatives equal the chain rule over the whole model',
 "Total derivatives of every registered output with respect to every independent variable or input, computed in forward or in reverse mode, equal the derivatives of the composed mathematical function, for any composition of operations, reuse of expressions, indexing, assignment and nesting of groups.",
 ['programs','inputs'],"all compositions of supported operations, both derivative modes, all input points",
 "Tests check partials of single operations; missing sparsity entries or wiring errors that only affect totals of compositions are not sampled.",
 [G,V,EO,'omtools/comps'],[("declared partials and promoted connections","omtools/comps/*, omtools/core/group.py")],
 ["Problem.compute_totals in fwd and rev mode"])
prop('C11','Indexing an expression extracts exactly the selected elements',
 "x[key], for an integer, a slice (with or without start, stop, step) of the flattened expression, or a tuple of slices and integers for an array, evaluates to the selected elements in order with the shape of the selection, and its derivative is one for the selected element and zero elsewhere. Selections by different keys of the same expression, overlapping ones included, are independent of each other; an index outside the expression is rejected and has no effect.",
 ['inputs','programs'],"all shapes of rank 1 to 3 and all keys with non-negative bounds, any set of keys on one expression",
 "Tests use a handful of keys on fixed shapes; off-by-one, step and multi-dimensional offset errors need specific keys.",
 [V,'omtools/comps/decompose_comp.py','omtools/utils/slice_to_list.py'],[("key to flat source indices","omtools/core/variable.py: __getitem__"),("gather and its partials","omtools/comps/decompose_comp.py")],
 ["value and derivative of the registered selection"],[("indexed_exprs","selections already made from an expression",V)])
prop('C12','Assigning elements of an output is exact and never ambiguous',
 "After y[key] = e for a set of keys and expressions, every assigned element of y equals the corresponding element of its expression with derivative one, and elements that were never assigned keep the value one. An assignment is rejected with an exception when it overlaps an element already assigned, exceeds the output, has another shape than the selection, reuses an expression already assigned to y, or when y is already defined by an expression; a rejected assignment has no effect.",
 ['histories','inputs'],"all sequences of assignments to one-, two- and three-dimensional outputs",
 "Tests cover one accepted pattern per rank and one rejection each; overlap is a relation between all pairs of earlier and later keys.",
 [EO,'omtools/comps/indexed_pass_through_comp.py','omtools/utils/slice_to_list.py'],[("checked_indices/overlapping_indices","omtools/core/explicit_output.py: __setitem__")],
 ["exceptions raised by the assignment; value and derivatives of the output"],[("checked_indices","elements assigned so far",EO)])
prop('C13','Child subsystems run between what precedes and what follows them',
 "A child group or component added to a group runs after every output that was registered or created before it was added, and before everything that uses an input declared after it was added; splitting a computation into nested groups (added as class instances, populated group objects or with create_group) gives the same values and derivatives as writing it in one group.",
 ['programs'],"all placements of subsystems among expressions, several subsystems in sequence, nesting to depth three, both promotion by '*' and by name",
 "Tests contain two small groups with one subsystem; order relative to unrelated expressions and several subsystems is not asserted.",
 [G,'omtools/core/subsystem.py','omtools/core/input.py'],[("subsystem depends on everything registered before, inputs depend on the latest subsystem","omtools/core/group.py: add_subsystem, declare_input, create_group")],
 ["order of subsystems, values and totals"],[("_most_recently_added_subsystem","barrier for later inputs",G)])
prop('C14','Explicit cycles converge to the fixed point the user wrote',
 "An output y defined by an expression f of y itself (and of other expressions), with an iterative solver attached, starts from the value given on creation (until the user sets another) and converges to y = f(y) when the iteration is a contraction, also for several cycles and array outputs; expressions outside the cycle use the converged value, and total derivatives equal those of the implicit function. The output is defined by exactly one component.",
 ['programs','inputs'],"all bodies f, alone or with other outputs, used inside and outside the cycle, any initial value in the region of contraction",
 "Tests run three fixed-point examples at one point and check neither initial values, nor derivatives, nor several cycles at once.",
 [EO,'omtools/utils/replace_output_leaf_nodes.py','omtools/comps/pass_through_comp.py'],[("uses of the output inside its own definition are replaced by an input","omtools/utils/replace_output_leaf_nodes.py"),("identity component closes the loop","omtools/comps/pass_through_comp.py")],
 ["values, iteration sequence, residual, totals"])
prop('C15','Implicit outputs satisfy their residual equations',
 "After a run, every implicit output makes the residual expression the user defined zero. With brackets, each element is found by bisection of the given interval with the given number of iterations (at most one hundred by default), stays inside its bracket, for either order of the bracket ends and either sign of slope, each element and each output independently; without brackets the iteration of the attached solver starts from the initial value given on creation.",
 ['inputs','programs','configurations'],"all residuals with a sign change inside the bracket (arrays and several outputs included), all bracket placements, iteration limits, initial values, changed inputs and repeated runs",
 "Tests solve two quadratics with one bracket; several outputs, per-element brackets, orientation, iteration limits and repeated runs are not sampled.",
 [IC,IO,'omtools/utils/collect_input_exprs.py'],[("bisection on positive/negative ends","omtools/comps/implicit_component.py: solve_nonlinear"),("internal problem evaluates residuals","omtools/comps/implicit_component.py: _set_values, apply_nonlinear")],
 ["values of implicit outputs and residuals after run_model"],[("brackets_map","bracket ends per implicit output",IO),("res_out_map","residual name to output name",IO)])
prop('C16','Derivatives of implicit outputs follow the implicit function theorem',
 "Total derivatives of implicit outputs with respect to the inputs of their residuals equal minus the inverse of the residual's derivative with respect to all implicit outputs times its derivative with respect to the inputs, for scalar and array outputs, one or several coupled residuals, in forward and reverse mode, with or without an assembled linear solver, at the current point.",
 ['inputs','programs','configurations'],"all residual systems with non-singular derivative, any sharing of inputs, both modes, several linear solvers, repeated linearization",
 "No test checks a derivative of an implicit component through a total.",
 [IC],[("partials of residuals from the internal problem","omtools/comps/implicit_component.py: linearize"),("solve_linear","omtools/comps/implicit_component.py: solve_linear")],
 ["Problem.compute_totals"])
prop('C17','Independent variables are always present, first, and settable',
 "Every independent variable created in a group exists in the model with the given shape and initial value, whether or not it is used, and runs before every other component and subsystem of the group; values the user sets for it hold in every later run, and exactly the independent variables created with dv=True become design variables.",
 ['programs','histories'],"all groups and positions at which independent variables are created (also after subsystems), used or unused, all shapes and values",
 "Tests list a few promoted names; order relative to subsystems, unused variables and design variables are not asserted.",
 [G,'omtools/core/indep.py'],[("independent variables are registered and every other node depends on them","omtools/core/group.py: create_indep_var, _post_setup")],
 ["order of subsystems, get_design_vars, values after set/run"])
prop('C18','Ill-formed programs are rejected before the model runs',
 "Building raises an exception, and never silently yields a model, for: operands of different shapes in an elementwise operation, unsupported operand types, an output left undefined, an output defined twice or by itself or by an expression of another shape, registering an input or the same expression twice, two different outputs with one name, contraction of axes of different sizes, dot or cross along an axis not of size three, if_else branches of different shapes, odd or non-positive norm types, reshape to another size, division of an expression by the number zero, and expand with missing or inconsistent subscripts. A statement that is rejected has no effect: a program that catches the exception and goes on yields the model of its other statements.",
 ['programs','inputs'],"all programs that contain one of the listed errors anywhere, after any valid prefix",
 "Tests assert about a dozen rejections, one instance each.",
 [G,V,EO,IO,'omtools/std'],[("argument checks in the API functions, and of OpenMDAO at setup","omtools/core/*.py, omtools/std/*.py")],
 ["exception from the API call, Problem.setup or the first run; the model after a caught exception"])
prop('C19','The built model does not depend on incidental order',
 "Two programs that contain the same expressions, registered under the same names, but that create or register independent expressions in another order, iterate internal sets in another order, or choose the other branch-sorting option, yield models with the same set of outputs, the same values and the same derivatives.",
 ['schedules','programs','configurations'],"all permutations of registration, all hash orders, both settings of reverse_branch_sorting",
 "A test run has one order of registration and one (arbitrary) hash order; nothing is run twice.",
 [G,V,GR],[("sort by cost after a set-based de-duplication","omtools/core/variable.py: _dedup_dependencies, sort_dependency_branches")],
 ["set of promoted outputs, values, totals"])
prop('C20','Building, running and linearizing again never uses stale state',
 "Calling setup on the problem again yields the same model as the first time; after any sequence of setting inputs, running the model, computing derivatives, checking them by finite differences and setting up again, the values and derivatives are those of the current inputs and of the current program only. Groups and problems built in the same process do not affect each other: automatically chosen names never collide.",
 ['histories'],"all interleavings of setup, set, run, compute_totals over one or several problems, groups, implicit components and cycles",
 "Each test builds and runs a problem once.",
 [G,V,IC,'omtools/utils/gen_hex_name.py','omtools/comps'],[("state of the graph is reset on each setup","omtools/core/group.py: _post_setup"),("global counter for names","omtools/utils/gen_hex_name.py")],
 ["components, values and totals after each step"],[("nodes, dependents, times_visited","result of analyzing the graph",G)])
prop('C21','The options dictionary only ever holds declared, valid values',
 "An option can be read only if it is declared and has a default or has been set, and reading it returns the last accepted value. Setting or declaring with a value of a wrong type, not among the allowed values, out of the bounds, or rejected by the validity function, setting an undeclared option and setting any option of a read-only dictionary raise an exception and leave every option unchanged; None is accepted wherever allow_none was given.",
 ['histories','inputs'],"all sequences of declare, set, update, read, undeclare with all combinations of constraints",
 "No test of the repository exercises the options dictionary.",
 ['omtools/utils/options_dictionary.py'],[("_assert_valid before the value is stored","omtools/utils/options_dictionary.py: __setitem__, declare")],
 ["results and exceptions of the calls, contents after each call"],[("_dict","metadata and value per option",'omtools/utils/options_dictionary.py')])
prop('C22','if_else selects one branch, in value and derivative',
 "if_else(c, a, b) evaluates to a when the scalar condition c is greater than or equal to zero and to b when it is negative, for branches of any shape; its derivative is the derivative of the selected branch and zero with respect to the other, and follows the condition when it changes between runs.",
 ['inputs','histories'],"all conditions (zero and both signs), branch shapes, sequences of runs in which the condition changes, and shared operands",
 "Tests evaluate two fixed examples at one condition value each; derivatives and changing conditions are not checked.",
 ['omtools/std/if_else.py'],[("ConditionalComponent.compute and compute_partials","omtools/std/if_else.py")],
 ["value and compute_totals of the registered output over several runs"])
prop('C23','Declarations give variables the shape and value that the user wrote',
 "An independent variable, input, output or implicit output has the shape it is declared with, or, where none is given, the shape of the array given as its value (one element otherwise). After every setup it holds the value it was declared with (one, for an output of which elements are assigned), element by element (a number everywhere, ones where no value is given), however that value was written and whatever happens to the array afterwards; outputs that are found by iteration start from it. A value of another shape than the one given is rejected. What the user sets instead holds until the next setup.",
 ['inputs','histories'],"all shapes, all ways of writing a value (numbers, arrays of any type and layout, lists) and all sequences of setup, set and run",
 "Tests declare variables with one value each and look at the outputs of a single run.",
 ['omtools/core/indep.py','omtools/core/input.py','omtools/core/explicit_output.py','omtools/core/implicit_output.py','omtools/core/implicit_component.py','omtools/utils/get_shape_val.py',G],
 [("shape and value from the arguments, copied","omtools/utils/get_shape_val.py"),("value of the independent variable component","omtools/core/indep.py"),("val of Input passed to components","omtools/std, omtools/core/explicit_output.py"),("out_vals","omtools/core/implicit_output.py")],
 ["acceptance of the declaration","get_val after setup, set and run; outputs and derivatives"])
prop('C24','Models are exact under complex step',
 "In a problem set up with complex allocation, a model without cycles and implicit outputs, built from any composition of the library's operations, indexing, assignment and groups, carries a complex perturbation of its inputs through to its outputs: total derivatives computed by a complex step through the whole model equal the derivatives of the composed mathematical function, and the values stay those of the real inputs. Exempt are points where if_else switches, and magnitudes at which complex functions overflow.",
 ['programs','inputs'],"all operations with all shapes and parameters, all compositions of them, all input points",
 "Tests allocate complex vectors but never evaluate a model at a complex point; a conversion to real numbers or an absolute value in one component leaves every real evaluation unchanged.",
 ['omtools/comps','omtools/std/if_else.py',G],[("compute of every component in terms of analytic functions","omtools/comps/*: compute")],
 ["Problem.compute_totals with approx_totals(method='cs')","get_val after run"])
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(d,'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
