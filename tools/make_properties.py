#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=' '.join(qtext.split())),
                  why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))


KS = 'ikbtbasics/pykinsym.py'
KC = 'ikbtbasics/kin_cl.py'
IC = 'ikbtbasics/ik_classes.py'

prop('C01', 'Rotation, translation and link transform primitives are exact',
     '''For every angle, offset and twist, the symbolic and the numeric builders of axis rotations, roll-pitch-yaw
     rotations, translations and modified-DH link transforms describe the same rigid transform, the standard one
     (right handed; roll about X first, then pitch about Y, then yaw about Z).  Both inverse operations for homogeneous
     transforms return a transform whose product with the original, on either side, is the identity, and wrapping an angle
     gives the same angle modulo a full turn inside [-pi, pi).''',
     ['inputs'], 'all real angles (any size and sign), offsets and vectors; all rigid transforms built from them',
     'The tests look at a few entries of one product at symbolic values; they never evaluate the numeric twins, the inverse or the wrap.',
     [KS], [('symbolic/numeric twin builders', KS + ' RotX_S..RPY4_N, Link_S/Link_N, Trans4_*'),
            ('transpose-based inverse', KS + ' H_inv_S, H_inv_N')])
prop('C02', 'Forward kinematics is the product of the DH links',
     '''For every six-row DH table with rotary, prismatic and fixed rows and arbitrary constant twists, the link transforms
     and the base-to-tip transform computed for the mechanism equal the modified-DH product at every joint pose and
     every parameter value.  Constants that the computation introduces for twists that are not multiples of 90 degrees
     are added to the parameters together with their numerical values, so that the numerical
     forward kinematics can be evaluated from the pose and the parameter values alone, and re-running the computation adds nothing twice.''',
     ['inputs', 'configurations'], 'all DH tables of the documented form, all joint poses, all parameter values',
     'One fixed DH table is tested, and only four entries of a two-link product.',
     [KC, KS], [('link product', KC + ' mechanism.forward_kinematics'), ('twist constants ca_i/sa_i', KC + ' forward_kinematics alpha_subs'),
                ('numeric evaluation', KC + ' forward_kinematics_N')], ['mechanism.T_06', 'mechanism.Ts', 'mechanism.params/pvals'])
prop('C03', 'The Jacobian gives the velocity of the forward kinematics',
     '''For every mechanism, pose and joint rate vector, the symbolic Jacobian times the joint rates is the linear and
     angular velocity of the last frame, expressed in the last frame, that the base-to-tip transform actually has
     when the joints move at those rates (rotary joints turn, prismatic joints slide).''',
     ['inputs', 'configurations'], 'all DH tables with rotary and prismatic joints, all poses, all parameter values, all joint rates',
     'The numeric Jacobian test is switched off in the code, so nothing checks the Jacobian at all.',
     [KC, KS], [('velocity propagation', KC + ' mechanism.forward_kinematics (JACOBIAN)'), ('differentiation by rates', KS + ' ManipJacobian_S')])
prop('C04', 'The kinematic equations given to the solvers hold at every pose',
     '''For every mechanism, each of the matrix equations set up for the inverse problem is an identity of the robot:
     with the left-hand target pose set to the forward kinematics of any joint pose, both sides are equal in all entries.
     The set contains the full-chain equation, one for each number of leading links moved to the left side, and the two
     with links removed on both ends.''',
     ['inputs', 'configurations'], 'all DH tables, all joint poses and parameter values',
     'The test compares four entries of one of the eight equations of one robot with hard-coded symbols.',
     [KC], [('equation set', KC + ' mechanism.get_mequation_set'), ('rows taken over', KC + ' matrix_equation.__init__')])
prop('C05', 'Rewriting equations never changes what they say',
     '''Each rewriting step (replacing sums of joint angles by new variables, substituting one equation into another, the
     squared-and-added position equation, and recognising a sum of angles while solving) keeps every equation true at every joint pose
     once each new variable is given the value of the sum it stands for.  Each introduced variable is defined exactly once, stands for
     a sum of distinct joint variables and appears once in the list of unknowns; substitution never increases the number of
     unknowns in the equation it rewrites.''',
     ['inputs', 'configurations'], 'all mechanisms and equation sets, all joint poses and parameter values, repeated application',
     'Tests compare the rewritten form of one or two hand-written equations with a literal.',
     [IC, 'ikbtleaves/sub_transform.py', 'ikbtleaves/x2y2_transform.py', 'ikbtleaves/sum_id.py'],
     [('sum of angles', IC + ' sum_of_angles_transform/sum_of_angles_sub'), ('substitution', 'ikbtleaves/sub_transform.py'),
      ('squares', 'ikbtleaves/x2y2_transform.py'), ('sum_id leaf', 'ikbtleaves/sum_id.py')])
prop('C06', 'Equations are sorted by how many unknowns are still unsolved',
     '''At every point of a solution history, refreshing the equation lists yields exactly the equations of the current matrix
     equations having one, two, and three or more unsolved unknowns (an unknown on both sides counts for each side), in the list for that number: none is lost, misplaced,
     altered or repeated, and sum-of-angle definitions with one or two unsolved unknowns are included.  Within each list shorter equations come first,
     equations of equal length keep their original order, and only sum-of-angle definitions in normalised form may follow at the end.''',
     ['inputs', 'histories'], 'all equation sets, all sets of unknowns and solved/unsolved histories',
     'Tests check list lengths for one robot with nothing solved.',
     [IC, 'ikbtfunctions/helperfunctions.py', 'ikbtleaves/updateL.py'],
     [('scan', IC + ' Robot.scan_for_equations, scan_Mequation'), ('length order', IC + ' erank'), ('count', 'helperfunctions.count_unknowns'),
      ('refresh leaf', 'ikbtleaves/updateL.py')])
LEAFWHY = 'Each leaf test feeds a handful of hand-written equations and compares with a literal or only checks that something was solved.'
LEAFQ = 'all equations of the documented shape with arbitrary coefficients, extra non-matching equations, solved/unsolved histories'
prop('C07', 'Algebraic (linear) solutions are right',
     '''When the algebraic method claims an unknown, the solution it records satisfies the equation it was found in for all
     values of everything else, refers only to constants, target-pose entries and already solved unknowns, and is the only one.
     An equation that is linear in its single unsolved unknown is solved; one where the unknown only appears inside a trigonometric function, or whose
     unknown is already solved, is left alone without recording anything.''',
     ['inputs', 'histories'], LEAFQ, LEAFWHY, ['ikbtleaves/algebra_solver.py'],
     [('identifier', 'algebra_id'), ('solver', 'algebra_solve')])
prop('C08', 'Arcsine and arccosine solutions are right and complete',
     '''When the sine-or-cosine method claims an unknown, the recorded solutions are exactly the two angles (modulo a full turn) that satisfy the
     equation A sin(x)+B=C (or with cosine) wherever it is solvable, and they refer only to constants, target-pose entries and already solved unknowns.
     An equation of that form with one unsolved unknown is solved, and an equation that is not of that form is left alone.''',
     ['inputs', 'histories'], LEAFQ, LEAFWHY, ['ikbtleaves/sincos_solver.py'],
     [('identifier', 'sincos_id'), ('solver', 'sincos_solve')])
prop('C09', 'Two-argument arctangent solutions are right and complete',
     '''When the arctangent method claims an unknown from a pair of equations giving its sine and its cosine, the recorded solution
     (or pair of solutions, when a common factor of unknown sign was cancelled) contains the true angle for every pose, in the correct quadrant, and refers
     only to constants, target-pose entries and already solved unknowns.  A pair with known coefficients and no other unsolved unknown is claimed, with one solution;
     an unknown that is already solved is never claimed again.''',
     ['inputs', 'histories'], LEAFQ, LEAFWHY, ['ikbtleaves/tan_solver.py'],
     [('identifier', 'tan_id'), ('solver', 'tan_solve')])
prop('C10', 'Solutions of A sin + B cos = C are right and complete',
     '''When the combined sine-and-cosine method claims an unknown from one equation A sin(x)+B cos(x)=C, the recorded
     two solutions are exactly the angles satisfying that equation wherever it is solvable, also when C is zero, and refer
     only to constants, target-pose entries and already solved unknowns.  An equation of that form with one unsolved unknown is solved, and one that is not is left alone.''',
     ['inputs', 'histories'], LEAFQ, LEAFWHY, ['ikbtleaves/sinANDcos_solver.py'],
     [('identifier', 'sinANDcos_id'), ('solver', 'sinANDcos_solve')])
prop('C11', 'Solutions of a simultaneous sine/cosine pair are right',
     '''When the simultaneous-equation method claims an unknown from two equations A sin(x)+B cos(x)=C and A cos(x)-B sin(x)=D (in either order and with
     either sign), the recorded solution is the one angle satisfying both for all values of everything else, and refers
     only to constants, target-pose entries and already solved unknowns.  Pairs that do not fit are left alone without recording anything.''',
     ['inputs', 'histories'], LEAFQ, LEAFWHY, ['ikbtleaves/two_eqn_m7.py'],
     [('identifier', 'simu_id'), ('solver', 'simu_solver')])
prop('C12', 'Ranking keeps exactly one candidate method per unknown, the better one',
     '''When an unknown has candidate solutions from the sine/cosine method and from the arctangent method, ranking adopts unchanged the candidate set with fewer
     solutions, and on a tie the one whose expression depends on fewer unknowns, the arctangent one when still equal.  With one candidate set
     that one is adopted, with none the unknown stays unsolved, and in every case the ranking step itself reports success and the unknown is recorded as
     solved exactly once.''',
     ['inputs', 'histories'], 'all candidate sets, dependencies and solved histories',
     'The tests rank one hand-made case.',
     ['ikbtleaves/rank_leaf.py'], [('comparison', 'rank_leaf.rankD / rank')])
prop('C13', 'Solved unknowns are recorded in a consistent, acyclic dependency history',
     '''For every history in which unknowns are solved, an unknown depends on exactly the solved unknowns its solutions mention, all solved earlier,
     its solve order is its position in the history, and the dependency edges are exactly those pairs.  Its number of versions is its number of
     solutions times the product of the numbers of solutions of what it directly depends on, with one name per solution and one version name per version;
     marking an unknown without solutions, or whose solution mentions an unsolved unknown, as solved is refused.''',
     ['histories'], 'all sequences of solved unknowns with one or more solutions and arbitrary earlier-unknown dependencies',
     'The bookkeeping is only exercised through one fixed robot (whose result is not compared).',
     [KC, 'ikbtbasics/solutionGraphV3.py', 'ikbtfunctions/helperfunctions.py'],
     [('set_solved', KC + ' unknown.set_solved'), ('get_deps', 'helperfunctions.get_deps'), ('Node/Edge', 'solutionGraphV3.py')])
prop('C14', 'The final solution table lists every solution combination once',
     '''For every history of solved unknowns with one or two solutions each, the final table has one row for every combination of the
     individual solutions and no two rows choose the same combination.  In each row every unknown is computed by its chosen solution with
     every other unknown in it replaced by a version of it that holds the row's own choice and is computed in a column to the left, so evaluating the table column by column is
     always possible, and each published row of version names names computed variables that hold that row's values.''',
     ['histories'], 'all solution histories: order, numbers of solutions, dependency graphs',
     'No test compares the table with an independent enumeration; one fixed robot is run without looking at the rows.',
     [IC], [('rows', IC + ' Robot.create_solution_set'), ('equations', IC + ' Robot.make_LHS_versions')])
prop('C15', 'Generated Python inverse kinematics code computes the solution table',
     '''For every solved robot the generated Python file is valid Python 3 that imports without side effects, and its function returns, for every reachable
     target pose, one list per row of the solution table with the values of that row in the order of their variable names, using the robot's parameter values.
     If the argument of an arcsine or arccosine is out of range the function returns False, and a badly shaped target is rejected.''',
     ['inputs', 'programs', 'configurations'], 'all solution histories (any expressions the solvers produce), all target poses and parameter values',
     'The only test writes a file and never imports it.',
     ['ikbtfunctions/output_python.py'], [('generator', 'output_python_code')])
prop('C16', 'Generated C++ inverse kinematics code compiles and computes the solution table',
     '''For every solved robot the generated C++ compiles once the constant parameters, which it leaves to be filled in, are given values, and the
     function fills its table with the same values, row by row and in the order of the variable names, as the solution table.
     If the argument of an arcsine or arccosine is out of range it reports failure, and no robot makes it write outside its table.''',
     ['inputs', 'programs', 'configurations'], 'all solution histories, all target poses and parameter values',
     'The only test of the C++ generator fails in the baseline, and nothing compiles what is generated.',
     ['ikbtfunctions/output_cpp.py'], [('generator', 'output_cpp_code')])
prop('C17', 'Generated Python forward kinematics code computes the base-to-tip transform',
     '''For every mechanism the generated forward kinematics program is valid Python 3, runs, and with the joint variables in it set to
     any values and the parameters at the model's values prints or holds the base-to-tip transform of the mechanism at that pose,
     including when sums of angles were replaced by new variables; every such variable declared in it has the value of the sum it stands for.''',
     ['inputs', 'programs', 'configurations'], 'all DH tables, poses and parameter values',
     'No test runs the generated file.',
     ['ikbtfunctions/output_python.py', 'fkOnly.py'], [('generator', 'output_FK_python_code')])
prop('C18', 'The LaTeX report is complete and well formed',
     '''For every solved or partly solved robot the generated report has balanced braces, environments and math delimiters and shows the DH table, the forward kinematics, the Jacobian,
     every solved unknown with its solution method and each of its solutions, every dependency edge, and every row of the solution set.
     When nothing or only a part is solved the report is still complete, and shows exactly what was solved.''',
     ['inputs', 'configurations'], 'all robots, solution histories and names',
     'The tests compare two small LaTeX strings.',
     ['ikbtfunctions/output_latex.py', 'ikbtfunctions/graph2latex.py', KC], [('report', 'output_latex_solution'), ('graph', 'graph2latex')])
prop('C19', 'A solved robot: the true joint pose is always among the solutions',
     '''For every robot and every joint pose in general position, evaluating the solution table at the target pose of that joint pose gives
     a row equal to it, modulo full turns, in every unknown that the solver reports solved; every solution the solver records is an explicit formula in constants, the target pose and earlier solutions.
     Solving always terminates with a report, also when some unknowns cannot be solved.''',
     ['inputs', 'configurations'], 'all robots of the catalogue and generated DH tables; all joint poses in general position',
     'The tests run one robot and compare no numbers; correctness of the answer is over a continuum of poses.',
     ['ikSolver.py', 'ikbtleaves/', IC], [('behavior tree', 'ikSolver.py'), ('solution table', IC)])
prop('C20', 'The forward kinematics cache never changes the result',
     '''Loading a robot whose forward kinematics were computed by an earlier run gives the same mechanism, equations and unknowns as computing them afresh, with
     the current numerical parameter values in force.  A cached result for different DH parameters is refused instead of used, and a cache file that is truncated, or was written by
     an interrupted run, never leads to a silently different result.''',
     ['inputs', 'histories', 'crash_points'], 'all mechanisms; edits of DH tables and parameter values between runs; truncation of the cache at any byte, interruption of the writing run at any byte',
     'Tests never load a cache written for something else, edited or damaged.',
     [IC, 'ikSolver.py'], [('cache', IC + ' kinematics_pickle'), ('staleness check', IC + ' check_the_pickle')])
prop('C21', 'Every robot in the catalogue is well formed and loadable by name',
     '''Every robot name known to the catalogue yields a six-row DH table, a joint-type vector of six entries that agrees with which column holds the variable,
     one unknown per joint variable with its index set and nothing solved, and a parameter list covering every other symbol, with numerical values only for parameters.
     Loading is independent of what was loaded before, and an unknown name is reported.''',
     ['configurations', 'histories'], 'all names in the catalogue, any loading order',
     'The tests load two or three of the robots.',
     ['ikbtfunctions/ik_robots.py'], [('catalogue', 'ik_robots.robot_params')])
prop('C22', 'Behavior tree composites follow their definition',
     '''For every tree of composites over leaves with arbitrary return statuses and every number of ticks, each composite returns the status, and ticks
     exactly the children in exactly the order, that its definition prescribes: priority, sequence, their memory variants which resume at the child that was still running,
     and the or-node which ticks all children and succeeds unless all of them fail.''',
     ['histories', 'programs'], 'all trees, leaf status scripts and tick sequences',
     'The repository has no test of the behavior tree library.',
     ['b3/composites/', 'b3/core/'], [('composites', 'b3/composites/*.py'), ('tick protocol', 'b3/core/basenode.py')])
prop('C23', 'Behavior tree decorators follow their definition',
     '''For every tree of decorators over leaves with arbitrary return statuses and every tick sequence, each decorator returns the prescribed status and ticks its child
     the prescribed number of times: inversion leaves running and error alone, limits and repetitions stop exactly at their count and count anew for a new run, a child
     ticked when more than the time limit has passed since it was started is failed.''',
     ['histories', 'programs', 'schedules'], 'all decorator stacks, limits, leaf status scripts and tick sequences',
     'The repository has no test of the behavior tree library.',
     ['b3/decorators/', 'b3/core/'], [('decorators', 'b3/decorators/*.py')])
prop('C24', 'Behavior tree memory is scoped and node life cycle is exact',
     '''Values stored globally, per tree, and per node in a tree are independent of each other: reading returns the last value written to the same scope and key, and nothing
     else changes it.  On every tick each executed node is entered once, opened only if it was not open, ticked once, closed when it does not return running and exited once,
     and it stays open exactly while its last execution returned running.  The tick and success counters, the number of executed nodes and the total cost are exactly those of the executions.''',
     ['histories', 'programs'], 'all operation sequences on the memory, all trees and tick sequences, several trees sharing a memory',
     'The repository has no test of the behavior tree library.',
     ['b3/core/blackboard.py', 'b3/core/basenode.py', 'b3/core/behaviortree.py', 'b3/core/tick.py'],
     [('blackboard', 'b3/core/blackboard.py'), ('open nodes', 'b3/core/behaviortree.py, tick.py')])
prop('C25', 'Saving and loading a behavior tree preserves it',
     '''For every tree built from the constructible node types, loading what was dumped gives a tree with the same structure, order of children, names, properties and (where given) titles and descriptions that
     behaves identically under every tick sequence; dumping the loaded tree gives the same data.''',
     ['programs', 'histories'], 'all trees of loadable node types, properties and tick sequences',
     'The repository has no test of the behavior tree library.',
     ['b3/core/behaviortree.py'], [('dump/load', 'b3/core/behaviortree.py')])
prop('C26', 'Every unsolved unknown gets its turn and completion is detected exactly',
     '''Over any history, the assigner offers the unsolved unknowns in rotation, so that every unknown that stays unsolved is offered again within one round, and never offers a solved one while
     an unsolved one remains in the round.  The completion test succeeds exactly when every unknown is solved.''',
     ['histories'], 'all lists of unknowns and solve histories',
     'The tests call the assigner on one fixed list.',
     ['ikbtleaves/assigner_leaf.py', 'ikbtleaves/comp_detect.py'], [('rotation', 'assigner_leaf.py'), ('completion', 'comp_detect.py')])
prop('C27', 'Equality of equations, unknowns and graph items is a proper equivalence',
     '''Equations, unknowns, graph nodes and edges compare equal exactly when they denote the same thing (both sides equal, same symbol, same pair of ends and multiplicity), equality is reflexive, symmetric and transitive,
     inequality is its negation, comparing with nothing is false, and equal items written alike have equal hashes, so that sets and membership tests neither lose nor duplicate them.''',
     ['inputs'], 'all expressions and symbols, all pairs and triples of items',
     'Tests compare two or three literals.',
     [KC, 'ikbtbasics/solutionGraphV3.py'], [('__eq__/__hash__', KC + ' kequation, unknown; solutionGraphV3 Node, Edge')])
prop('C28', 'Solver steps taken in any order keep the solution record sound',
     '''Whatever order the solving methods, the substitution, the sum-of-angle search, the refreshing of the equation lists and the scheduling are ticked in, and whatever unknown is at hand, on any robot
     or set of equations: a method reports success exactly when it solved the unknown at hand, a step that fails solves nothing, nothing else is solved and no record of a solved unknown is ever changed;
     each solution uses only quantities solved earlier, and wherever the equations it is taken from determine the unknown, its true value is among the solutions; methods leave the equations as they are,
     and the rewriting steps leave them true at every pose.''',
     ['inputs', 'histories', 'schedules'], 'all robots and equation sets, all sequences of steps, all joint poses and parameter values',
     'The tests tick one method once on prepared equations, or the whole tree in its one fixed order.',
     ['ikbtleaves/algebra_solver.py', 'ikbtleaves/tan_solver.py', 'ikbtleaves/sincos_solver.py', 'ikbtleaves/sinANDcos_solver.py', 'ikbtleaves/two_eqn_m7.py', 'ikbtleaves/x2y2_transform.py',
      'ikbtleaves/sub_transform.py', 'ikbtleaves/sum_id.py', 'ikbtleaves/updateL.py', 'ikbtleaves/rank_leaf.py', KC],
     [('state shared by the methods', KC + ' unknown (readytosolve, solvable_*, solvemethod, solutions)'), ('recording', KC + ' unknown.set_solved'), ('steps', 'ikbtleaves/*.py tick()')])
prop('C29', 'Tracing shows more and changes nothing',
     '''For every robot or set of equations and every sequence of solver steps, running with tracing (BHdebug) switched on for any of the nodes gives, step by step, the same status, the same unknown
     at hand, the same records, dependency graph, equations and lists as running without it, and stops with an error only where the untraced run does.''',
     ['inputs', 'histories', 'configurations'], 'all robots and equation sets, all sequences of steps, all sets of traced nodes',
     'No test compares a traced run with an untraced one.',
     ['ikbtleaves/algebra_solver.py', 'ikbtleaves/tan_solver.py', 'ikbtleaves/sincos_solver.py', 'ikbtleaves/sinANDcos_solver.py', 'ikbtleaves/two_eqn_m7.py', 'ikbtleaves/x2y2_transform.py',
      'ikbtleaves/sub_transform.py', 'ikbtleaves/sum_id.py', 'b3/core/basenode.py'],
     [('tracing branches', 'ikbtleaves/*.py, b3/core/basenode.py: if self.BHdebug')])
prop('C30', 'Solving the same robot again gives the same result',
     '''Solving a robot again, in another process with another hash seed or after other robots in the same process, gives the same result: the same order of solving, the same method, equations,
     solutions and dependencies for each unknown, the same dependency graph and solution table, and the same generated Python, C++ and LaTeX files, up to the order in which rows and edges are listed.''',
     ['inputs', 'histories', 'configurations'], 'all robots, all hash seeds, all robots solved before in the same process',
     'No test solves a robot twice; the tests run with whatever hash seed they get.',
     ['ikbtbasics/ik_classes.py', 'ikbtleaves/sum_id.py', 'ikbtleaves/sub_transform.py', 'ikbtbasics/solutionGraphV3.py', 'ikbtfunctions/output_python.py', 'ikbtfunctions/output_latex.py', 'ikSolver.py'],
     [('sum-of-angle replacement', 'ikbtbasics/ik_classes.py sum_of_angles_sub'), ('sum_id', 'ikbtleaves/sum_id.py'), ('state at module level', 'b3, ikbtbasics')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
