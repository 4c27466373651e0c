#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list is easy to review)."""
import json, os
I = "include/crocoddyl/core/"
S = "src/core/"
NT = "The only tests that build here are test_boxqp (4 cases) and test_controls (12 cases); "
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


p("C01", "Shooting problem keeps nodes, data and change flag aligned over edits",
  "After any sequence of receding-horizon appends, node updates, model updates, running-model and terminal-model replacements, initial-state changes and copies, every node of a shooting problem holds exactly the model last placed there together with data made for that model, all the other nodes are untouched, and a rejected edit leaves the problem exactly as it was. The problem reports that it changed exactly once after one or more accepted node edits and not otherwise. A copy refers to the same models and data as the original at the time of copying and is unaffected by later edits of the original.",
  ["histories", "inputs"],
  "all sequences of accepted and rejected edits (wrong index, wrong state dimension, data of another model, wrong initial-state size), all horizon lengths, with copies and evaluations interleaved",
  NT + "no test that runs here builds a shooting problem, and the upstream tests perform one edit from a fresh problem, never a history.",
  [I + "optctrl/shooting.hpp", I + "optctrl/shooting.hxx"],
  [("circular append / node and model update / setters", I + "optctrl/shooting.hxx"), ("one-shot change flag", I + "optctrl/shooting.hxx is_updated")],
  ["models, data, horizon, initial state and change flag through the public accessors after every operation"],
  [("nodes", "sequence of (model, data) pairs plus the terminal pair", I + "optctrl/shooting.hpp"), ("updated", "one-shot change flag", I + "optctrl/shooting.hpp")])

p("C02", "Problem evaluation equals node-by-node evaluation for any thread count",
  "Evaluating a shooting problem, or its derivatives, evaluates every running node exactly once with its own state, control and data and the terminal node exactly once with the last state, and returns the sum of the node costs, whatever the number of threads and their interleaving. A rollout produces the unique trajectory that starts at the initial state and follows the node dynamics, and the quasi-static controls are those of each node. A call with trajectories of the wrong length is rejected without evaluating anything.",
  ["schedules", "inputs"],
  "all horizons, mixes of node types, trajectories, thread counts and thread interleavings",
  NT + "nothing evaluates a problem, and no build with multithreading exists.",
  [I + "optctrl/shooting.hxx"],
  [("per-node loops (parallel when enabled) and cost sum", I + "optctrl/shooting.hxx calc/calcDiff"), ("sequential rollout", I + "optctrl/shooting.hxx rollout")],
  ["calls received by user-defined action models, returned cost, node data"])

p("C03", "Cost stack totals and stacked residuals follow its active items",
  "For any history of adding, removing, activating and deactivating cost items and changing their weights, the stack's sets of active and inactive items, its active residual dimension and its total dimension agree with its contents. Its value and derivatives equal the weighted sum over exactly the active items, evaluated for running and terminal nodes alike. Adding a name that exists, or removing or toggling a name that does not, changes nothing.",
  ["histories", "inputs"],
  "all operation histories over item names and status changes, with data created before or after, and all weights and evaluation points",
  NT + "the cost stack is not exercised by them, and the upstream tests check single operations from an empty stack.",
  [I + "costs/cost-sum.hpp", I + "costs/cost-sum.hxx"],
  [("add/remove/change status with dimension counters", I + "costs/cost-sum.hxx"), ("weighted accumulation and residual stacking", I + "costs/cost-sum.hxx calc/calcDiff")],
  ["dimension and set accessors, and the shared cost/derivative data after every operation"],
  [("costs/active/inactive", "name to item map and the two status sets", I + "costs/cost-sum.hpp")])

p("C04", "Constraint stack dimensions, stacking and bounds follow active items",
  "For any history of adding, removing, activating and deactivating constraints, the reported inequality and equality dimensions (for running and terminal nodes) equal the sums over exactly the active constraints that apply to that kind of node, and the active and inactive sets match the contents. The stacked constraint values, Jacobians and bounds list exactly those active constraints in one consistent order. Adding a name that exists, or removing or toggling a name that does not, changes nothing.",
  ["histories", "inputs"],
  "all operation histories over named constraints of all kinds (inequality, equality, running-only, terminal-only, both), all values and bounds",
  NT + "the constraint stack is not exercised by them, and the upstream tests check single operations.",
  [I + "constraints/constraint-manager.hpp", I + "constraints/constraint-manager.hxx", I + "constraint-base.hxx"],
  [("add/remove/change status with dimension counters", I + "constraints/constraint-manager.hxx"), ("stacking of values, Jacobians and bounds", I + "constraints/constraint-manager.hxx calc/calcDiff")],
  ["dimension, set and bound accessors, stacked values and Jacobians after every operation"],
  [("constraints/active/inactive, ng/nh/ng_T/nh_T", "contents and cached dimensions", I + "constraints/constraint-manager.hpp")])

p("C05", "A trial step is taken only when it improves enough, longest step first",
  "In every iteration a solver of the DDP family tries its step lengths from longest to shortest, skips a trial whose rollout fails, and takes the first one that satisfies its documented acceptance rule (enough of the predicted decrease, with the rule for infeasible guesses or for merit functions where that applies). A trial that does not satisfy the rule is never taken: the trajectory, its cost and its feasibility status then stay those of the last accepted step. After a step is taken the current trajectory, controls, cost and feasibility status are exactly those of that trial.",
  ["inputs", "configurations", "fault_sequences"],
  "all sequences of trial outcomes (actual change, predicted change, failed rollouts), all thresholds and step lists, feasible and infeasible starts, for the DDP, feasibility-driven DDP, box DDP, box feasibility-driven DDP and equality-constrained solvers",
  NT + "no solver is run by them; upstream tests run smooth problems on which nearly every first trial is accepted.",
  [S + "solvers/ddp.cpp", S + "solvers/fddp.cpp", S + "solvers/intro.cpp", S + "solver-base.cpp"],
  [("acceptance conditions in the line search", S + "solvers/ddp.cpp, fddp.cpp, intro.cpp solve"), ("candidate update", S + "solver-base.cpp setCandidate")],
  ["trajectory, cost, predicted/actual change, feasibility and step length after each trial and each iteration"],
  [("feasibility status, step length, cost", "line-search state", I + "solver-base.hpp")])

p("C06", "Regularization follows its schedule, stays in range and ends the solve",
  "During a solve the regularization starts from the requested initial value (or the minimum), is raised by the increase factor when the search direction cannot be computed or the step is too short, is lowered by the decrease factor when the step is long enough, and never leaves its configured range. When it reaches its maximum the solve stops and reports failure. A solve therefore always ends, whatever the pattern of failures.",
  ["fault_sequences", "configurations"],
  "all patterns of direction failures, rollout failures and step lengths, all admissible factors and ranges, and all iteration limits",
  NT + "failures of the backward pass are not provoked by any test.",
  [S + "solvers/ddp.cpp", S + "solvers/fddp.cpp", S + "solvers/intro.cpp", S + "solvers/kkt.cpp"],
  [("raising and lowering", S + "solvers/ddp.cpp increaseRegularization/decreaseRegularization"), ("retry loop around the search direction", S + "solvers/ddp.cpp solve")],
  ["regularization after every attempt, return value of the solve"],
  [("regularization", "current value", I + "solver-base.hpp")])

p("C07", "Convergence report, iteration budget and callback protocol are exact",
  "A solve returns success exactly when an iteration ends with a trajectory that counts as feasible and a stopping value below the threshold, stops at that iteration, and otherwise returns failure after at most the allowed number of iterations. Every registered callback is invoked exactly once per completed iteration, in registration order, with the iteration number and values of that iteration. Neither the number nor the kind of callbacks affects the result.",
  ["inputs", "histories", "configurations"],
  "all iteration limits, thresholds, sequences of stopping values and feasibility outcomes, and callback lists, over repeated solves",
  NT + "no solver is run by them.",
  [S + "solvers/ddp.cpp", S + "solvers/fddp.cpp", S + "solvers/intro.cpp", S + "solvers/kkt.cpp", S + "solver-base.cpp"],
  [("end of iteration", S + "solvers/ddp.cpp, fddp.cpp, intro.cpp solve")],
  ["return value, iteration counter, callback invocations"])

p("C08", "Reported trajectory, cost, gaps and feasibility describe each other",
  "After every iteration of a solve the reported cost equals the cost of the reported trajectory, and when the trajectory counts as feasible it starts at the initial state and follows the dynamics. The reported gaps are the differences between where the dynamics of each node lead and the next state of the trajectory the derivatives were computed at. The reported feasibility measures are the chosen norm (largest entry, or sum over all the nodes) of the gaps, of the inequality-bound violations and of the equality residuals.",
  ["inputs", "configurations"],
  "all problems (node types, dimensions, horizons), feasible and infeasible guesses, both norms, for all the solvers of the DDP family",
  NT + "no solver is run by them.",
  [S + "solver-base.cpp", S + "solvers/ddp.cpp", S + "solvers/fddp.cpp", S + "solvers/intro.cpp"],
  [("gap and violation norms", S + "solver-base.cpp computeDynamicFeasibility/computeInequalityFeasibility/computeEqualityFeasibility"), ("cost bookkeeping in the forward pass", S + "solvers/ddp.cpp, fddp.cpp forwardPass")],
  ["trajectory, cost, gaps and measures after every iteration, re-evaluated node by node"])

p("C09", "Forward passes apply the policy and contract gaps by the step length",
  "For every step length, the trial controls are the current controls minus the scaled feed-forward term minus the feedback on the state deviation. A classical forward pass closes every gap; a feasibility-driven forward pass leaves exactly one minus the step length of each gap unless the guess was feasible or the step is full, in which case it leaves none. The trial cost is the sum of node costs along the trial trajectory and a non-finite trial is reported as a failure.",
  ["inputs", "fault_sequences"],
  "all step lengths in [0,1], gains, gaps, node types (including nodes without controls) and nodes that produce non-finite values, for all the solvers of the DDP family",
  NT + "no forward pass is run by them.",
  [S + "solvers/ddp.cpp", S + "solvers/fddp.cpp", S + "solvers/box-ddp.cpp", S + "solvers/box-fddp.cpp", S + "solvers/intro.cpp"],
  [("forward passes", S + "solvers/ddp.cpp, fddp.cpp, box-ddp.cpp, box-fddp.cpp forwardPass")],
  ["trial trajectory, trial controls, trial cost and gaps after each trial"])

p("C10", "Backward pass solves the regularized Riccati recursion at every node",
  "At every node the action-value terms are the node's derivatives plus the next node's value function pulled back through the dynamics, including the gap contribution for infeasible guesses, and the regularization. The policy terms solve the resulting linear system and, where the policy is not limited by control bounds, the value function is the minimum of the action-value function; it is symmetric at every node. The predicted change equals the change of that quadratic model, and failure is reported exactly when a node's system is not positive definite or the value function is not finite.",
  ["inputs", "configurations"],
  "all node derivatives, dimensions, horizons, regularizations, feasible and infeasible guesses, for the DDP and feasibility-driven solvers",
  NT + "no backward pass is run by them.",
  [S + "solvers/ddp.cpp", S + "solvers/fddp.cpp"],
  [("action-value, gains, value function", S + "solvers/ddp.cpp computeActionValueFunction/computeGains/computeValueFunction"), ("predicted change", S + "solvers/ddp.cpp, fddp.cpp expectedImprovement")],
  ["value, action-value and policy terms through the accessors after the search direction is computed"])

p("C11", "Linear-quadratic problems are solved to optimality in one full step",
  "For every strictly convex linear-quadratic problem and any initial guess, the direction computed without regularization followed by a full step yields the trajectory that satisfies the problem's optimality conditions. All the solvers that apply (DDP, feasibility-driven DDP, box variants without limits, equality-constrained variants without constraints, and the direct KKT solver) agree on it. The predicted decrease then equals the actual decrease when the guess is feasible.",
  ["inputs", "configurations"],
  "all convex linear-quadratic data with drift and cross terms, all horizons, dimensions and guesses",
  NT + "no solver is run by them; upstream tests compare a few random problems to a tolerance.",
  [S + "solvers/ddp.cpp", S + "solvers/fddp.cpp", S + "solvers/kkt.cpp", S + "solvers/box-ddp.cpp", S + "solvers/box-fddp.cpp", S + "solvers/intro.cpp"],
  [("search direction and full step", S + "solvers/*.cpp computeDirection/tryStep"), ("direct assembly of the optimality system", S + "solvers/kkt.cpp calcDiff/computePrimalDual")],
  ["trial trajectory after a full step, checked against the stationarity and dynamics equations"])

p("C12", "Box solvers keep every applied control within its limits",
  "In every trial and every accepted step of a box-constrained solver, each control of a node that has limits lies within that node's lower and upper limits, whatever the guess, and nodes without limits are treated as unconstrained. The policy of a limited node is the solution of the box-constrained problem of that node: feedback is removed in exactly the directions held at a limit. Where no limit is active the result is that of the unconstrained solver.",
  ["inputs", "configurations"],
  "all problems mixing limited and unlimited nodes, one-sided and partial limits, guesses inside and outside the limits, and step lengths",
  NT + "test_boxqp solves a few random bound-constrained problems in isolation; no box solver is run.",
  [S + "solvers/box-ddp.cpp", S + "solvers/box-fddp.cpp", S + "solvers/box-qp.cpp"],
  [("box-constrained policy", S + "solvers/box-ddp.cpp, box-fddp.cpp computeGains"), ("clamping in the forward pass", S + "solvers/box-ddp.cpp, box-fddp.cpp forwardPass")],
  ["trial and accepted controls, gains and limits of each node"])

p("C13", "Bound-constrained QP returns the constrained minimizer and its partition",
  "For every positive definite Hessian, gradient, bounds and start (inside the bounds or not), the returned point lies within the bounds and satisfies the optimality conditions of the bound-constrained problem within the tolerance. Every index is reported exactly once, as clamped (held at a bound by a gradient pushing outwards) or free, and the reported inverse is that of the Hessian restricted to the free indices. The answer does not depend on problems solved before with the same object, and inputs of the wrong size are rejected.",
  ["inputs", "histories"],
  "all positive definite problems, active sets, start points and sequences of problems with one solver object",
  NT + "test_boxqp covers four random problems with all bounds inactive or all of one kind, each with a fresh object.",
  [S + "solvers/box-qp.cpp", I + "solvers/box-qp.hpp"],
  [("projected Newton with clamped/free partition", S + "solvers/box-qp.cpp solve")],
  ["returned point, free/clamped lists and inverse"])

p("C14", "Re-solving with a used solver gives what a fresh solver would",
  "After any history of solves, aborted solves, parameter restores and problem edits that keep the horizon length (including nodes with another number of controls), a solve from a given guess produces the same trajectory, cost, flags and return value as a newly constructed solver on the same problem. A missing guess means the zero state and zero control of each node, and a guess of the wrong length or node size is rejected.",
  ["histories", "inputs"],
  "all histories of solves, failures, warm starts, initial-state changes and node replacements, for all the solvers of the DDP family",
  NT + "no solver is run by them, and upstream tests never reuse a solver after an edit.",
  [S + "solver-base.cpp", S + "solvers/ddp.cpp", S + "solvers/fddp.cpp", S + "solvers/box-ddp.cpp", S + "solvers/intro.cpp"],
  [("candidate validation", S + "solver-base.cpp setCandidate"), ("re-allocation on problem change", S + "solver-base.cpp, solvers/*.cpp resizeData")],
  ["results of a reused and of a fresh solver on the same problem"])

p("C15", "Model evaluation depends only on model parameters and inputs",
  "For the built-in action, activation, cost and constraint models, evaluating into any data object made for the model gives the same values and derivatives as evaluating into a brand-new one, whatever was evaluated before, in whatever order, with whatever other data objects of the same model. In particular, after the parameters of a model change, every data object of that model reflects the change at its next evaluation. Evaluation never changes the model's observable parameters.",
  ["histories"],
  "all interleavings of parameter changes, running and terminal evaluations and derivative evaluations over several data objects of one model",
  NT + "no test evaluates a model with more than one data object, although a horizon normally shares one model among its nodes.",
  [I + "actions/lqr.hxx", I + "actions/lqr.hpp", I + "actions/diff-lqr.hxx", I + "actions/diff-lqr.hpp", I + "actions/unicycle.hxx", I + "activations/weighted-quadratic.hpp", I + "costs/residual.hxx"],
  [("separation of model and data", I + "actions/*.hxx, activations/*.hpp")],
  ["all fields of the data after evaluation, against a newly created data object"])

p("C16", "Linear-quadratic and unicycle models evaluate their documented formulas",
  "The built-in discrete and continuous linear-quadratic models and the unicycle model return exactly the next state or acceleration, cost, constraint values and first and second derivatives that their documented formulas define, for running and terminal nodes, all dimensions and all parameters. Parameters of inconsistent sizes or an indefinite cost are rejected and leave the model unchanged. Evaluations with inputs of the wrong size are rejected.",
  ["inputs", "configurations"],
  "all dimensions (odd and even), matrices, drifts, constraint counts, states and controls",
  NT + "no built-in action model is evaluated by them.",
  [I + "actions/lqr.hxx", I + "actions/lqr.hpp", I + "actions/diff-lqr.hxx", I + "actions/unicycle.hxx"],
  [("value and derivative formulas", I + "actions/lqr.hxx, diff-lqr.hxx, unicycle.hxx")],
  ["data after evaluation against exact rational arithmetic"])

p("C17", "Integrators apply their scheme and return its exact derivatives",
  "The Euler and the second, third and fourth order Runge-Kutta integrators return the next state and cost their scheme defines for the given continuous model, control parametrization and time step, with the continuous model's constraints passed through. Their derivatives of the next state, cost gradients and constraints are the exact derivatives of those values, for running and terminal nodes. A zero time step leaves the state unchanged.",
  ["inputs", "configurations"],
  "all continuous models, control parametrizations, integrator orders, time steps, states and controls",
  NT + "integrator classes are compiled but never evaluated by them.",
  [I + "integrator/euler.hxx", I + "integrator/rk.hxx", I + "integ-action-base.hxx"],
  [("stage evaluation and chain rule", I + "integrator/rk.hxx, euler.hxx calc/calcDiff")],
  ["data of the integrated action against exact rational evaluation of the scheme"])

p("C18", "Control parametrizations are linear, invertible and mutually consistent",
  "The piecewise constant, linear and two-step parametrizations produce the control their polynomial defines at each normalized time, and their parameter derivative is its exact matrix. Multiplying a matrix by that derivative or its transpose, in any assignment mode, agrees with the matrix itself. Fitting parameters to a control reproduces that control, and control limits convert to parameter limits of the matching size.",
  ["inputs"],
  "all times in [0,1], parameters, control dimensions, multiplied matrices and assignment modes",
  NT + "test_controls samples one time and one random parameter per class, with floating-point tolerance and no assignment modes.",
  [I + "controls/poly-zero.hxx", I + "controls/poly-one.hxx", I + "controls/poly-two-rk.hxx", I + "control-base.hxx"],
  [("polynomial coefficients and Jacobian products", I + "controls/*.hxx")],
  ["controls, parameters and products against exact rational evaluation"])

p("C19", "Activations and residual costs return their value and its derivatives",
  "Every built-in activation returns the value of its documented function and the exact gradient, and for the quadratic ones the exact Hessian, for all residuals including those on the boundary between branches. A residual-based cost returns the activation of its residual with chain-rule gradients and the Gauss-Newton Hessian, and a constraint made from a residual returns that residual, its derivatives and the bounds given, for running and terminal nodes. Barrier bounds are shrunk about their middle and are never applied when infinite.",
  ["inputs", "configurations"],
  "all residual values and sizes, parameters (weights, widths, smoothing, bounds with infinite entries, shrink factors)",
  NT + "no activation or cost is evaluated by them.",
  [I + "activations", I + "costs/residual.hxx", I + "residuals/control.hxx", I + "constraints/residual.hxx"],
  [("activation formulas", I + "activations/*.hpp"), ("chain rule", I + "costs/residual.hxx calcDiff")],
  ["value, gradient and Hessian against exact evaluation"])

p("C20", "Euclidean state operations form a consistent difference/integration pair",
  "For all points and displacements, moving a point by the difference to another point reaches that other point, the difference of a moved point is the displacement, and the zero point is neutral. The Jacobians of both operations are exact, the selection of one or both Jacobians does not change them, and set, add and subtract modes accumulate accordingly. State limits are accepted only with the right size and flag their presence exactly when some entry is finite.",
  ["inputs", "configurations"],
  "all dimensions, points, displacements, Jacobian selections, assignment modes and limit vectors",
  NT + "the state classes are compiled but not exercised by them.",
  [I + "states/euclidean.hxx", I + "state-base.hxx"],
  [("difference, integration, Jacobians, transport", I + "states/euclidean.hxx"), ("limits", I + "state-base.hxx")],
  ["returned points, displacements and Jacobians"])

p("C21", "Action-model limits and solver settings reject bad values atomically",
  "A control-limit, constraint-bound or solver-setting change is accepted exactly when its size and range are admissible, then takes effect exactly as given, and otherwise raises an error and leaves every setting as it was. The has-limits flag of an action model always reflects the current limits. Copies of a model carry all its settings.",
  ["histories", "inputs"],
  "all sequences of accepted and rejected changes, all values including boundary and non-finite ones",
  NT + "no setter other than those of the box solver is called by them.",
  [I + "action-base.hxx", S + "solver-base.cpp", S + "solvers/ddp.cpp", S + "solvers/fddp.cpp", S + "solvers/intro.cpp", S + "solvers/box-qp.cpp"],
  [("setters", I + "action-base.hxx set_*; " + S + "solver-base.cpp set_*")],
  ["accessors after every accepted or rejected change"])

p("C22", "Profiling stopwatch accounts every start, pause and stop correctly",
  "For any sequence of start, stop, pause and reset operations over named timers, the reported count, last, total, average, minimum and maximum durations of each timer are those of its completed measurements, pauses accumulate without closing a measurement, and unknown or never-started timers are reported as errors. A disabled stopwatch records nothing.",
  ["histories"],
  "all operation sequences over several timers, in both clock modes, with measurements nested or interleaved",
  NT + "no test touches the stopwatch.",
  [S + "utils/stop-watch.cpp", I + "utils/stop-watch.hpp"],
  [("per-name performance record", S + "utils/stop-watch.cpp start/pause/stop/reset")],
  ["query functions after every operation"])

p("C23", "Numerical differentiation agrees with exact derivatives and keeps structure",
  "The finite-difference wrappers of action and continuous models, states, activations, controls, costs, residuals, constraints, actuations and contacts return the value of the wrapped model (for contacts, their Jacobian and the forces they transmit too) and derivatives that agree with its exact derivatives within the error of the scheme, for running and terminal nodes. They do not change the wrapped model's results or parameters. The wrapper reports the dimensions and limits of the wrapped model.",
  ["inputs", "configurations"],
  "all wrapped models, points, disturbance sizes and running/terminal evaluations",
  NT + "numerical differentiation is used by no test that runs here except for the control parametrizations.",
  [I + "numdiff/action.hxx", I + "numdiff/diff-action.hxx", I + "numdiff/activation.hxx", I + "numdiff/state.hxx", I + "numdiff/control.hxx"],
  [("forward and central differences", I + "numdiff/*.hxx")],
  ["wrapper data against exact polynomial derivatives"])

p("C24", "Equality-constrained steps satisfy the linearized constraints",
  "When the equality-constrained solver computes a direction, a full step of the policy satisfies the linearized equality constraints of every node exactly and is optimal among the steps that do, for every supported way of handling the constraints. Nodes without equality constraints get the unconstrained policy. The merit penalty is raised only as needed and the accepted steps decrease the merit function.",
  ["inputs", "configurations"],
  "all node derivatives, full-rank constraint Jacobians, solver modes, horizons and mixes of constrained and unconstrained nodes",
  NT + "no solver is run by them.",
  [S + "solvers/intro.cpp", I + "solvers/intro.hpp"],
  [("nullspace and Schur-complement gains", S + "solvers/intro.cpp computeGains/computeValueFunction")],
  ["policy terms after the search direction is computed"])

p("C25", "Casting to single precision and back preserves structure and behaviour",
  "A model, problem or component converted to another scalar type has the same dimensions, parameters, limits, names and status as the original, and evaluates to the same values up to the precision of that type. Converting back recovers the original for values representable in both. Converting never changes the original.",
  ["inputs", "configurations"],
  "all castable built-in components, dimensions and parameters",
  NT + "test_controls converts one control parametrization; nothing else is converted.",
  [I + "macros.hpp", I + "actions/lqr.hxx", I + "costs/cost-sum.hxx", I + "constraints/constraint-manager.hxx", I + "optctrl/shooting.hxx", I + "numdiff/action.hxx"],
  [("cast methods", I + "**/*.hxx cast")],
  ["parameters and evaluation of the converted object"])

p("C26", "Squashing actuation maps controls smoothly within its bounds",
  "The smooth squashing maps every control input strictly between its bounds, increasing in the input, with the exact derivative of that map, and the squashed actuation composes it with the inner actuation for values and derivatives. Its slope stays between zero and one and it approaches clamping as the smoothing vanishes. Negative smoothing is rejected without effect.",
  ["inputs", "configurations"],
  "all inputs, bounds and smoothing values",
  NT + "actuation is not exercised by them.",
  [I + "actuation/squashing/smooth-sat.hpp", I + "actuation/actuation-squashing.hpp", I + "actuation/squashing-base.hpp"],
  [("squashing map and chain rule", I + "actuation/squashing/smooth-sat.hpp, actuation-squashing.hpp")],
  ["squashed value and derivative"])

p("C27", "Interior-point interface poses exactly the shooting problem",
  "The nonlinear program handed to the interior-point library has one variable block per node (state displacement, then control; the terminal block only a displacement), counts that match at every call, equality constraints that are zero exactly when the trajectory starts at the initial state and every gap between a node's successor and the next state is zero, bounds equal to the control limits (state displacements are free), and the total cost as objective, whatever the caller's memory held and whichever callback ran before at other points. Objective gradient and constraint Jacobian are the exact derivatives at the point they are asked for, the Hessian is the nodes' cost Hessians carried to the displacements, all scaled by the objective factor (the terminal one too); entries are reported at their declared positions. A solve that reports success returns a consistent trajectory within control limits whose cost is the reported one; a problem the library rejects returns false rather than crashing.",
  ["inputs", "configurations", "histories"],
  "all problems (mixed control dimensions, horizons, limits, Euclidean and group states), points and callback orders",
  NT + "the interior-point interface is compiled but never called by them.",
  [S + "solvers/ipopt.cpp", S + "solvers/ipopt/ipopt-iface.cpp"],
  [("variable layout, constraints, Jacobian", S + "solvers/ipopt/ipopt-iface.cpp")],
  ["the callback interface called directly", "solves with the installed library"])

p("C28", "Solver log output reports the iteration it was called for",
  "The verbose callback prints exactly the values of the iteration it is called for, at the requested level, with a header at regular intervals, and does not change the solver. Levels and precision out of range are handled as documented.",
  ["inputs", "histories"],
  "all levels, precisions, iterations and values",
  NT + "callbacks are not exercised by them.",
  [S + "utils/callbacks.cpp", I + "utils/callbacks.hpp"],
  [("row formatting", S + "utils/callbacks.cpp")],
  ["printed text"])

p("C29", "Robot actions obey their dynamics, and their derivatives are exact",
  "Forward dynamics of a robot, free or in contact, return the acceleration that solves the equations of motion for the given torques (with the armature, and with contact forces that hold the active contacts up to the damping); inverse dynamics take accelerations (and contact forces) as inputs and constrain to zero the torques of joints without actuator, the drift of active contacts and the force of inactive ones; an impact changes only the velocity, by impulses that reverse the velocity of the active contacts by the restitution coefficient (up to damping). Costs, equality and inequality constraints are those of the residuals at that point, user constraints next to the action's own, also in the terminal node, where costs of the inputs alone do not count. The derivatives of state, cost, constraints and (when enabled) forces are those of these values. Quasi-static inputs are the shortest of those that come closest to holding the robot still. All this stays true after contacts change status, parameters are set, data objects alternate and the action is converted to another scalar; unlike parts and arguments of wrong size are rejected.",
  ["inputs", "configurations", "histories"],
  "all robots, kinds of actions, actuations, stacks of contacts and impulses, costs and constraints, parameters, states and inputs, and histories of status changes, evaluations over several data objects, settings and conversions",
  "The tests of robot actions need the rigid-body library, which is absent; they use fresh actions of a few robots without restitution, and leave out armature after conversion, status changes and reused data.",
  ["include/crocoddyl/multibody/actions/free-fwddyn.hxx", "include/crocoddyl/multibody/actions/contact-fwddyn.hxx", "include/crocoddyl/multibody/actions/free-invdyn.hxx", "include/crocoddyl/multibody/actions/contact-invdyn.hxx", "include/crocoddyl/multibody/actions/impulse-fwddyn.hxx"],
  [("dynamics and derivatives", "include/crocoddyl/multibody/actions"), ("force derivatives", "include/crocoddyl/multibody/contacts/multiple-contacts.hxx")],
  ["data after evaluation"])

p("C30", "Python bindings expose the same behaviour and pickle round-trips",
  "Every exposed object behaves from Python as in C++, Python-derived models can be used by the C++ solvers, and pickled objects are restored with all their parameters.",
  ["inputs", "programs"],
  "all exposed classes, parameters and Python-derived models",
  "The binding library and Python module cannot be built here.",
  ["bindings/python"],
  [("bindings and pickling", "bindings/python/crocoddyl")],
  ["Python objects"])

p("C31", "Generated code evaluates as the model it was generated from",
  "An action model compiled by the code generator returns the same values and derivatives as the original for all inputs and all values of its run-time parameters.",
  ["inputs", "programs"],
  "all models, inputs and parameter values",
  "Code generation needs an automatic-differentiation library that is absent here.",
  [I + "codegen"],
  [("code generation", I + "codegen/action.hxx")],
  ["generated function output"])

p("C32", "Contact cones and support regions state exactly their linear model",
  "The inequality matrix and bounds of a friction cone, wrench cone or centre-of-pressure support are exactly the documented linear model of the parameters it had at its last update, in the frame of its rotation: for the friction and wrench cones, an even number of facets of the friction pyramid (inner: inside the cone of Coulomb, outer: around it) plus the limits of the normal force; for the wrench cone, additionally the four rows that keep the centre of pressure in the rectangle and the eight yaw rows; for the support the same four rows. Setters only show in the matrix after update(). Parameters that are not admissible (odd facets, negative friction or force limits, a negative box in a setter) are replaced by their documented defaults wherever they are given, and the getters report the parameters in force. Copies, assignments, conversions to another scalar and a support made from a wrench cone keep the model.",
  ["inputs", "configurations", "histories"],
  "all rotations, friction coefficients, facet counts, force limits, foot sizes and histories of edits, updates, copies and conversions (rows with an infinite box are not claimed)",
  "The cones' tests need the rigid-body library, which is absent; they check the sizes and a few forces of a freshly made cone.",
  ["include/crocoddyl/multibody/friction-cone.hxx", "include/crocoddyl/multibody/wrench-cone.hxx", "include/crocoddyl/multibody/cop-support.hxx"],
  [("friction pyramid", "include/crocoddyl/multibody/friction-cone.hxx"), ("wrench cone", "include/crocoddyl/multibody/wrench-cone.hxx"), ("support region", "include/crocoddyl/multibody/cop-support.hxx")],
  ["A, lb, ub and getters of every cone"])

p("C35", "Robot states and actuations move, differ and map torques as specified",
  "The state of a robot moves by a displacement exactly as its joints do (one-dimensional joints by addition, a free-flying base by a rigid motion in its own frame, velocities by addition), the difference of two states moves the first to the second the shorter way round, and zero is the neutral point. Both Jacobians of each map are its derivatives, in every selection of arguments, and in every mode the whole matrix is written (overwritten, added to, or subtracted from). Limits are those of the joints, with none on the position of a root joint, and stay what is set on them, conversions to another scalar included. Every actuation maps inputs to generalized torques by its documented map (full, floating base, thrusters with their frames and rotor torques), its derivative is that map, commands and torque transformation are its inverse, and after thrusters are set anew every data, old or new, uses the new ones. Arguments of wrong size are rejected.",
  ["inputs", "configurations", "histories"],
  "all robots, states, displacements, Jacobian selections and assignment modes, matrix contents before the call, limits, thruster sets and histories of edits and evaluations over several data objects",
  "The tests of the robot states need the rigid-body library, which is absent; they use one robot each, zero matrices and one set of thrusters.",
  ["include/crocoddyl/multibody/states/multibody.hxx", "include/crocoddyl/multibody/actuations/floating-base-thrusters.hpp", "include/crocoddyl/multibody/actuations/full.hpp", "include/crocoddyl/multibody/actuations/floating-base.hpp"],
  [("integrate, diff and their Jacobians", "include/crocoddyl/multibody/states/multibody.hxx"), ("torque maps", "include/crocoddyl/multibody/actuations")],
  ["return values of the state and actuation methods"])

p("C33", "Contacts and impulses prescribe and transmit exactly what their kind says",
  "A stack of named contacts (or impulses) holds exactly what was added and not removed, with the status last given, and its active and total dimensions are the sums over its contents. For each active contact its rows of the Jacobian and drift are the components of the frame's motion that its kind prescribes (1d, 2d, 3d, 6d; in the frame's, world's or aligned coordinates; with position and velocity gains about the reference), in the order of the names, inactive ones being skipped, or zero rows when all are computed; their derivatives are the derivatives of these values. A contact force acts on the robot as the transpose of the prescribed components: each contact holds its own block of the force vector, the external force on each body is the sum over its contacts, and the correction to the torque derivative accounts for the change of the contact coordinates. Force derivatives are handed to the contacts they belong to. What conversions, edits and status changes do not mention stays; arguments or data of wrong size are rejected.",
  ["inputs", "configurations", "histories"],
  "all robots, stacks of contacts and impulses of all kinds, reference frames, gains and references, states and accelerations, and histories of edits, status changes, evaluations over several data objects and conversions",
  "The tests of contacts need the rigid-body library, which is absent; they use one or two contacts on different bodies, all active, with identity placements.",
  ["include/crocoddyl/multibody/contacts/multiple-contacts.hxx", "include/crocoddyl/multibody/impulses/multiple-impulses.hxx", "include/crocoddyl/multibody/contacts", "include/crocoddyl/multibody/impulses"],
  [("stack bookkeeping and blocks", "include/crocoddyl/multibody/contacts/multiple-contacts.hxx"), ("what each kind prescribes", "include/crocoddyl/multibody/contacts")],
  ["return values and public data of the contact and impulse classes"])

p("C34", "Robot residuals are what they name, with exact derivatives, in data of any age",
  "A residual of a robot is the difference of what it names (state, centroidal momentum, center of mass, a frame's position, rotation, placement or velocity in the coordinates asked for, a contact force, torques against gravity, the velocity jump of the center of mass) from its reference, rotations and states by the shortest motion, or the components of a contact force or wrench along the faces of its cone. Its derivatives by state and inputs are those of its value, and zero for every part it declares not to depend on, so that the cost made of it has the value, gradient and Gauss-Newton Hessian of the weighted residual. Residuals of forces are zero at the end of a trajectory. References, frames and coordinates set between evaluations take effect in every data object, whichever were evaluated since and for whatever frame before; getters return what was set, conversion keeps it; bad references, frame indices and data that lack what the residual reads are rejected.",
  ["inputs", "configurations", "histories"],
  "all robots, residual kinds, frames, coordinates, references, contacts and impulses, with forces from the dynamics or from the inputs, and histories of settings and evaluations over several data objects",
  "The tests of robot residuals need the rigid-body library, which is absent; they evaluate a fresh residual in fresh data, in differences of the same class, and never change references or frames.",
  ["include/crocoddyl/multibody/residuals"],
  [("values and derivatives", "include/crocoddyl/multibody/residuals"), ("Gauss-Newton assembly", I + "residual-base.hxx")],
  ["data after evaluation", "setters and getters"])

p("C36", "Quasi-static controls hold a state",
  "The quasi-static method of a model that defines none of its own is Newton's method from the control it is given: every iteration evaluates the model and its derivatives at the current control and adds the shortest of the corrections that cancel the linearized motion (displacement, or acceleration) as well as any can, directions in which the control does nothing left alone; it ends after a correction no longer than the tolerance, which is still applied, or after the given number of iterations (none leaves the control as it is). The variant that returns the control starts from zero. Integrated models return the parameters of the control that holds their differential model, found from zero control; numerical differentiation returns that of its model. The result never depends on what the data or the control in it held before. States and controls of the wrong size are rejected with the control untouched. Models, residuals, costs and constraints that do not define an evaluation without control are evaluated at zero control.",
  ["inputs", "configurations", "histories"],
  "all models (polynomial, linear-quadratic, unicycle; alone, integrated by Euler and Runge-Kutta methods with every parametrization, or numerically differentiated), states, starting controls (non-finite ones left in data included), iteration limits, tolerances, ranks of the control derivative and histories of evaluations over several data objects",
  "The tests check that one model's quasi-static control from a fresh data gives a small motion; they never look at ranks, limits, tolerances, wrong sizes or reused data, and do not build here.",
  ["include/crocoddyl/core/action-base.hxx", "include/crocoddyl/core/diff-action-base.hxx", "include/crocoddyl/core/integrator", "include/crocoddyl/core/utils/math.hpp", "include/crocoddyl/core/residual-base.hxx"],
  [("Newton's method", I + "action-base.hxx"), ("Newton's method of differential models", I + "diff-action-base.hxx"), ("shortest correction", I + "utils/math.hpp"), ("parametrized controls", I + "integrator/rk.hxx")],
  ["control written or returned", "exceptions", "data after an evaluation without control"])

p("C37", "Gait problems are the phases of the gait",
  "The walking problem of a quadruped starts at the given state and is, in this order: standing knots, a step of the right hind foot, a step of the right front foot, standing knots, a step of the left hind foot, a step of the left front foot, its last node also being the terminal one. The right feet go half the step length in the first walk a generator makes and all of it afterwards. In a step of any set of feet over n knots the other feet are held (in world-aligned coordinates, velocities damped), each moving foot follows a reference that goes ahead linearly from where it stood to the step length and is lifted linearly up to the step height in the middle knot and lowered linearly after it, and the reference of the center of mass goes ahead by the share of the feet that move, keeping its height, starting over the middle of the feet; after the knots an impulse (with no inputs, no bounce and no duration) with the feet on the ground tracks the last reference more strongly; the step leaves the feet and the center of mass where it ends. Nodes are as long as the time step (a pseudo impulse: zero) and regularize towards the standing configuration at rest and zero control. A node without a finite reference of the center of mass or without feet to move has no such task.",
  ["inputs", "histories"],
  "all robots with four feet in every order of their frames, initial states, step lengths and heights (zero and negative ones included), time steps, numbers of knots (zero included), sets of standing and moving feet, and histories of problems from one generator",
  "No test builds a gait problem except to benchmark one fixed robot and one walk; the benchmarks only print times.",
  ["src/multibody/utils/quadruped-gaits.cpp", "include/crocoddyl/multibody/utils/quadruped-gaits.hpp"],
  [("walks, steps and nodes", "src/multibody/utils/quadruped-gaits.cpp")],
  ["nodes of the problem: contacts, impulses, costs with references and weights, durations", "costs evaluated at states"])

p("C38", "Numerical and reporting helpers return and write what they name",
  "The pseudo-inverse of every finite matrix, of any shape and rank (empty ones included), satisfies the four conditions that define it, singular values below the tolerance counting as zero. A symmetric matrix passes the definiteness check exactly when none of its eigenvalues is below the small negative threshold. A table holds, for every row ended, its fields in order with the separator between them, numbers as they are and texts in quotes with inner quotes doubled, so that it reads back as what was put in, whatever the texts contain. The version check compares versions part by part. An error carries its message unchanged, the file, and a description naming function and line. A timer tells the time since it was made or reset, in the unit asked for.",
  ["inputs", "histories"],
  "all matrices up to 4 by 4 (every rank, scale and sparsity, both precisions), texts, separators, rows, versions, messages and histories of timer operations",
  "No test that builds here calls any of these; elsewhere they are used on full-rank matrices and plain texts only.",
  ["include/crocoddyl/core/utils/math.hpp", "include/crocoddyl/core/utils/file-io.hpp", "include/crocoddyl/core/utils/version.hpp", "include/crocoddyl/core/utils/timer.hpp", "src/core/utils/exception.cpp"],
  [("cut-off and factors", I + "utils/math.hpp"), ("quoting and separators", I + "utils/file-io.hpp"), ("message and description", "src/core/utils/exception.cpp")],
  ["return values", "bytes of the written file", "what() and getters of the error"])

ids = [x["id"] for x in P]
assert len(set(ids)) == len(ids)
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
