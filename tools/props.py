import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[observe])))
A='src/solvers/admm.hpp';B='src/solvers/box_admm.hpp';QB='src/solvers/qp_base.hpp';S='src/solvers/sqp_base.hpp'
OC='src/control/continuous_ocp.hpp';NL='src/solvers/nlproblem.hpp';MP='src/control/mpc_wrapper.hpp'
p('Q01','A QP reported as solved carries a KKT certificate',
 'Whenever a QP solve reports success, the returned primal point satisfies every two-sided linear constraint and every box bound, and together with the returned multipliers satisfies stationarity of the Lagrangian, all within the configured absolute plus relative tolerances. A multiplier is positive only where the upper bound is active, negative only where the lower bound is active, and zero (to rounding) elsewhere. This holds for both splitting solvers, dense and sparse storage, equality, one-sided, two-sided, fixed and unbounded constraints, and any admissible settings.',
 ['inputs','configurations'],'every convex QP (any mix of bound classes), every admissible setting of tolerances, step sizes, relaxation, schedule of checks, both solvers, dense/sparse, single/double precision',
 'Tests compare a handful of QPs with one known minimiser; the certificate must hold at every success for any data and settings, including relaxation, unusual check intervals and early success.',
 [A,B,QB],[('termination test and residuals','src/solvers/admm.hpp residuals_update/termination_criteria'),('termination test and residuals','src/solvers/box_admm.hpp residuals_update/termination_criteria'),('projection and multiplier update','src/solvers/admm.hpp, src/solvers/box_admm.hpp solve_impl')],'solve() status, primal_solution(), dual_solution()')
p('Q02','QP iterates follow the documented splitting recursion',
 'From the given guess, each iteration of either QP solver computes the documented operator-splitting step: the regularised equality-constrained subproblem, over-relaxation with the configured factor, projection onto the bounds, and the multiplier update with the current penalty. After any number of iterations the primal and dual iterates equal those of that recursion, for every admissible regularisation, penalty and relaxation value and for warm-started as well as cold-started solves.',
 ['inputs','configurations','histories'],'all problem data, guesses, iteration counts and settings',
 'Tests only look at the final answer of default settings; a wrong relaxation, guess or multiplier update often still converges on sampled problems.',
 [A,B],[('iteration','src/solvers/admm.hpp solve_impl'),('iteration','src/solvers/box_admm.hpp solve_impl'),('KKT right-hand side','compute_kkt_rhs'),('KKT matrix','construct_kkt_matrix, update_kkt_rho')],'primal_solution(), dual_solution() after each number of iterations; matrices handed to the user-supplied linear solver')
p('Q03','Penalty weights follow the constraint class and the adaptation rule',
 'Every constraint row and every box bound is classed as equality, inequality or unbounded from its two bounds alone, and its penalty weight is respectively 1000 times the base penalty, the base penalty, or the minimum penalty. The base penalty changes only at iterations that are multiples of the adaptation interval, only when adaptation is enabled and the residual-balancing estimate (clipped to the admissible range) leaves the configured tolerance band around the current value, and every later iteration uses the new value consistently in the linear system, right-hand side and multiplier update.',
 ['inputs','configurations','histories'],'all bounds (finite, infinite, equal, nearly equal), all adaptation settings, all residual histories',
 'Adaptation depends on residual histories and interval/check interplay that sampled tests never vary; a stale factorisation or mis-classed bound still converges slowly.',
 [A,B,QB],[('classification','src/solvers/qp_base.hpp parse_constraints_bounds'),('weights','rho_vec_update'),('adaptation','estimate_rho and solve_impl'),('refactorisation','update_kkt_rho, factorise_kkt_matrix')],'matrices and right-hand sides handed to the user-supplied linear solver; info()')
p('Q04','QP status, iteration count and residuals are reported truthfully',
 'A QP solve tests convergence exactly at the iterations that are multiples of the check interval (never, when the interval is zero), stops with success at the first such iteration whose primal and dual residuals are both within tolerance, and otherwise stops with the iteration-limit status after exactly the configured number of iterations. The reported iteration count identifies the stopping iteration, and the reported primal and dual residuals are the residuals of the iterate at the last scheduled test or adaptation.',
 ['inputs','configurations'],'all problems, tolerances, iteration limits, check and adaptation intervals',
 'Tests check one status with default intervals; a check that fires early, late, or with stale residuals passes them.',
 [A,B],[('loop and status','src/solvers/admm.hpp solve_impl'),('loop and status','src/solvers/box_admm.hpp solve_impl'),('residuals','residuals_update, dual_residual_impl, primal_residual_impl')],'solve() status and info()')
p('Q05','A reused QP solver behaves like a fresh one',
 'Solving a QP on a solver instance that has already solved any sequence of other QPs (converged or not, with different data, bounds, guesses or settings) gives the same status, iteration count, primal and dual solution as solving it on a new instance with the same settings. With the sparsity-reuse option enabled and an unchanged sparsity pattern the same holds.',
 ['histories','inputs','configurations'],'all sequences of solves on one instance, any data, settings changes between solves, reuse of the sparsity pattern on or off',
 'Tests solve at most twice with identical data; stale state only shows for specific histories.',
 [A,B],[('setup','solve_impl'),('same-pattern update','construct_kkt_matrix_same_pattern, construct_A'),('penalty state','rho_vec_update, update_kkt_rho')],'status, info(), primal_solution(), dual_solution() of each solve in a history')
p('Q06','QP results do not depend on storage, triangle or solver variant',
 'For the same QP and settings, dense and sparse storage, half- and full-triangle linear systems, and single and double precision give the same iterates up to rounding, and the assembled linear system is the same matrix. Structural zeros, missing diagonal entries and unsorted insertion order in sparse input do not change the result.',
 ['inputs','configurations'],'all QPs and all storage variants, including sparse matrices with missing diagonal entries and explicit zeros',
 'Tests use one or two fully populated sparse matrices.',
 [A,B],[('sparse assembly','construct_kkt_matrix_sparse, block_insert_sparse, construct_A'),('dense assembly','construct_kkt_matrix')],'matrices handed to the user-supplied linear solver; final iterates')
p('Q07','Equilibration preserves the problem and its solution',
 'Scaling a QP with any of the preconditioners and unscaling it again restores all matrices, vectors and bounds up to rounding (infinite bounds stay infinite), for dense and sparse data. The scaled problem is the original problem under a positive diagonal change of variables, constraints and cost, so that unscaling its primal and dual solution gives a solution of the original problem.',
 ['inputs','histories'],'all finite QP data including zero gradient, empty rows or columns, infinite bounds; repeated compute/unscale on one instance',
 'Tests check one matrix once and only the norm of the scaled columns.',
 ['src/solvers/qp_preconditioners.hpp'],[('Ruiz scaling','RuizEquilibration::compute / scale'),('unscaling','RuizEquilibration::unscale')],'arguments after compute() and unscale()')
p('S01','NLP solver status, step norms and violation are truthful',
 'The NLP solver reports success exactly when, after some iteration, the last primal step norm, the last dual step norm and the largest violation of equalities, inequality bounds and variable bounds at the returned point are all within their tolerances; otherwise it reports the iteration-limit status after exactly the configured number of iterations. The reported iteration count, accumulated inner iteration count, step norms, constraint violation and cost are those of the returned point; the iteration callback sees the iterate and norms of its iteration.',
 ['inputs','configurations','histories'],'all problems, guesses, bounds, tolerances and iteration limits, dense and sparse',
 'Tests check convergence on a few well-behaved problems; truthfulness matters for failing, infeasible and truncated runs.',
 [S],[('termination','SQPBase::termination_criteria_impl'),('violation','SQPBase::max_constraints_violation_impl'),('loop','SQPBase::solve')],'info(), primal_norm(), dual_norm(), constr_violation(), primal_solution()')
p('S02','Each NLP iteration poses the correct quadratic subproblem',
 'At every iteration the quadratic subproblem handed to the inner solver has the current cost gradient, the current constraint Jacobian, bounds equal to the constraint and variable bounds minus the current values, and a symmetric Hessian that is the exact Lagrangian Hessian at the first iterate (given the current multipliers) and the damped quasi-Newton update of the previous one afterwards. This is independent of storage format and of the preconditioner once scaling is undone.',
 ['inputs','configurations','histories'],'all problems, iterates, multipliers and bounds; dense and sparse; with and without preconditioning',
 'Wrong signs or offsets in subproblem bounds or stale gradients often still converge on the sampled problems.',
 [S,NL],[('linearisation','linearisation_dense_impl / linearisation_sparse_impl / update_linearisation_*'),('bounds','SQPBase::solve')],'arguments received by the user-supplied QP solver and preconditioner')
p('S03','NLP steps satisfy the merit-function decrease test and consistent updates',
 'The accepted step length is the first of 1, tau, tau^2, ... for which the l1 merit function (cost plus the infinity norm of the subproblem multipliers times total constraint violation) meets the sufficient-decrease test, or the last one produced when the configured number of trials is exhausted. The primal iterate moves by that length along the subproblem solution and the multipliers move by the same length towards the subproblem multipliers.',
 ['inputs','configurations','histories'],'all subproblem answers, merit values and line-search settings',
 'Backtracking and exhaustion are rarely entered by the test problems, and wrong merit terms usually still converge.',
 [S],[('line search','SQPBase::step_size_selection_impl'),('violation','SQPBase::constraints_violation_impl'),('update','SQPBase::solve')],'iterates, iteration callback, user-supplied QP solver')
p('S04','Quasi-Newton updates keep symmetry, curvature and definiteness',
 'The damped quasi-Newton update of a symmetric positive definite matrix is symmetric positive definite for every step and gradient change, satisfies the secant equation whenever the curvature along the step is at least one fifth of the current one, and otherwise satisfies it for the damped gradient change; where the curvature along the step is below machine precision (a null step, a zero matrix) the matrix is left unchanged, and no update ever produces a value that is not a number. The symmetric rank-one update satisfies the secant equation, or leaves the matrix unchanged when its denominator is negligible (at most 1e-6 times the norms of step and residual).',
 ['inputs','histories'],'all symmetric matrices, steps and gradient changes, sequences of updates',
 'Tests use two fixed 2x2 sequences.',
 ['src/solvers/bfgs.hpp','src/solvers/sr1.hpp'],[('BFGS','BFGS_update'),('SR1','SR1_update')],'updated matrix')
p('S05','The line-search filter accepts exactly the non-dominated trial points',
 'A trial point is rejected exactly when some stored pair is at least as good in both objective and violation, up to the configured margin. The stored pairs never exceed the capacity (of at least one), never contain a pair dominated by a newer one, and after any sequence of insertions the filter contains the most recent insertion; when it is full and the new pair dominates none, the oldest pair makes room.',
 ['histories','inputs'],'all sequences of insertions and queries, including sequences longer than the capacity',
 'No test exercises the filter at all.',
 ['src/solvers/line_search.hpp'],[('filter','LSFilter')],'is_acceptable(), add() results over a history')
p('S06','Repeated NLP solves depend only on problem, guess, bounds and settings',
 'Solving on an NLP solver instance that has solved before gives the same iterates, status and iteration counts as a fresh instance started from the same guess, multipliers, bounds, parameters and settings, for dense and sparse problems. Changed bounds, parameters and guesses take effect in the next solve.',
 ['histories','configurations'],'all histories of solves with changes of guess, bounds, parameters and settings in between',
 'Tests solve each instance once or compare final values loosely; stale Hessian, multiplier or pattern state needs a particular history.',
 [S,MP],[('initialisation','SQPBase::solve'),('pattern reuse','SQPBase::solve reuse_pattern'),('setters','lower_bound_x, upper_bound_x, parameters')],'iterates and info() of each solve')
p('D01','NLP derivatives are exact',
 'For any twice differentiable NLP, the cost gradient and Hessian, the constraint values and Jacobian, and the gradient and Hessian of the Lagrangian produced by automatic differentiation equal the analytic ones to rounding at every point, multiplier and parameter (the derivative overloads return the cost as the value; an optional cost scale multiplies the cost part of the Hessian only), with the same results from every overload (values only, first order, second order), for dense and sparse problems, and on first as well as repeated evaluation, whatever the outputs contained before.',
 ['inputs','programs','histories'],'all problems (with and without equalities, inequalities, parameters), points, multipliers, call sequences',
 'Tests check convergence of a few NLPs, not the derivatives; overloads not used by them are untested.',
 [NL],[('derivatives','ProblemBase cost_gradient, cost_gradient_hessian, constraints_linearised, lagrangian_gradient, lagrangian_gradient_hessian')],'outputs of the evaluation functions')
p('O01','Collocation equalities are the dynamics on the stated time grid',
 'For every trajectory, the equality residuals of a transcribed optimal control problem equal, at each collocation node of each segment, the derivative of the interpolating polynomial minus half the segment length times the dynamics evaluated at the state, control, parameters and physical time of that node. The time grid starts at the initial time, ends at the final time, splits the horizon into equal segments and follows every change of the time limits; inequality constraints are evaluated node by node with the same arguments.',
 ['inputs','configurations','histories'],'all dynamics, dimensions, orders, segment counts, time limits, trajectories',
 'Tests only compare converged trajectories of a few problems on [0, 2] grids; time-varying dynamics, parameters and unequal dimensions are not sampled.',
 [OC],[('equalities','ContinuousOCP::equalities_impl'),('inequalities','ContinuousOCP::inequalities_impl'),('time grid','ContinuousOCP::set_time_limits, compute_time_nodes')],'equalities(), inequalities(), time_nodes')
p('O02','The transcribed cost is quadrature of the running cost plus terminal cost',
 'For every trajectory the transcribed cost equals the terminal cost at the final node plus, over all segments, half the segment length times the quadrature-weighted running cost at every node, evaluated at the physical time, control and parameters of that node. It is exact for running costs that are polynomials of degree up to the approximation order in time.',
 ['inputs','configurations','histories'],'all costs, dimensions, orders, segment counts, time limits, trajectories',
 'Tests never compare the cost value with an independent integral.',
 [OC],[('cost','ContinuousOCP::cost_impl and cost in cost_gradient variants')],'cost()')
p('O03','OCP first derivatives are exact',
 'For every trajectory and multiplier, the cost gradient, the Jacobian of the equality and inequality constraints and the gradient of the Lagrangian of a transcribed optimal control problem equal the analytic derivatives of its cost and constraints with respect to all states, controls and free parameters, in every overload, dense and sparse.',
 ['inputs','programs','configurations'],'all problems and dimensions (with and without parameters, path constraints), orders, segments, points and multipliers',
 'Tests check solutions of a few problems without free parameters in most places; a wrong parameter block or junction node goes unnoticed.',
 [OC],[('Jacobian','equalities_linearised, inequalities_linearised, constraints_linearised (dense and sparse)'),('gradient','cost_gradient, lagrangian_gradient')],'outputs of the evaluation functions')
p('O04','OCP second derivatives are exact and symmetric',
 'For every trajectory and multiplier, the Hessian of the cost and of the Lagrangian of a transcribed optimal control problem equal the analytic second derivatives with respect to all states, controls and free parameters, including running cost, terminal cost, dynamics and path constraint contributions, and are symmetric, dense and sparse.',
 ['inputs','programs','configurations'],'all problems and dimensions, orders, segments, points and multipliers',
 'Second derivatives only influence convergence speed, so wrong blocks survive convergence tests.',
 [OC],[('Hessian','cost_gradient_hessian, lagrangian_gradient_hessian (dense and sparse)')],'outputs of the evaluation functions')
p('O05','OCP evaluations are independent of storage and call history',
 'Dense and sparse transcriptions of the same optimal control problem give the same values and derivatives, and evaluating into an already filled sparse matrix (at a new point, after any earlier evaluations, parameter or time-limit changes) gives the same result as evaluating into an empty one.',
 ['histories','inputs','configurations'],'all sequences of evaluations at varying points into reused matrices',
 'The one dense/sparse test compares one problem at one point on the first call.',
 [OC],[('insert vs update','sparse linearisation and Hessian insert/update paths')],'outputs of the evaluation functions along a call history')
p('O06','The sparse quasi-Newton update keeps to the block pattern',
 'The sparse quasi-Newton update of an optimal control Hessian adds exactly the rank-two update of the damped BFGS formula (v = H s, damped towards v when s.y < 0.2 s.v) to every entry of the block pattern (per-node state/control blocks and the rows and columns of the free parameters) and leaves every other entry untouched (a step too small to define the update leaves the whole matrix unchanged), so the matrix stays symmetric with an unchanged pattern; without free parameters every node block that was positive definite stays positive definite when the update direction is confined to that node.',
 ['inputs','histories'],'all block-structured Hessians, steps and gradient changes, sequences of updates',
 'Only exercised through convergence of one problem.',
 [OC],[('block update','ContinuousOCP::hessian_update_impl')],'updated matrix')
p('M01','MPC setters change exactly the documented part of the problem',
 'Every bound, guess, time-limit and parameter setter of the MPC interface changes exactly the entries of the decision vector, bounds or parameters that its documentation names (initial state, state trajectory, final state, control trajectory, parameters, path constraints) and no other, whatever was set before. The effective problem after any sequence of setter calls is the one in which the last call touching each entry wins.',
 ['histories','configurations'],'all sequences of setter calls, all dimensions with state, control and parameter counts differing',
 'Tests call setters in one fixed order; an overlap or off-by-one needs particular orders and dimensions.',
 [MP],[('setters','MPC::initial_conditions, x_lower_bound, x_final_lower_bound, control_bounds, parameters_bounds, constraints_bounds, x_guess, u_guess, ...')],'solver bounds, guess and parameters after each call')
p('M02','MPC trajectory accessors agree with the solved trajectory',
 'The node accessors, reshaped matrices, parameter and dual accessors return the corresponding parts of the solution vector in increasing time order, and the time accessors evaluate the piecewise interpolating polynomial of the stored trajectory at the requested physical time: they reproduce the node values at the node times, the initial state at the initial time and the final state at the final time for any horizon.',
 ['inputs','configurations'],'all trajectories, horizons (including non-zero start), orders, segment counts, query times in the horizon including both ends and segment junctions',
 'Tests print a few values at times inside [0, 2] only.',
 [MP],[('accessors','MPC::solution_x_at, solution_u_at, solution_x_reshaped'),('interpolation','Spline::eval')],'accessor results')
p('M03','A solved MPC problem yields an admissible trajectory',
 'When the MPC interface reports success, the returned trajectory starts at the prescribed initial condition, respects all state, control, final-state, parameter and path-constraint bounds and satisfies the collocated dynamics, all within the solver tolerance, for closed-loop sequences of solves with changing initial conditions.',
 ['histories','inputs'],'all sequences of initial conditions, bounds, parameters and horizons in closed loop',
 'Tests run one or two fixed closed loops.',
 [MP,S,OC],[('solve','MPC::solve'),('termination','SQPBase::termination_criteria_impl')],'accessors after each solve of a closed loop')
p('P01','Pseudospectral nodes, differentiation and quadrature are exact',
 'For every order (Chebyshev from 1, Legendre from 2) and scalar type, the collocation nodes of the polynomial bases are the Gauss-Lobatto points of [-1, 1] including both end points (Chebyshev descending, Legendre ascending); the differentiation matrix applied to node values of any polynomial up to that order gives its derivative at the nodes; integrate() over any interval is exact for every polynomial up to that order (2N-1 for Legendre) and otherwise equals the quadrature rule; and interpolating node values through the Lagrange basis of the grid reproduces the polynomial at every argument. All up to rounding.',
 ['inputs','configurations'],'all orders, segments, polynomials up to the exactness degree',
 'Tests print values for one order.',
 ['src/polynomials/ebyshev.hpp','src/polynomials/legendre.hpp','src/polynomials/splines.hpp'],[('nodes, weights, D','Chebyshev::compute_*'),('Legendre','Legendre::compute_*'),('composite','Spline')],'nodes(), weights, diff matrix, eval()')
p('P02','Projection and polynomial arithmetic are exact',
 'Polynomial helper routines (product truncated to the common length, derivative, coefficients and values of the orthogonal bases at every argument) implement polynomial arithmetic up to rounding. Projecting a function on any interval onto an orthogonal basis gives the expansion that agrees with it at the mapped nodes, so that a polynomial of degree up to the approximation order is recovered exactly, at every evaluation point including both interval ends, and a projection object can be reused.',
 ['inputs','configurations'],'all coefficient vectors and orders',
 'Tests print results for a single example.',
 ['src/polynomials/polynomial_math.hpp','src/polynomials/projection.hpp','src/polynomials/ebyshev.hpp','src/polynomials/legendre.hpp'],[('arithmetic','poly_mul, poly_diff, eval, compute_basis'),('projection','Projection')],'returned coefficients and values')
p('P03','Cubic splines evaluate the right segment and stay inside their data',
 'The equidistant cubic spline returns, for every query point, the value of the cubic stored for the segment containing it (the first segment below the spline, the last one at and beyond its end), reading no other coefficient; its first and second derivatives obtained by automatic differentiation are the exact derivatives of that cubic; and assigned coefficients or segment lengths take effect on the next query.',
 ['inputs'],'all coefficient tables, segment lengths, query points and assignment histories',
 'The test program evaluates a few interior points and is not checked.',
 ['src/polynomials/splines.hpp'],[('spline','EquidistantCubicSpline')],'eval() in plain and AD scalars')
p('C01','Stand-alone collocation functors agree with their definition',
 'The stand-alone dynamics, cost and constraint collocation functors return, for every trajectory, order, segment count and time interval, the collocated residual, quadrature cost and node-wise function values, and for dynamics and cost the exact derivatives with respect to states and controls (parameters held constant: their columns are zero), and the sparse variant equals the dense one on first and repeated calls.',
 ['inputs','configurations','histories'],'all trajectories, dimensions, orders, segments, intervals, call sequences',
 'The test program prints one example.',
 ['src/control/ode_collocation.hpp','src/control/sparse_ode_collocation.hpp','src/control/cost_collocation.hpp','src/control/constraints_collocation.hpp'],[('dynamics','ode_collocation, sparse_ode_collocation'),('cost','cost_collocation'),('constraints','constraint_collocation')],'functor outputs')
p('L01','LQR gains solve the Riccati equation',
 'For every stabilisable system and admissible weights (input weight positive definite, state weight positive semidefinite after eliminating the cross weight, no undamped mode left unweighted) the regulator routine returns a symmetric positive semidefinite solution of the algebraic Riccati equation with cross weights and the gain belonging to it, and the closed loop with that gain is asymptotically stable. With checking enabled, inadmissible weights are rejected and give empty outputs, and admissible ones are never rejected. The initial-guess and Newton routines it is made of return, respectively, a stabilising matrix and, from a stabilising start, the stabilising solution.',
 ['inputs'],'all stabilisable systems (stable, unstable, oscillating, with uncontrollable stable modes, any number of inputs) and admissible or inadmissible weights, with and without cross weights',
 'The test program runs one system and checks nothing.',
 ['src/control/lqr.hpp'],[('Riccati','care, newton_ls_care, init_newton_care'),('regulator','lqr')],'returned matrices')
p('L02','Lyapunov, pseudo-inverse and line-search kernels meet their equations',
 'The Lyapunov routine returns the solution of A X + X A^T = Q whenever no two eigenvalues of A add up to zero (real or complex eigenvalues, symmetric or general Q). The pseudo-inverse satisfies the four Moore-Penrose conditions for matrices of every shape, rank and scale. The Newton line search returns a step length in (0, 2] that minimises the squared residual along the step.',
 ['inputs'],'all matrices (square, wide, tall, rank deficient, zero, any scale), all right-hand sides, all residual polynomials with b^2 <= a c',
 'The test program runs one system and checks nothing.',
 ['src/control/lqr.hpp'],[('Lyapunov','lyapunov'),('pseudo-inverse','pinv'),('line search','line_search_care')],'returned matrices and step length')
p('N01','The Ipopt adapter presents the problem the user wrote',
 'Whatever sequence of bounds, parameters, guesses, horizon changes and solves was made on an Ipopt adapter, every callback answers for the problem now in force and the point it is asked about: dimensions, variable and constraint bounds (equalities first, fixed at zero), starting point and multipliers, cost, its gradient, constraint values, Jacobian and Hessian of the Lagrangian (cost scaled by the given factor, multipliers as given) at the announced sparsity structure, in any order of callbacks and for dense and sparse problems, reading and writing no further than the arrays it is given. When the solver delivers a solution, the adapter returns exactly that point and those multipliers (constraint multipliers, then upper minus lower bound multipliers), the status and statistics of the run, and starts the next run from it. The problem behind the adapter is accessible.',
 ['inputs','configurations','histories'],'all problems (general nonlinear programs and transcribed optimal control), dense and sparse, all histories of setters and runs, all orders of callbacks, points and multipliers',
 'The tests of the adapter are not built unless Ipopt is installed, and solve one problem each.',
 ['src/solvers/ipopt_interface.hpp'],[('callbacks','IpoptAdapter::eval_f, eval_grad_f, eval_g, eval_jac_g, eval_h, get_bounds_info, get_starting_point'),('result','finalize_solution, IpoptInterface::solve')],'answers of the callbacks, primal_solution(), dual_solution(), info()')
p('N02','The OSQP and qpmad adapters solve the stated quadratic program',
 'In any sequence of cold and warm solves (the first one cold), with or without the option that the sparsity pattern is unchanged, with or without a guess, the program an external QP solver works on when asked to solve is the one given in that call: Hessian, gradient, general constraints and box constraints in the documented order, whatever storage the matrices come in, with the guess given in that call. The settings in force at a cold solve reach the solver. Afterwards the adapter returns the point and multipliers of the solver (OSQP: general rows, then boxes) and translates its status, iteration count and residuals.',
 ['inputs','configurations','histories'],'all quadratic programs, dense and sparse (compressed or not), all histories of cold and warm solves and settings, all statuses the solver can return',
 'The tests of the adapters are not built unless the libraries are installed, and solve one problem at a time.',
 ['src/solvers/osqp_interface.hpp','src/solvers/qpmad_interface.hpp'],[('OSQP','OSQP::solve_impl, info update'),('qpmad','QPMAD::solve_impl')],'data held by the external solver at each solve; status, info(), primal_solution(), dual_solution()')
p('A01','Automatic differentiation scalars follow the rules of calculus',
 'For every expression built from automatic differentiation scalars and plain numbers in any order (arithmetic, compound assignment also of expressions and of an object to itself, minimum, maximum, absolute value, square, square root, trigonometric and hyperbolic functions and their inverses as provided, exponential, logarithm, powers with constant exponent, floor), and for vectors of such scalars combined by linear algebra with plain vectors and matrices, the value is that of the expression, the derivatives are its exact partial derivatives, and, with nested scalars, the second derivatives are its exact Hessian, wherever the expression is differentiable. Operands are not changed. Comparisons depend on values only. The gaussian kernel returns exp(-|x-y|^2) of its arguments with these derivatives.',
 ['inputs','configurations'],'all expressions, points and numbers of derivatives; fixed-size, dynamic, single precision and nested scalars',
 'The tests differentiate a few fixed expressions of the collocation examples.',
 ['src/autodiff/AutoDiffScalar.h','src/autodiff/rbf_kernel.hpp'],[('operators and functions','AutoDiffScalar'),('kernel','rbf_kernel')],'value() and derivatives()')
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
try:
    for x in P: jsonschema.validate(x,s)
    print('valid')
except Exception as e: print(str(e)[:600])
