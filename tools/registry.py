"""The properties: their text (properties.jsonl), how each is checked (MANIFEST.json) and what the encoding covers.
tools/gen.py writes properties.jsonl and MANIFEST.json from this file."""

DDP = "nmpc_ddp/include/nmpc_ddp/"
FMPC = "nmpc_fmpc/include/nmpc_fmpc/"
CG = "nmpc_cgmres/include/nmpc_cgmres/"
DDP_FILES = [DDP + "DDPSolver.h", DDP + "DDPSolver.hpp", DDP + "DDPProblem.h"]
TECH = "symbolic execution of the real source (scalar retyped to symbolic reals) + SMT (z3/cvc5), counterexamples replayed natively"
PROB_DDP = ("problem callbacks (state equation, costs) are uninterpreted functions of (t, x, u), i.e. every problem; derivatives are "
            "uninterpreted functions too (horizon 1), or uninterpreted gradients with numeric matrices, or numbers per step")
OUT = ("IEEE rounding, overflow and signed zero; dimensions, horizons and iteration counts beyond the bounds; "
       "derivative matrices other than the sampled ones in the cases that fix them")
PROPS = {}


def P(id, **k):
    k.setdefault("harness", id)
    k.setdefault("budget", 60)
    k.setdefault("outside", OUT)
    k.setdefault("over", ["inputs", "configurations"])
    k.setdefault("state", [])
    k.setdefault("assumptions", [])
    PROPS[id] = k


DDP_FUN = ["DDPSolver::DDPSolver", "DDPSolver::solve", "DDPSolver::procOnce", "DDPSolver::backwardPass", "DDPSolver::forwardPass",
           "DDPSolver::increaseLambda", "DDPSolver::decreaseLambda", "DDPSolver::setInputLimitsFunc", "BoxQP::solve (input-limit cases)",
           "Eigen::LLT, triangular solves, products (instantiated with the symbolic scalar)"]

P("C01", title="DDP result is a rollout of its own inputs",
  statement="After every DDP solve, converged or not, the state sequence starts at the given current state and every next state is the "
            "problem's state equation applied at that step's time to that step's state and input; each cost entry is the running cost of its "
            "step and the last one the terminal cost of the last state at the final time. The sequences have exactly horizon, horizon and "
            "horizon+1 entries with the input dimension of their step. If no step was adopted, the returned inputs are the given initial ones.",
  qtext="every state equation and cost, initial state, time, sampling period, initial inputs, input limits, dimensions per step, solve history",
  tests="Tests solve a handful of fixed problems and look at the final state only; they never compare the returned trajectory with the model, "
        "never vary the dimension pattern and never look at results of unconverged or repeated solves.",
  files=DDP_FILES, mech=[("rollout of the initial inputs", "DDPSolver.hpp solve()"), ("candidate rollout", "DDPSolver.hpp forwardPass()"),
                         ("adoption of the candidate", "DDPSolver.hpp procOnce()")],
  observe=["DDPSolver::controlData()"], functions=DDP_FUN,
  bounds="horizon 1..6 (10 thorough), state dim 1..2, input dim 0..2 (fixed and per-step dynamic), 0..3 iterations, 1..3 step sizes, two "
         "consecutive solves with different horizon/start time; " + PROB_DDP)

P("C02", title="DDP never adopts a worse trajectory",
  statement="The total cost of a DDP result is never larger than the total cost of the initial inputs, and the cost reported in the trace "
            "never increases from one iteration to the next. A candidate is adopted only if its actual cost decrease is at least the "
            "configured fraction of the predicted decrease.",
  qtext="every state equation, cost, initial state and input, step-size list, acceptance threshold, regularisation, input limits",
  tests="Tests check convergence of well-behaved problems to a target; a wrongly accepted step on other problems or thresholds goes unseen.",
  files=DDP_FILES, mech=[("acceptance test", "DDPSolver.hpp procOnce()"), ("predicted decrease", "DDPSolver.hpp backwardPass()")],
  observe=["DDPSolver::controlData().cost_list", "DDPSolver::traceDataList()"], functions=DDP_FUN,
  bounds="horizon 1..4 (8 with resetting dynamics), state dim 1..2, input dim 0..2, 1..3 iterations, up to 4 step sizes, symbolic acceptance "
         "threshold, with and without input limits; " + PROB_DDP)

P("C03", title="A DDP iteration applies the iLQR update law",
  statement="Each DDP iteration produces exactly the trajectory of the documented algorithm: value function propagated backward through the "
            "Riccati recursion with the current regularisation, gains from the regularised input Hessian (box-constrained when limits are "
            "active), line search over the configured step sizes in order, rollout with feedback. A backward pass that meets an indefinite "
            "Hessian is repeated with larger regularisation and otherwise leaves the trajectory unchanged.",
  qtext="every problem, initial state/input, regularisation type and value, step sizes, dimension pattern, solve history within the bounds",
  tests="Tests accept any iterates that reach the goal on a few benign systems; a wrong term in the recursion that merely slows or biases "
        "convergence passes them.",
  files=DDP_FILES + [DDP + "BoxQP.h"], mech=[("Riccati recursion", "DDPSolver.hpp backwardPass()"), ("line search", "DDPSolver.hpp procOnce()"),
                                             ("feedback rollout", "DDPSolver.hpp forwardPass()")],
  observe=["DDPSolver::controlData()"], functions=DDP_FUN, budget=90,
  bounds="horizon 1..6 (12 with resetting dynamics), state dim 1..3, input dim 0..2 (fixed and per-step dynamic), 1..3 iterations, 1..2 step "
         "sizes (all 11 thorough), regularisation types 0..2, symbolic initial regularisation for horizon 1; reference: independent "
         "implementation of the algorithm in harness/ddp_ref.hpp; " + PROB_DDP)

P("C04", title="DDP status, regularisation and trace tell the truth",
  statement="The DDP solve returns true exactly when a termination threshold was met within the allowed iterations; the trace has one entry "
            "per iteration plus the initial one, and its cost, regularisation, step size, expected/actual decrease and ratio are those of the "
            "iterate it describes. The regularisation follows the documented geometric schedule with its lower cut-off and upper limit.",
  qtext="every problem, initial state/input, thresholds, regularisation parameters, early termination point, solve history",
  tests="Tests read only the last trace entry of converging runs; early-failure and early-termination entries are never inspected.",
  files=DDP_FILES, mech=[("iteration loop", "DDPSolver.hpp solve()"), ("schedule", "DDPSolver.hpp increaseLambda()/decreaseLambda()"),
                         ("trace", "DDPSolver.hpp procOnce()")],
  observe=["return value of DDPSolver::solve", "DDPSolver::traceDataList()"], functions=DDP_FUN, budget=90,
  bounds="as C03: horizon 1..6 (12), state dim 1..3, input dim 0..2, 1..3 iterations; " + PROB_DDP)

P("C05", title="DDP results respect the input limits",
  statement="With input limits enabled, every input of the result lies within the limits given for its own time step whenever the initial "
            "inputs did, and whenever at least one step was adopted.",
  qtext="every problem, initial state, limits per step and component, line-search step size, feedback correction, solve history",
  tests="One test runs one constrained problem; violations by feedback or by partial steps depend on data it does not produce.",
  files=DDP_FILES + [DDP + "BoxQP.h"], mech=[("clamping in the rollout", "DDPSolver.hpp forwardPass()"), ("box-constrained gains", "BoxQP.h")],
  observe=["DDPSolver::controlData().u_list"], functions=DDP_FUN,
  bounds="horizon 1..5, state dim 1..2, input dim 0..2, 1..2 iterations and step sizes, constant limits varying per step/component, symbolic "
         "limits for horizon 1; " + PROB_DDP)

P("C06", title="DDP rejects wrongly sized initial inputs",
  statement="A DDP solve whose initial input list does not have the horizon's length, or has an entry whose dimension differs from the "
            "problem's input dimension at that step, throws and leaves the previously returned control data untouched; every correctly sized "
            "list is accepted. Requesting the unsupported second-derivative mode throws.",
  over=["inputs", "histories"], qtext="every list length and per-step dimension within the bounds, before and after an earlier solve",
  tests="No test passes a wrongly sized list.",
  files=DDP_FILES, mech=[("size checks", "DDPSolver.hpp solve()")], observe=["exceptions of DDPSolver::solve", "DDPSolver::controlData()"],
  functions=DDP_FUN, bounds="list lengths 0..4, new horizon 0..3, dimensions 0..2 per entry, first solve done or not; " + PROB_DDP)

QP_FUN = ["BoxQP::BoxQP", "BoxQP::solve", "Eigen::LLT and products (instantiated with the symbolic scalar)"]
QP_B = ("dimension 1..2 (fixed), 2..4 (dynamic); 1..4 iterations, line search of up to 3 halvings; symbolic Hessian/gradient/bounds/start for "
        "dimension 1, numeric Hessian with symbolic gradient, bounds or start otherwise; two consecutive solves with one object")
P("C08", title="Box-QP solutions satisfy their bounds",
  statement="Whatever the Hessian, gradient, bounds (lower <= upper) and initial guess, and whatever the reported termination reason, the "
            "solution returned by the box-constrained QP solver has the problem's dimension and lies between the bounds. A non-positive or "
            "mismatching dimension is rejected on construction.",
  qtext="every Hessian (also indefinite), gradient, bounds, initial guess, tolerances, termination reason",
  tests="Tests solve fixed and random convex problems that converge; failure exits and degenerate bounds are not reached.",
  files=[DDP + "BoxQP.h"], mech=[("projection of start and candidates", "BoxQP.h solve()")], observe=["return value of BoxQP::solve"],
  functions=QP_FUN, bounds=QP_B)
P("C09", title="Box-QP return code, KKT conditions and objective",
  statement="A box-QP result reported as converged by its gradient criterion satisfies the KKT conditions to the gradient tolerance, and one "
            "reported as fully clamped has every variable on a bound with the gradient pointing outward. The objective never exceeds that of "
            "the initial guess (positive definite Hessian), failure is reported exactly when the Hessian block is not positive definite, and "
            "the iteration limit is respected and reported. The trace lists the iterates with their objective values; each is the previous "
            "one moved along its search direction by the recorded number of step reductions and clamped to the bounds, with at least the "
            "configured (Armijo) fraction of the linear improvement.",
  qtext="every positive definite or indefinite Hessian, gradient, bounds, initial guess, tolerances, iteration limit",
  tests="Tests compare a few convex solutions with a reference; the meaning of the other return codes is never checked.",
  files=[DDP + "BoxQP.h"], mech=[("termination tests", "BoxQP.h solve()"), ("Armijo line search", "BoxQP.h solve()")],
  observe=["return value of BoxQP::solve", "retval_", "traceDataList()"], functions=QP_FUN, bounds=QP_B)
P("C10", title="Box-QP free set and factor describe the solution",
  statement="After a converged box-QP solve the published free-variable set is exactly the set of variables not held at a bound by the "
            "gradient, in increasing order, and the published factor is the Cholesky factor of the Hessian block of that set.",
  qtext="every Hessian, gradient, bounds, initial guess, solve history",
  tests="The DDP solver relies on both to build feedback gains; tests never look at them.",
  files=[DDP + "BoxQP.h"], mech=[("clamped/free classification", "BoxQP.h solve()"), ("factor reuse", "BoxQP.h solve()")],
  observe=["free_idxs_", "llt_free_"], functions=QP_FUN, bounds=QP_B)

FMPC_FILES = [FMPC + "FmpcSolver.h", FMPC + "FmpcSolver.hpp", FMPC + "FmpcProblem.h", FMPC + "MathUtils.h"]
FMPC_FUN = ["FmpcSolver::FmpcSolver", "FmpcSolver::solve", "FmpcSolver::checkVariable", "FmpcSolver::procOnce", "FmpcSolver::calcKktError",
            "FmpcSolver::backwardPass", "FmpcSolver::forwardPass", "FmpcSolver::updateVariables", "FmpcSolver::setupMeritFunc",
            "FmpcSolver::Variable/Coefficient (constructors, reset, containsNaN)", "l1NormDirectionalDeriv",
            "Eigen::LDLT/LLT, products (instantiated with the symbolic scalar)"]
PROB_F = ("problem callbacks (state equation, inequality constraints, costs) are uninterpreted functions of (t, x, u), i.e. every problem, or affine "
          "with uninterpreted offsets (multi-iteration cases); derivatives are numbers per step, or uninterpreted functions in some cases")

P("C11", title="An FMPC iteration is the Newton step on the KKT system",
  statement="One FMPC iteration moves all variables (states, inputs, costates, slacks, multipliers) along the exact Newton direction of the "
            "barrier-perturbed KKT conditions of the discretised problem, whatever the sizes per step; states, inputs and slacks move by one "
            "common step length, costates and multipliers by another, each the largest fraction (at most 1) that keeps the configured margin to "
            "the boundary. Repeated solves with different horizons behave like first ones.",
  qtext="every problem with positive definite condensed Hessian, every iterate, time, sampling period, dimension pattern, solve history",
  tests="Tests accept any iterates that converge on two benign problems with constant dimensions; a wrong term that only slows convergence passes.",
  files=FMPC_FILES, mech=[("coefficients and Riccati-type recursion", "FmpcSolver.hpp backwardPass()"), ("direction", "FmpcSolver.hpp forwardPass()"),
                          ("step lengths", "FmpcSolver.hpp updateVariables()")],
  observe=["FmpcSolver::variable()"], functions=FMPC_FUN,
  bounds="horizon 1..3, state dim 1..2, input dim 0..2 and constraint dim 0..2 (fixed and per-step dynamic), 1 iteration, two consecutive "
         "solves; symbolic states/inputs/costates, symbolic slacks/multipliers for horizon 1; reference: condensing (no Riccati recursion) in "
         "harness/fmpc.hpp; " + PROB_F)
P("C12", title="FMPC slacks and multipliers stay positive",
  statement="If the initial slack variables and inequality multipliers are positive, they are positive in every FMPC result, after any number of "
            "iterations, with or without line search and barrier update, and whatever status is returned.",
  qtext="every problem, iterate, constraint pattern, configuration flag combination",
  tests="Tests check only the final constraint satisfaction of converging runs.",
  files=FMPC_FILES, mech=[("fraction-to-boundary rule", "FmpcSolver.hpp updateVariables()")], observe=["FmpcSolver::variable()"], functions=FMPC_FUN,
  bounds="horizon 1..2, state dim 1..2, input dim 0..2, constraint dim 0..2, 1..2 iterations; " + PROB_F)
P("C13", title="FMPC status and trace tell the truth",
  statement="FMPC reports success exactly when the KKT error of the returned variables is within the threshold, stops at the first such iterate, "
            "and reports the iteration limit only after using all iterations; on an error the variables stay at the last good iterate. The trace "
            "has one entry per iteration whose KKT error is that of the iterate it describes. A linear-quadratic problem without inequality "
            "constraints is solved by one step. With no iteration allowed nothing is computed and the variables are the given ones.",
  qtext="every problem, iterate, threshold, iteration limit",
  tests="Tests only require success on converging problems.",
  files=FMPC_FILES, mech=[("iteration loop", "FmpcSolver.hpp solve()"), ("KKT error", "FmpcSolver.hpp calcKktError()"), ("termination", "FmpcSolver.hpp procOnce()")],
  observe=["return value of FmpcSolver::solve", "FmpcSolver::traceDataList()"], functions=FMPC_FUN,
  bounds="horizon 1..3 (4 thorough), state dim 1..2, input dim 0..2, constraint dim 0..2, 0..3 iterations, symbolic threshold; " + PROB_F)
P("C14", title="NaN and infinity never enter FMPC results",
  statement="With NaN checking on, a non-finite value returned by any problem callback at any step, or a vanishing slack, makes FMPC return an "
            "error status with all variables finite and unchanged from the last good iterate; finite regular data never produces an error "
            "status or a non-finite result. A variable's own check is true exactly if one of its entries is NaN or infinite.",
  over=["inputs", "configurations"], qtext="every callback, step, position and kind of non-finite value; every finite iterate",
  tests="No test feeds a non-finite value.",
  files=FMPC_FILES, mech=[("containsNaN tests", "FmpcSolver.hpp Coefficient/Variable, backwardPass(), forwardPass()")],
  observe=["return value of FmpcSolver::solve", "FmpcSolver::variable()"], functions=FMPC_FUN,
  bounds="13 callback results x step x {NaN, +inf, -inf} x corner entries; horizon 1..3, state dim 1..2, input/constraint dim 0..2; " + PROB_F)
P("C15", title="FMPC line search accepts only sufficient merit decrease",
  statement="With line search on, the step length is the first of the halving sequence starting at the boundary-limited step whose exact-penalty "
            "merit value satisfies the Armijo condition with the true directional derivative, and the smallest tried step when none does. The "
            "penalty weight follows the configured rule, and the directional derivative of the L1 norm is its one-sided slope, also at kinks.",
  qtext="every problem, iterate, penalty rule; every residual, Jacobian and direction (L1 norm)",
  tests="One test enables line search on one problem and checks convergence only.",
  files=FMPC_FILES, mech=[("merit function", "FmpcSolver.hpp setupMeritFunc(), calcMeritFunc"), ("Armijo loop", "FmpcSolver.hpp updateVariables()"),
                          ("L1 slope", "MathUtils.h")],
  observe=["FmpcSolver::variable()", "l1NormDirectionalDeriv"], functions=FMPC_FUN,
  bounds="horizon 1..2, state dim 1..2, input dim 1..2, constraint dim 0..1, 0..3 halvings or all of them rejected; " + PROB_F)
P("C16", title="FMPC rejects malformed initial variables",
  statement="An FMPC solve throws exactly when a variable list has the wrong length for the horizon, an entry has the wrong dimension for its "
            "step, or (unless complementary variables are initialised by the solver) a slack or multiplier is negative; well-formed variables "
            "are always accepted, in particular variables constructed for the horizon, sized and reset, whose entries are the given values.",
  over=["inputs", "histories"], qtext="every list length, entry dimension and sign within the bounds, first or later solve, initialisation on or off",
  tests="No test passes malformed variables.", files=FMPC_FILES, mech=[("checkVariable", "FmpcSolver.hpp checkVariable()")],
  observe=["exceptions of FmpcSolver::solve"], functions=FMPC_FUN,
  bounds="horizon 1..3, list length off by -1..+1 or a whole other horizon, entry dimensions 0..3, any real slack/multiplier; " + PROB_F)
P("C17", title="FMPC initialises slacks and multipliers complementarily",
  statement="When asked to initialise complementary variables, FMPC sets each slack from the negated constraint value at the given states and "
            "inputs and each multiplier from the barrier parameter divided by that slack, both floored at the configured minimum and enlarged by "
            "the configured margin, so both are positive and strictly feasible; it resizes them to the dimension of their step and changes "
            "nothing else.",
  qtext="every constraint function, state, input, previous slack/multiplier values and sizes", tests="Tests use the feature once and look at convergence only.",
  files=FMPC_FILES, mech=[("initialisation", "FmpcSolver.hpp solve()")], observe=["FmpcSolver::variable()"], functions=FMPC_FUN,
  bounds="horizon 1..3, state dim 1..2, input/constraint dim 0..2 (fixed and dynamic); " + PROB_F)
P("C18", title="FMPC barrier parameter follows the complementarity gap",
  statement="Each FMPC iteration aims at a barrier parameter equal to the configured fraction of the mean complementarity product over all "
            "inequality components of all steps, clamped to its documented range; with the update switched off it stays at its initial value.",
  qtext="every iterate, scale of the products, constraint pattern per step", tests="Tests never observe the barrier parameter.",
  files=FMPC_FILES, mech=[("barrier update", "FmpcSolver.hpp procOnce()")], observe=["FmpcSolver::variable()"], functions=FMPC_FUN,
  bounds="horizon 1..2 (3 thorough), constraint dim 0..2, 1..2 iterations, symbolic slacks/multipliers or symbolic common scale; " + PROB_F)

CG_FILES = [CG + "CgmresSolver.h", "nmpc_cgmres/src/CgmresSolver.cpp", CG + "CgmresProblem.h"]
CG_FUN = ["CgmresSolver::setup", "CgmresSolver::run", "CgmresSolver::calcControlInput", "CgmresSolver::calcDhDuList", "CgmresSolver::eqAmulFunc",
          "Gmres::solve", "EulerOdeSolver::solve", "RungeKuttaOdeSolver::solve", "CgmresProblem::dumpData"]
PROB_C = ("problem callbacks are uninterpreted functions of their arguments (every problem), or affine with fixed matrices and symbolic or "
          "numeric offsets where GMRES needs more than one basis vector")
P("C19", title="GMRES returns the residual-minimising iterate",
  statement="The GMRES solver returns, for every matrix, right-hand side and starting point, the point of the Krylov space of its iteration count "
            "that minimises the residual; its error list holds the residual norm of every iterate and never increases; it stops as soon as the "
            "relative tolerance is met and never exceeds the iteration limit or the number of unknowns, after which a regular system is solved "
            "exactly. The triangular and the full least-squares variants agree.",
  qtext="every regular matrix, right-hand side, start, tolerance, iteration limit, variant, solve history within the bounds",
  tests="Tests solve a few random systems to convergence; truncated runs, warm starts and the error list are not compared with anything.",
  files=[CG + "Gmres.h"], mech=[("Arnoldi, Givens, least squares", "Gmres.h solve()")], observe=["x argument of Gmres::solve", "err_list_"],
  functions=["Gmres::solve (both overloads)", "Eigen products/QR (instantiated with the symbolic scalar)"],
  bounds="dimension 1..4, 0..4 iterations; symbolic matrix for dimension 1, numeric matrices with symbolic right-hand side/start otherwise",
  outside=OUT + "; singular matrices")
P("C20", title="ODE solvers are explicit Euler and classical Runge-Kutta",
  statement="For every right-hand side, time, state, input and (positive or negative) step, the Euler solver returns one explicit Euler step and "
            "the Runge-Kutta solver one classical fourth-order step; on linear equations they reproduce the Taylor polynomial of order 1 and 4.",
  qtext="every right-hand side (uninterpreted), time, step, state and input", tests="Tests integrate whole closed loops and compare coarse values.",
  files=[CG + "OdeSolver.h"], mech=[("integration step", "OdeSolver.h")], observe=["ret argument of OdeSolver::solve"],
  functions=["EulerOdeSolver::solve", "RungeKuttaOdeSolver::solve"], bounds="state dim 1..3, input dim 0..2, vectors and matrix columns")
P("C21", title="C/GMRES residual is the discretised optimality condition",
  statement="The Hamiltonian gradients that C/GMRES evaluates along the horizon are those of the discretised optimal control problem: states "
            "integrated forward from the given state over the time-dependent horizon, costates backward from the terminal gradient, and the "
            "gradient of each step taken at its own time, state, input and following costate.",
  qtext="every problem, time, state, input sequence, horizon parameters, integrator", tests="Tests look at closed-loop states only.",
  files=CG_FILES, mech=[("forward/backward recursion", "CgmresSolver.cpp calcDhDuList()")], observe=["DhDu_list argument"], functions=CG_FUN,
  bounds="horizon 1..10 divisions, state dim 1..2, input dim 0..2 (with constraint multipliers), Euler and Runge-Kutta; " + PROB_C)
P("C22", title="The C/GMRES input update solves the continuation equation",
  statement="One C/GMRES control update changes the input sequence by the sampling period times the (GMRES-truncated, warm-started) solution of "
            "the finite-difference continuation equation that drives the optimality residual to zero at the configured rate along the predicted "
            "state, and returns the first input of the updated sequence.",
  qtext="every problem, time, state and predicted state, input sequence, parameters, update history",
  tests="Tests look at closed-loop states only; a biased update still stabilises them.",
  files=CG_FILES + [CG + "Gmres.h"], mech=[("continuation equation", "CgmresSolver.cpp calcControlInput(), eqAmulFunc()")],
  observe=["u argument", "u_list_"], functions=CG_FUN,
  bounds="up to 3 unknowns (horizon x inputs), 1..3 GMRES iterations, two consecutive updates; " + PROB_C, outside=OUT + "; singular continuation equations")
P("C23", title="C/GMRES setup starts from a stationary input",
  statement="After setup the state is the problem's initial state, the input is a stationary point of the Hamiltonian there within the documented "
            "tolerance (whenever the iteration finishes), every input of the horizon equals it, the optimality residual at the start is that of "
            "this input, and no change of the inputs is carried over from earlier use.",
  over=["inputs", "histories"], qtext="every initial state and input, Hamiltonian, horizon size, repeated setup", tests="Tests never inspect the initial input.",
  files=CG_FILES, mech=[("initial iteration", "CgmresSolver.cpp setup()")], observe=["x_", "u_", "u_list_"], functions=CG_FUN,
  bounds="horizon 1..4, state dim 1..2, input dim 1..2; nonlinear Hamiltonians up to 3 iterations; " + PROB_C)
P("C24", title="C/GMRES run() is the logged closed loop",
  statement="Running C/GMRES is exactly setup followed, once per sampling period from time 0 up to and including the simulation duration, by "
            "simulating the plant with the current input and then updating the input; every dump_step-th step is logged with its time, new state, "
            "new input and optimality error. A second run starts over.",
  over=["inputs", "histories"], qtext="every plant, initial state, parameters, number of steps, logging period", tests="Tests compare a few logged values of two systems coarsely.",
  files=CG_FILES, mech=[("simulation loop", "CgmresSolver.cpp run()")], observe=["x_", "u_", "/tmp/cgmres_*.dat (kept in memory by the check)"], functions=CG_FUN,
  bounds="0..3 steps, horizon 1..2, state dim 1..2; " + PROB_C)

ALL_FILES = DDP_FILES + FMPC_FILES + [DDP + "BoxQP.h", CG + "Gmres.h"]
P("C07", title="A used solver object behaves like a new one",
  statement="A solve depends only on its arguments and the configuration in force: after any earlier solves (other states, inputs, horizon "
            "lengths, dimension patterns, unsuccessful or rejected ones), the same DDP, FMPC, box-QP or GMRES solver object returns the same "
            "value, trajectory, gains, status and trace as a newly constructed one.",
  over=["histories", "inputs"], qtext="every earlier and current solve within the bounds, for every problem", tests="Tests use most solver objects in one closed loop and never compare with a fresh one.",
  files=ALL_FILES, mech=[("per-solve initialisation", "solve() of DDPSolver.hpp, FmpcSolver.hpp, BoxQP.h, Gmres.h")],
  observe=["public results of DDPSolver, FmpcSolver, BoxQP, Gmres"], functions=DDP_FUN + FMPC_FUN + ["BoxQP::solve", "Gmres::solve"],
  bounds="one or two earlier solves, horizon 1..3 (changing), dims 0..2, 1..2 iterations, box-QP dim 1..2, GMRES dim 1..2; " + PROB_DDP)
P("C25", title="Dumped traces hold the trace data",
  statement="Dumping the trace of a DDP or FMPC solver writes, to the given path, a header naming every traced quantity once and then one row per "
            "trace entry with the value of each quantity under its name; dumping again replaces the file, and dumping changes nothing else.",
  qtext="every trace of every solve within the bounds", tests="Tests dump traces and never read them back.",
  files=DDP_FILES + FMPC_FILES, mech=[("dumpTraceDataList", "DDPSolver.hpp, FmpcSolver.hpp dumpTraceDataList()")],
  observe=["the written file (kept in memory by the check)"], functions=DDP_FUN + FMPC_FUN + ["DDPSolver::dumpTraceDataList", "FmpcSolver::dumpTraceDataList"],
  bounds="horizon 1..2, 0..3 iterations, dims 1..2; " + PROB_DDP, outside=OUT + "; the decimal formatting of numbers")
P("C26", title="Fixed and dynamic dimensions give the same results",
  statement="Declaring the input or inequality dimension of a problem dynamic instead of fixed changes no result of the DDP, FMPC and box-QP "
            "solvers: return value, trajectories, gains, multipliers, status and trace are identical. Every combination of fixed (including 0) and "
            "dynamic dimensions is usable, and both libraries can be used in one program.",
  qtext="every problem, state, input, configuration within the bounds, for each combination of fixed and dynamic dimensions",
  tests="Each test instantiates one combination and none compares two.", files=ALL_FILES[:-1],
  mech=[("fixed/dynamic storage", "DDPSolver.hpp, FmpcSolver.hpp, BoxQP.h")], observe=["public results of DDPSolver, FmpcSolver, BoxQP"],
  functions=DDP_FUN + FMPC_FUN + ["BoxQP::solve"], bounds="horizon 1..3, state dim 1..2, input dim 0..2, constraint dim 0..2, box-QP dim 1..3, 1..2 iterations; " + PROB_DDP)
P("C27", title="Clock and print level do not influence results",
  statement="What DDP and FMPC compute depends neither on the print level nor on how long computations take. Reported durations are not negative "
            "for a clock that does not go backward, and of a completed solve the parts never exceed the whole they belong to.",
  over=["inputs", "schedules"], qtext="every non-decreasing sequence of clock readings, every print level, every problem within the bounds",
  tests="Tests print durations and look at none.", files=DDP_FILES + FMPC_FILES,
  mech=[("duration bookkeeping", "DDPSolver.hpp, FmpcSolver.hpp solve()/procOnce()/backwardPass()/forwardPass()")],
  observe=["computationDuration()", "traceDataList()", "results"], functions=DDP_FUN + FMPC_FUN,
  bounds="horizon 1..2, 1..2 iterations, dims 1..2, print levels 0..4, each clock reading symbolic; " + PROB_DDP)

NOT_APPLICABLE = []
