import json
P=[]
def add(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
add("C01","The homotopy follows its configured schedule whatever the NLP solver does",
"Every solve() poses a sequence of relaxed NLPs to the sub-solver: the first with relaxation parameter sigma_0 and the initial guess, each later one with the parameter reduced once by the configured update rule (linear, or superlinear floored at sigma_N) and warm-started at the iterate just returned, all with the same bounds and with the current initial state and parameters. The sequence ends exactly at the first iterate whose complementarity residual (the largest product over all complementarity pairs of the formulation, cross-complementarities with the other stages of the finite element and the end of the previous one as well as the user's path complementarities included) is below comp_tol, or once a parameter at or below sigma_N has been solved, or at the iteration limit. This holds for every sequence of sub-solver statuses and iterates: early failures, iteration-limit exits and NaN iterates neither skip, repeat nor prolong the schedule.",
["fault_sequences","histories","configurations"],
"every sequence of sub-solver outcomes (status x iterate x residual), every homotopy configuration (sigma_0, sigma_N, slope, exponent, rule, comp_tol, iteration limit), every formulation option, any number of solves in a row",
"The tests run IPOPT on a few well-behaved problems and look only at the final numbers; they cannot make the sub-solver fail at a chosen step, nor produce an iterate whose residual is just above or below the tolerance.",
["nosnoc/solver.py","nosnoc/problem.py","nosnoc/nosnoc_opts.py"],
[("homotopy loop","NosnocSolver.solve"),("homotopy_sigma_update","NosnocSolverBase"),("comp_res","NosnocProblem.__init__ / FiniteElement.get_complementarity_vector"),("max_iter_homotopy default","NosnocOpts.preprocess")],
[("sigma_k","current relaxation parameter","NosnocSolver.solve"),("w0","warm start of the next NLP","NosnocSolver.solve")],
["arguments of the NLP solver created with casadi.nlpsol"])
add("C02","solve() reports what actually happened",
"The reported status is SUCCESS exactly when the last NLP solve of the call ended with a status that counts as success, and the reported iterates, iteration counts, times and cost are those of the NLP solves that took place, in order, with empty (None) slots for solves that did not take place; the cost is the objective value of the returned solution, sign included, and reported times are never negative, even if the wall clock is set back. Every trajectory in the result (states at all grid points, controls, algebraic variables and multipliers at the end of each finite element, step sizes, time grids, speed-of-time, global variables, switch times = the grid times inside the horizon at which the active region changes) is the one encoded in the returned solution vector.",
["fault_sequences","configurations","histories"],
"every sequence of sub-solver outcomes incl. polishing, every clock behaviour, every discretisation / formulation option (stages, finite elements per stage, RK scheme, representation, Stewart/Step, several subsystems, speed-of-time, global variables)",
"Tests only see successful IPOPT runs; none checks the statistics, the status after a failed run, negative costs, clock jumps, or the mapping from solution vector to trajectories on non-uniform grids.",
["nosnoc/solver.py","nosnoc/problem.py","nosnoc/utils.py"],
[("result assembly","NosnocSolver.solve"),("get_results_from_primal_vector","nosnoc/solver.py"),("check_ipopt_success","nosnoc/utils.py"),("index bookkeeping","NosnocProblem.__collect_final_element")],
[("ind_*","index lists of the primal vector","NosnocProblem")],
["dict returned by NosnocSolver.solve"])
add("C03","A solver can be reused after failed or interrupted solves",
"After any history of set(), successful solves, failed solves, and solves cut short by an exception (raised by the NLP solver, by output, or a KeyboardInterrupt delivered at any point inside solve()), the next completed solve() poses the same NLPs and returns the same result as a freshly built solver that was given only the values currently in force. The only thing carried over is the documented one: with ALL_XCURRENT_WOPT_PREV the initial guess is the solution of the last completed solve (states reset to the current initial state); a solve interrupted after its last NLP had returned may count as completed or not.",
["crash_points","histories","fault_sequences","configurations"],
"every history of set / solve / failed solve / interrupted solve, every interruption point (sub-solver call, print, any source line of the package), every initialisation strategy and solver option",
"Tests build a solver, solve once (or loop over successes) and stop; they never interrupt a solve nor compare a reused solver with a fresh one.",
["nosnoc/solver.py","nosnoc/problem.py","nosnoc/model.py"],
[("initialize","NosnocSolverBase.initialize"),("setup_p_val / compute_lambda00","NosnocSolverBase"),("copies of bounds for fix_active_set_fe0 and polishing","NosnocSolver.solve")],
[("problem.w0","stored initial guess","NosnocProblem"),("lambda00, p_val","per-solve data","NosnocSolverBase")],
["arguments of the NLP solver","dict returned by solve"])
add("C04","Independent solvers never influence each other",
"Solvers built from separate options, model and OCP objects behave exactly as each would alone in a fresh process, for every order and every thread interleaving in which they are configured, constructed, set and solved. In particular options set on one options object (including NLP-solver options and tolerances derived from it) never show up in another.",
["schedules","histories"],
"every interleaving, down to single source lines, of 2-4 clients that each configure options, build a model, construct a solver, set values, solve and simulate; failures of one client included",
"Each test runs one client at a time and never compares with a fresh process; order effects are hidden because every process runs a different mix of tests.",
["nosnoc/nosnoc_opts.py","nosnoc/solver.py","nosnoc/ocp.py","nosnoc/model.py","nosnoc/problem.py"],
[("per-instance state","NosnocOpts, NosnocProblem, NosnocModel, NosnocOcp"),("default arguments","NosnocOcp.__init__, NosnocModel.__init__")],
[("opts_casadi_nlp","NLP solver options","NosnocOpts")],
["options and arguments given to casadi.nlpsol","returned results"])
add("C05","set() reaches exactly the next solve, and caller data stays the caller's",
"Each set(field, value) replaces exactly the data of that field (initial state, initial guesses for x, u, theta, v_global or the whole primal vector, global parameters on all control stages, time-varying parameters stage by stage) used by the following solves, the last write winning and every other entry unchanged, in any order of set and solve calls. Arrays passed in (also those that model and OCP were constructed from) are neither modified by the solver nor watched: changing them once the solver is constructed has no effect; arrays returned by earlier solves do not change under later calls, and changing them has no effect on later solves.",
["histories","configurations"],
"every sequence of set (all fields, both x layouts), solve, failed solve and caller-side in-place mutations, every initialisation strategy, number of stages and finite elements",
"One test sets x and u once on one problem; overwriting, partial overlap, repeated solves, parameters per stage and aliasing of caller arrays are never exercised.",
["nosnoc/solver.py","nosnoc/model.py"],
[("set","NosnocSolverBase.set"),("initialize","NosnocSolverBase.initialize"),("setup_p_val","NosnocSolverBase.setup_p_val")],
[("problem.w0","initial guess","NosnocProblem"),("model.p_val_ctrl_stages","parameter values","NosnocModel"),("model.x0","initial state","NosnocModel")],
["x0 and p arguments of the NLP solver","caller-owned arrays"])
add("C06","The simulation loop chains and records its steps consistently",
"A NosnocSimLooper run starts every step at the state where the previous step ended, with the parameter row and initial guess belonging to that step, and its record (states, time steps, time grid starting at 0, switch times, algebraic trajectories, statuses, costs, timings) is the in-order concatenation of exactly the steps that were executed, in global simulation time. With stop_on_failure the run stops right after the first step whose solve was not successful and returns False, otherwise it executes all steps and returns True; if a step raises, the record holds exactly the completed steps. Arrays given to the looper are neither modified nor watched after its construction.",
["fault_sequences","histories","configurations"],
"every sequence of step outcomes (success, failure, exception at any NLP call), every number of steps, finite elements, parameter schedules, initial-guess schedules, speed-of-time / Stewart / Step settings",
"Tests only run loops in which every step succeeds, never use stop_on_failure, p_values or w_init, and never compare switch times for more than two finite elements.",
["nosnoc/helpers.py","nosnoc/solver.py"],
[("NosnocSimLooper.run","nosnoc/helpers.py"),("get_results","nosnoc/helpers.py"),("switch time extraction","get_results_from_primal_vector")],
[("xcurrent","state at the end of the last step","NosnocSimLooper"),("time_steps","all step sizes so far","NosnocSimLooper")],
["dict returned by NosnocSimLooper.get_results","return value of run"])
add("C07","A successful FESD simulation is the Filippov trajectory, switches located",
"With FESD switched on, a simulation whose steps all report SUCCESS with converged complementarity reproduces, up to the discretisation and complementarity tolerances, the Filippov solution of the user's piecewise-smooth system from the given initial state with the given parameters: crossing, entering, following and leaving sliding modes, for one or several switching functions and subsystems; every switch inside a step (with Gauss-Legendre: before the last collocation point of the step) falls on a point of the time grid, exits from sliding modes being located up to the discretisation error, and the step sizes add up to the step length. This holds for every supported choice of RK scheme, stages, representation, Stewart/Step, cross-complementarity, MPCC and step-equilibration mode, and also when NLP solves failed transiently earlier in the homotopy or in earlier attempts; and once faults have stopped, well-posed steps are solvable again.",
["inputs","configurations","fault_sequences","histories"],
"piecewise-smooth systems with at most N_finite_elements-1 switches per step, all documented formulation options, parameter changes between steps, transient sub-solver faults",
"The tests check two scalar systems and one oscillator for a handful of option combinations, always without sub-solver faults; e.g. no test crosses a switching surface with Gauss-Legendre, or simulates two subsystems in Step mode.",
["nosnoc/problem.py","nosnoc/model.py","nosnoc/rk_utils.py","nosnoc/solver.py","nosnoc/helpers.py"],
[("FESD discretisation","FiniteElement.forward_simulation"),("cross complementarity","FiniteElement.create_complementarity_constraints"),("DCS reformulation","NosnocModel.preprocess_model"),("initial multipliers","NosnocModel.compute_lambda00")],
[],
["NosnocSimLooper.get_results"])
add("C08","A successful OCP solution satisfies the user's problem as stated",
"Whenever solve() on an optimal control problem reports SUCCESS with converged complementarity, the returned trajectory starts at the current initial state, obeys the dynamics under the returned controls, speed-of-time, current parameters and global variables, covers exactly the terminal time with equal control stages if the control grid is equidistant, and satisfies all bounds on x, u and global variables, path constraints at their evaluation points, path complementarities, terminal constraints and (time freezing) the physical-time constraint; and for exactly integrable data the reported cost is the user's objective along it plus the documented regularisation terms. Conversely, the posed NLP accepts every trajectory that satisfies the user's problem exactly (bounds on x held at all Runge-Kutta points too) and whose switches fit the grid. This holds at every step of a receding-horizon loop in which states, parameters and guesses change and solves fail or are interrupted in between.",
["histories","inputs","configurations","fault_sequences"],
"small OCPs with generated dynamics, bounds, constraints, costs, parameters, grids; receding-horizon histories with changing data and sub-solver faults; every formulation option",
"The tests check x0, the target and the horizon of two OCPs after a single successful solve; path constraints, parameters per stage, non-uniform grids, repeated solves and failures are not covered.",
["nosnoc/problem.py","nosnoc/ocp.py","nosnoc/solver.py","nosnoc/model.py"],
[("NLP assembly","NosnocProblem.__init__"),("OCP functions and bounds","NosnocOcp.preprocess_ocp"),("path constraints and costs","FiniteElement.forward_simulation")],
[],
["dict returned by NosnocSolver.solve"])
add("C09","A problem dump is either complete or reported as failed",
"If dumping a problem to a file returns normally, the file can be loaded again and contains the complete problem: bounds, current initial guess, current parameter values, index lists and objective/constraint functions that evaluate exactly like the live problem's. If the disk misbehaves (full disk, write or close error, short writes, interruption) the dump either raises or has written the complete file; it never returns normally with a torn or missing file, and in either case the live problem and solver are unaffected.",
["fault_sequences","crash_points","histories","configurations"],
"every sequence of disk faults at every I/O operation of the dump, every problem configuration, dumps at any point of a solve history",
"No test dumps a problem at all.",
["nosnoc/problem.py"],
[("dump","NosnocProblem.dump")],
[],
["file written by NosnocProblem.dump"])
add("C10","Polishing only pins converged complementarity variables",
"With the polishing step enabled, every solve() ends with NLP solves at zero relaxation that start from the last homotopy iterate and differ from the homotopy problems only in pinning convex multipliers and switching multipliers (theta, alpha, lambda) that are within ten times comp_tol of 0 (or of 1) to that value; states, controls, step sizes, user algebraic and global variables, speed-of-time and the free equation multipliers keep their bounds. The returned solution, status and statistics are those of the polishing solve, and the pins never leak into later solves.",
["fault_sequences","histories","configurations"],
"every final homotopy iterate (values exactly at, just inside and just outside the tolerance), every sub-solver outcome of the polishing solve, every formulation option that polishing supports, any number of solves in a row",
"Two tests polish one converged solution each and look at the trajectory only.",
["nosnoc/solver.py"],
[("polish_solution","NosnocSolverBase.polish_solution")],
[],
["bounds passed to the NLP solver","dict returned by solve"])
add("C11","Every finite element integrates with the advertised order",
"For every supported Runge-Kutta scheme (Radau IIA, order 2s-1; Gauss-Legendre, order 2s), every number of stages s from 1 to 9 and every representation (integral, differential, differential with lifted states), states and integral costs whose exact solution is a polynomial in time of a degree within the advertised order (rates that are forced or coupled polynomially, that change with the active region, on any grid) are reproduced in every finite element up to rounding: the posed problem accepts the exact solution, every solution it accepts is that solution, the objective contains its exact integral, and the stage times in use are those of the method. This holds in every step of a simulation, also after sub-solver failures.",
["configurations","inputs","fault_sequences","histories"],"all schemes x stage counts x representations, piecewise-smooth systems with polynomial solutions of the critical degree, transient sub-solver faults, several steps",
"Only n_s <= 3 (4 for dimensions) is run, and only on systems that low-order coefficients integrate exactly.",
["nosnoc/rk_utils.py","nosnoc/nosnoc_opts.py","nosnoc/problem.py"],[("generate_butcher_tableu","nosnoc/rk_utils.py"),("generate_butcher_tableu_integral","nosnoc/rk_utils.py"),("use of the tableaus","NosnocOpts.preprocess / FiniteElement.forward_simulation")],
[],
["dict returned by NosnocSolver.solve","functions of the NLP given to casadi.nlpsol"])
add("C12","Auto-modelling preserves the dynamics",
"Simulating the model that NosnocAutoModel.reformulate() returns for a nonsmooth ODE reproduces, up to the tolerances, the solution of that ODE: for right-hand sides built from sums, products and compositions of smooth operations with sign, max and min of smooth arguments, with shared, repeated or differently scaled switching functions, rows without nonsmooth or without smooth terms, parallel switching surfaces, coefficients and thresholds that depend on controls or parameters, and several nonsmooth functions in one term; and for every call of reformulate(), repeated ones included, without changing the models returned before. It holds through switches (and on sliding modes of switching functions that enter once and affinely, where the Filippov solution does not depend on the chosen representation), for every supported formulation option, and also when NLP solves failed transiently; the exact trajectory of the ODE is accepted by the posed problem.",
["programs","inputs","configurations","fault_sequences"],"right-hand sides generated from additive, general one-term and coupled nonsmooth forms, all discretisation options, transient sub-solver faults",
"Tests look at the structure of a handful of expressions and never simulate a reformulated model.",
["nosnoc/auto_model.py","nosnoc/model.py"],[("reformulate","NosnocAutoModel")],
[],
["NosnocSimLooper.get_results"])
add("C13","Inconsistent problem data is rejected and leaves nothing behind",
"Problem data whose dimensions or types do not fit together are rejected with an exception when the solver is constructed; they are never silently truncated, padded or broadcast. This covers: option values of the wrong type or enumeration; a number of Runge-Kutta stages for which there is no scheme; Nfe_list or p_time_var_val not matching N_stages; x0, z0, lbz, ubz, p_global_val, bounds and guesses of states, controls and global variables, and bounds of path constraints of the wrong length; lists of vector fields, switching functions, region matrices, Stewart functions or step multipliers of different lengths; vector fields without n_x rows or without one column per region; region matrices without one row per region and one column per switching function; vector-valued costs; path complementarities without exactly two columns; expressions in symbols that were not declared; missing or contradictory parts of the formulation; inequalities in combination with least-squares constraint handling; option combinations that are documented as unsupported by an exception. Consistent data are accepted. In the same way set() rejects unknown fields and values whose number of rows or entries does not fit (a scalar or a single row stands for all entries or stages), and the simulation loop rejects parameter arrays of the wrong shape and optimal control problems. A rejection leaves nothing behind: a rejected set() does not change any stored value, and after the client corrected the data the same model, option and OCP objects yield exactly the solver, the NLP calls and the results that freshly created objects yield. The same holds when consistent options are changed after the objects were used for another solver: everything derived from the options (finite elements per stage, iteration limit, sub-solver tolerances, default parameter values, Runge-Kutta coefficients) follows the change.",
["inputs","configurations","histories"],"all places in which problem data can be inconsistent, before, between and after correct data, all formulations and options; changes of options between two solvers built from the same objects",
"Tests try five wrong inputs, each once and on fresh objects.",
["nosnoc/model.py","nosnoc/ocp.py","nosnoc/nosnoc_opts.py","nosnoc/utils.py","nosnoc/solver.py","nosnoc/problem.py","nosnoc/helpers.py"],[("validate","nosnoc/utils.py"),("preprocess_model","NosnocModel"),("preprocess_ocp","NosnocOcp"),("preprocess","NosnocOpts.preprocess"),("set","NosnocSolverBase.set")],
[("opts, model, ocp","problem data","NosnocSolver"),("problem.w0, model.x0, model.p_val_ctrl_stages","stored data","NosnocSolverBase.set")],
["NosnocSolver constructor","set()","NLP arguments","results dict"])
add("C14","The smoothed RK4 initialisation is a consistent guess for the solve at hand",
"With the RK4_SMOOTHENED initialisation (Stewart reformulation of models given by c and S, Radau IIA, one control stage, no algebraic variables), the first initial guess of every solve is built from the initial state and parameters currently in force, whatever happened in earlier solves: all entries are finite for every positive smoothing parameter; the guessed states form one trajectory on the stage times of all finite elements, starting at the current initial state and moving with a convex combination of the regions' vector fields; every guess for the convex multipliers lies in the simplex; the guesses for lambda and mu belong to the guessed states (mu up to the smoothing); where a guessed state is far from all switching surfaces compared to the smoothing parameter the convex multipliers select exactly its region, so that as the smoothing goes to zero the guess becomes the solution of the region's dynamics; step sizes and all other entries keep the values they had.",
["inputs","configurations","histories","fault_sequences"],
"models with regions given by c and S (dense and sparse, several subsystems, parameters), all representations and grids, smoothing parameters from 3e-5 to 10, states on and off the surfaces, histories of data changes and failed or interrupted solves",
"One test uses it as an initial guess only.",
["nosnoc/model.py","nosnoc/rk_utils.py","nosnoc/solver.py"],[("add_smooth_step_representation","NosnocModel"),("rk4_on_timegrid","nosnoc/rk_utils.py"),("initialize","NosnocSolverBase.initialize")],
[("problem.w0","initial guess","NosnocProblem")],
["x0 argument of the first NLP of a solve"])
add("C15","Every posed NLP is the configured relaxation of the user's problem",
"Every NLP that a solve poses, in every history of data changes, failed and successful solves, is the relaxation that the options describe, evaluated with the parameters of that call. (1) Complementarities: for every Runge-Kutta stage, finite element and pair required by the cross-complementarity mode (all pairs within the element and with the end of the previous one, or the sums of all multipliers of the element and of the end of the previous one with every stage; stage by stage without FESD), for every path complementarity (at every stage, once per control stage, or once, according to what it depends on), and for the step-equilibration modes that pose complementarities or constraints, the NLP contains the constraint of the MPCC mode: product minus sigma equal to or at most zero (Scholtes), product between minus and plus the elastic variable as configured (elastic modes), Fischer-Burmeister function smoothed with sigma equal to zero (summed over the multipliers, with its weighted augmentation in the IP_AUG mode), both factors bounded by 1e5 times a binary variable and its complement (BOOLEAN). (2) Objective: the quadrature of f_q with the weights of the Runge-Kutta method, step sizes and speeds of time, plus f_terminal at the final state with the parameters of the last control stage and the global variables, plus exactly the configured step-equilibration penalty (rho_h times squared differences to the previous or the mean step, weighted by the switch indicator where configured), combined with the elastic variable according to objective_scaling_direct, plus the squares of all constraint residuals with least-squares handling. (3) Constraints of the user and of the discretisation: path constraints at the end of every control stage (with g_path_at_fe of every finite element, with g_path_at_stg also at the Runge-Kutta stages) and terminal constraints, within the user's bounds, evaluated with the control, parameters and global variables of their stage; the collocation equations of the configured scheme, stages and representation for the user's vector field (convex combination by theta, or by the products of alpha, times the speed of time), the continuity of the state, the switching system of every subsystem and the user's algebraic equations at every stage (without an explicit end point also the switching system at the end of every element but the last of a control stage), the lengths of the control stages on an equidistant grid or the terminal time, and the physical time within its tolerance with time freezing. Nothing else is constrained. (4) Bounds: controls, states at all grid and stage points, algebraic variables, global variables, speeds of time, elastic variable and step sizes (gamma_h around the uniform grid) are bounded as configured; multipliers and convex multipliers are nonnegative wherever the MPCC function does not imply it and step multipliers are at most one, except for variables fixed by fix_active_set_fe0 (at zero: the convex multipliers of the first finite element whose initial multipliers are positive, beyond ten times comp_tol) or polishing. (5) Unless other guesses were set, the initial guess has the user's guesses of controls, global and algebraic variables, the uniform step sizes, unit speeds of time and s_elastic_0.",
["inputs","configurations","histories"],"all formulations, discretisations, MPCC, cross-complementarity and step-equilibration modes, weights and bounds; every NLP of every history; the posed functions compared at the iterates and at random points",
"The tests only look at whether IPOPT gets a good solution for a handful of combinations; weaker, shifted or misweighted relaxations still converge there.",
["nosnoc/problem.py","nosnoc/solver.py","nosnoc/ocp.py","nosnoc/nosnoc_opts.py"],[("create_complementarity","NosnocFormulationObject"),("create_complementarity_constraints, step_equilibration, forward_simulation","FiniteElement"),("NosnocProblem.__init__","objective, elastic variable, least squares"),("setup_p_val","NosnocSolverBase")],
[("problem.g, lbg, ubg, cost, lbw, ubw, w0","posed NLP","NosnocProblem")],
["NLP handed to casadi.nlpsol and its call arguments"])
add("C16","Inspecting a problem, iterate or timings shows live data and changes nothing",
"The inspection functions - printing a problem (print_problem, problem.print), printing a symbolic vector, repr and is_sim_problem, decoding an iterate (get_results_from_primal_vector), plotting iterates (plot_iterates) and timings (plot_timings), and the smoothed vector field (create_function_calculate_vector_field) - may be used at any point of any history of set() and solve() (successful, failed or interrupted), and may themselves fail at any output line, any I/O operation of writing the figure, or any source line: the options, the problem and the solver are left unchanged, every later solve poses exactly the NLPs and returns exactly the result it would have without the inspection, and an iterate or timings array passed in is not modified nor aliased by what is returned. What they show is the data of that moment: every constraint with its bounds and every variable with its current guess and its bounds, flagged as an error exactly if the bounds are contradictory or the guess violates them, with the number of errors, and the objective; for an iterate, the states, multipliers and convex multipliers of every stage of the iterate, each iterate in its own column with its title; for timings, one stacked bar per run whose parts are the given times, and the mean total; for the vector field in Stewart form with one subsystem, the convex combination of the region fields whose multipliers solve the smoothed Stewart system, independently of how often it is called.",
["histories","fault_sequences","crash_points","configurations"],"every interleaving of inspections with set and solve, every failure point of the inspections, every formulation with the data, iterates and timings of that moment",
"The tests call print_problem at most on a fresh problem and plot nothing; none compares what is shown with the data, and none solves again afterwards.",
["nosnoc/problem.py","nosnoc/solver.py","nosnoc/plot_utils.py","nosnoc/utils.py"],[("print, is_sim_problem","NosnocProblem"),("print_problem, create_function_calculate_vector_field","NosnocSolver"),("get_results_from_primal_vector","nosnoc/solver.py"),("plot_iterates, plot_timings","nosnoc/plot_utils.py"),("print_casadi_vector","nosnoc/utils.py")],
[("problem.w0, lbw, ubw, lbg, ubg, g, cost","what is shown","NosnocProblem")],
["standard output","matplotlib figures","returned dict and function"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,s)
print(len(P))
