import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
ALLF=["extensisq/common.py","extensisq/bogacki.py","extensisq/calvo.py","extensisq/cash.py","extensisq/shampine.py","extensisq/sommeijer.py"]
p("C01","Time advances monotonically and the run ends exactly at t_bound",
 "Every successful step of every solver moves the current time strictly towards t_bound and never past it. A run that finishes ends with the current time equal to t_bound exactly (bit for bit), in both integration directions. A run does not fail merely because floating-point rounding leaves a remainder in front of t_bound.",
 ["inputs","histories"],"all t0, t_bound, directions, first steps, max_steps, tolerances, right-hand sides and all steps of a run, including rejected attempts",
 "Tests integrate a few fixed intervals whose end points happen to round well; whether t+|t_bound-t| rounds to t_bound depends on the two end points (18% of random pairs failed before the repair).",
 ALLF,[("step loops and end-of-interval look-ahead","extensisq/common.py:RungeKutta._step_impl,_reassess_stepsize; ESDIRK._step_impl,_reassess_stepsize"),("own step loops","extensisq/bogacki.py, calvo.py, cash.py, shampine.py, sommeijer.py: _step_impl")],
 [("t, h_abs, t_bound, direction","solver time state","OdeSolver attributes")],["solver.t after each step()","OdeResult.t"])
p("C02","No step is longer than max_step",
 "No solver ever takes a step longer than the max_step the user gave: not the first step, not a step suggested by first_step, not a step stretched or split near t_bound, and not after a growth of the step size. The automatically chosen first step is also limited by max_step.",
 ["inputs","histories"],"all solvers, max_step values (including values close to the rounding limit), first_step values, intervals and step histories",
 "Existing tests check max_step for one smooth problem per method; the stretched or split last step and user supplied first steps are not reached.",
 ALLF,[("step limitation","extensisq/common.py:RungeKutta._reassess_stepsize, ESDIRK._reassess_stepsize"),("step limitation","extensisq/shampine.py:SWAG._step_impl; extensisq/sommeijer.py:SSV2stab._step_impl")],(),["abs(solver.t - solver.t_old)"])
p("C03","A step is accepted only if its scaled error estimate passes the test",
 "Every accepted step has a local error estimate, formed from the method's embedded pair on the stages of that very step, whose RMS norm in the weights atol + rtol*max(|y_old|,|y_new|) is below one (for the Adams code: mean weights and at most one). A non-finite estimate, or a solution that overflowed, is never accepted. The documented weights use the user's atol per component and rtol, only bounded below/above by the documented limits.",
 ["inputs","histories"],"all explicit and implicit one-step methods, SWAG and SSV2stab, all states, tolerances, right-hand sides and step sizes",
 "Tests compare global errors of a few smooth problems with loose factors; a skipped, weakened or mis-weighted error test passes them.",
 ALLF,[("accept test","_step_impl of RungeKutta, BS5, CFMR7osc, CKdisc, ESDIRK, SWAG, SSV2stab"),("estimate and weights","extensisq/common.py:_comp_sol_err,_estimate_error,_estimate_error_norm,calculate_scale,norm; RungeKuttaNystrom overrides")],(),["solver.y, solver.t, stages of the step"])
p("C04","Step-size control obeys the documented controller and limits",
 "After an attempt is rejected by the error test the retried step is strictly shorter (by a factor not below the method's minimum factor, for the Runge-Kutta methods), so that retries always terminate, and the step size proposed after a step with rejections is not larger than the step taken. After acceptance the next step size follows the documented controller formula for the chosen sc_params, clipped to the method's limits, once the second-order controller is active. Every predefined name and every 4-tuple given as sc_params selects exactly its parameters, for every method that documents the option.",
 ["inputs","histories","configurations"],"all error norms in [0, inf], step ratios, controller parameters with safety factor in (0, 1), and histories of accepted/rejected steps",
 "Tests only run predefined controllers on smooth problems and do not look at the step sequence.",
 ["extensisq/common.py","extensisq/bogacki.py","extensisq/calvo.py","extensisq/cash.py","extensisq/fine.py","extensisq/murua.py"],[("controller set-up","extensisq/common.py:_init_sc_control (RungeKutta, ESDIRK)"),("controller","_step_impl / _assess_error_and_stepsize"),("option plumbing","constructors of all methods")],(),["solver.h_abs, sequence of step sizes"])
p("C05","Each accepted explicit step is the declared Runge-Kutta(-Nystrom) formula",
 "For every explicit one-step method the new state is exactly the method's Runge-Kutta (or Nystrom) formula applied to the current state with the taken step size, with every stage evaluated by the user's function at the proper time and argument. The derivative carried into the next step is the user's function at the new time and state (never a stale or pre-rejection value).",
 ["inputs","histories"],"all right-hand sides, states, step sizes, dimensions, directions and rejection histories",
 "Tests see global errors only; a stale stage, a wrong node after a rejection or a skipped refresh still converges at reduced order on autonomous smooth problems.",
 ["extensisq/common.py","extensisq/bogacki.py","extensisq/calvo.py","extensisq/cash.py"],[("stage loop","extensisq/common.py:RungeKutta._rk_stage,_comp_sol_err,_step_impl; RungeKuttaNystrom._rk_stage,_comp_sol_err"),("variants","BS5, CFMR7osc, CKdisc: _step_impl")],(),["solver.y after each step, calls of fun"])
p("C06","Every method has the order it declares",
 "The coefficients of every method satisfy, up to coefficient rounding, all order conditions of its declared order, of its declared secondary (error-estimating) order, and of each of its dense-output options and fallback formulas; an error estimator is not of the same order as the solution it checks. Nystrom methods satisfy the second-order conditions for displacement and velocity.",
 ["configurations","inputs"],"all methods, interpolants and fallback formulas; order conditions hold for every smooth right-hand side",
 "Existing tests cover main formulas numerically; fallback formulas, extra stages and several interpolants are only sampled on one problem.",
 ["extensisq/bogacki.py","extensisq/calvo.py","extensisq/cash.py","extensisq/tsitouras.py","extensisq/prince.py","extensisq/merson.py","extensisq/fine.py","extensisq/murua.py","extensisq/mikkawy.py","extensisq/hosea.py","extensisq/kennedy.py","extensisq/kvaerno.py"],[("coefficient arrays","class attributes A, B, C, E, P, ... of each method")])
p("C07","Dense output reproduces the step's end points and slopes",
 "For every method and every interpolant option, the dense output of a step returns the state at the start of the step when evaluated there and the new state at the end of the step, and agrees between scalar and array arguments; so the pieces of a solution join continuously. The interpolants documented as smooth (C1) also have the derivatives of the solution at both ends, and the Nystrom interpolants return a velocity that is the derivative of the displacement.",
 ["inputs","configurations","histories"],"all methods, interpolant options, steps (including first, last, rejected-then-accepted and low order fallback steps), dimensions",
 "Tests evaluate some interpolants for one problem with loose tolerances and not the derivative or fallback cases.",
 ["extensisq/common.py","extensisq/bogacki.py","extensisq/cash.py","extensisq/fine.py","extensisq/murua.py","extensisq/hosea.py","extensisq/kennedy.py","extensisq/shampine.py","extensisq/sommeijer.py","extensisq/prince.py"],[("interpolant classes","HornerDenseOutput, CubicDenseOutput, HornerDenseOutputNystrom, QuinticHermiteDenseOutput, PiecewiseCubicDenseOutput, SwagDenseOutput, LinearDenseOutput"),("selection","_dense_output_impl of each method")],(),["solver.dense_output(), OdeSolution"])
p("C08","Dense output already handed out never changes",
 "A dense output object, and the state arrays t, y returned for a step, keep their values for ever: later steps, later dense-output requests, rejections and other solvers do not alter them. Requesting dense output (or not) does not change the sequence of steps and solution values.",
 ["histories","inputs"],"all methods and interpolants, all continuations of the run after a dense output object was obtained",
 "Tests evaluate interpolants after the run only through a final comparison with loose tolerances; aliasing shows up only for particular accepted orders.",
 ["extensisq/common.py","extensisq/cash.py","extensisq/shampine.py","extensisq/sommeijer.py","extensisq/bogacki.py","extensisq/hosea.py"],[("storage of the step's data","_dense_output_impl, constructors of DenseOutput classes, end of _step_impl")])
p("C09","Solvers are isolated from each other and from the user's data",
 "Constructing or running a solver never changes the coefficients of its class, another solver's results, or arrays that the user passed in (initial state, tolerances, Jacobian, mass matrix). Solving the same problem twice in one process, also after or interleaved with other solves, gives identical results.",
 ["histories","configurations"],"all methods and options, all sequences of constructions and interleaved steps in one process",
 "Each test builds a solver in a fresh state and does not repeat a solve; the cumulative scaling of shared coefficients (repaired) was invisible to them.",
 ["extensisq/common.py","extensisq/murua.py","extensisq/fine.py","extensisq/bogacki.py","extensisq/kennedy.py","extensisq/mikkawy.py","extensisq/shampine.py","extensisq/sommeijer.py","extensisq/hosea.py"],[("per-instance state","constructors and _step_impl of each class")])
p("C10","Failures are honest and the retry loop terminates",
 "A step either succeeds with a finite new state, or the solver reports failure with a message and leaves the current time and state as they were; it never returns success with a non-finite state. Every step call ends after finitely many attempts, whatever the right-hand side returns (including nan and inf).",
 ["inputs","fault_sequences","histories"],"all right-hand sides, including ones that become nan or inf at any evaluation, and all step-size histories",
 "Tests use well behaved functions; one test per method uses a singular problem.",
 ALLF,[("failure exits","_step_impl of RungeKutta, BS5, CFMR7osc, CKdisc, ESDIRK, SWAG, SSV2stab; ESDIRK._solve_implicit_stage")],(),["solver.status, step() message"])
p("C11","Forward and backward integration mirror each other",
 "Integrating the time-reflected problem in the opposite direction gives the mirrored run: the same step sizes, states, rejections and dense output. The direction of integration never influences which steps are accepted or how large they are.",
 ["inputs","histories","configurations"],"all problems, all methods, both directions",
 "Backward integration is tested only by final accuracy; a sign error in a controller, a start step or an interpolant survives it.",
 ALLF+["extensisq/fine.py","extensisq/murua.py","extensisq/hosea.py"],[("direction handling","_step_impl, _reassess_stepsize, h_start, dense outputs, SWAG coefficients")])
p("C12","Accepted implicit stages solve the stage equations",
 "In every implicit method each accepted step consists of stages that solve M k = f(t + c h, y + h sum a k) to the method's Newton tolerance (exactly, for problems declared linear), where the first stage is the derivative carried over from the previous step. If the iteration does not converge the attempt is repeated with an updated Jacobian or a smaller step and its result is never used; linear problems never use an out-of-date factorisation.",
 ["inputs","histories"],"all problems, masses, Jacobian update histories, step-size changes, convergence failures",
 "Tests integrate benign stiff problems; stale factorisations or accepted unconverged stages only cost accuracy or efficiency there.",
 ["extensisq/common.py","extensisq/hosea.py","extensisq/kennedy.py","extensisq/kvaerno.py"],[("Newton iteration","extensisq/common.py:ESDIRK._solve_implicit_stage"),("factorisation management","extensisq/common.py:ESDIRK._step_impl,_preemptive_lu_and_jac")])
p("C13","Jacobian and mass matrix may be given in any accepted form",
 "For the implicit methods the result does not depend on the representation of the data: a constant Jacobian as dense or sparse array; a callable returning dense or sparse; a mass matrix as None/identity, 1-d diagonal, dense or sparse matrix. A problem M y' = f with invertible M has the same solution as y' = M^-1 f, a wrong shape is rejected with an exception, and a singular mass matrix is recognised as a DAE in every form.",
 ["inputs","configurations"],"all matrices of every size in each accepted form",
 "Tests use a few diagonal or sparse examples and compare with loose tolerances.",
 ["extensisq/common.py"],[("conversion","extensisq/common.py:ESDIRK._validate_jac,_set_lu_functions,_handle_M,__init__")])
p("C14","DAE initial conditions are made consistent or rejected",
 "For an index-1 DAE with a singular mass matrix the solver starts from a state that satisfies the algebraic equations and a derivative that satisfies the differential and the differentiated algebraic equations; consistent user values are kept unchanged and the differential part of the state is never altered. A DAE of higher index, or one for which no consistent state can be found, is rejected with an exception. All later accepted states satisfy the algebraic equations to the tolerance.",
 ["inputs","configurations"],"all index-1 problems, mass matrices of every rank and basis, both consistent and inconsistent initial states",
 "Tests contain a few DAEs in the natural basis with known solution.",
 ["extensisq/common.py"],[("consistent initial values","extensisq/common.py:ESDIRK._consistent_ICs,_handle_M,__init__")])
p("C15","Stiffness detection is advisory only",
 "Switching stiffness detection on, off, or changing its evaluation budget never changes a solution value, a step or an acceptance, and never raises an exception; it can only cost extra function evaluations and issue warnings. The eigenvalue helper returns the true roots of its quadratic, the larger in magnitude first, and a warning is issued only when its criteria are met.",
 ["inputs","histories","configurations"],"all non-negative budgets, all histories, problems and methods with stiffness detection",
 "Tests run one stiff problem with the default budget; small budgets (which crashed, repaired) and non-interference are not tested.",
 ["extensisq/common.py"],[("detection","extensisq/common.py:RungeKutta._diagnose_stiffness, RungeKuttaNystrom._diagnose_stiffness, stiff_a, stiff_b, stiff_c, stiff_d")])
p("C16","The automatic first step is usable",
 "When the user gives no first step, every solver chooses a positive finite step that is not longer than the distance to t_bound nor max_step (except when that is below the resolution of the time variable). The choice points in the integration direction and does not modify the initial state or derivative.",
 ["inputs"],"all initial states (including zero and huge), derivatives, intervals, tolerances and right-hand sides returning finite values",
 "Tests only see that integrations work; extreme magnitudes, zero derivatives and tight max_step are not reached.",
 ["extensisq/common.py","extensisq/sommeijer.py","extensisq/shampine.py"],[("start step","extensisq/common.py:h_start and its callers; extensisq/sommeijer.py:SSV2stab._init_step_size")])
p("C17","Tolerances and options are validated and applied as documented",
 "Error weights are always strictly positive: atol (scalar or one per component) is used as given unless it is below the tiny limit, rtol is limited to the range from ten unit round-offs to 0.1. Negative tolerances, wrongly shaped atol, non-positive or too long first steps, non-positive max_step, and unknown option values are rejected with an exception for every method; valid values are used unchanged.",
 ["inputs","configurations"],"all tolerance values and option values, all methods",
 "Tests check a handful of invalid values for a few methods.",
 ["extensisq/common.py","extensisq/bogacki.py","extensisq/fine.py","extensisq/murua.py","extensisq/kennedy.py","extensisq/shampine.py","extensisq/sommeijer.py"],[("validation","extensisq/common.py:validate_tol,_init_sc_control,_init_stiffness_detection; constructors")])
p("C18","Sensitivities solve the variational and adjoint equations",
 "The forward sensitivity integrates s' = J s + df/dp from dy0/dp together with the solution, for every number of states and parameters, and returns the state and sensitivity at the end of the interval. The adjoint sensitivities of an end-point function or of an integral over the interval equal the derivative of that quantity with respect to the parameters (including the initial-state and explicit parameter contributions), in both time directions. Forward and adjoint results agree with each other.",
 ["inputs","configurations"],"all problem sizes, parameters (including zero), tolerances given as scalar or sequence, directions, explicit and implicit methods, reuse of a given solution",
 "Tests use one problem with three states and parameters and compare with a reference at loose tolerance.",
 ["extensisq/sensitivity.py"],[("forward","extensisq/sensitivity.py:sens_forward"),("adjoint","extensisq/sensitivity.py:sens_adjoint_end,sens_adjoint_int")])
p("C19","Nystrom methods accept exactly the problems they can solve",
 "The Nystrom methods accept every problem of the form [x, v]' = [v, a], and reject with an exception a problem that at the initial state does not have that form, has an odd dimension, or (for the velocity independent method) has an acceleration that changes with the velocity there. For accepted problems the velocity half of the state is propagated consistently: the user's function is evaluated with the full state, and its acceleration part only is used.",
 ["inputs","configurations"],"all right-hand sides and even/odd dimensions; initial states including zero velocity, equal position and velocity",
 "Tests use one valid and one invalid problem.",
 ["extensisq/common.py","extensisq/fine.py","extensisq/murua.py","extensisq/mikkawy.py"],[("structure check","extensisq/common.py:RungeKuttaNystrom.__init__")])
p("C20","The stabilised method uses enough stages and stays consistent",
 "In every step the stabilised Runge-Kutta-Chebyshev method takes a number of stages that keeps the step inside its real stability interval for the spectral radius in use, or reduces the step when the stage limit is reached. For every number of stages its formula is second-order accurate and the amplification factor is bounded by one over that interval; a user supplied spectral radius is used as given and invalid ones are rejected.",
 ["inputs","histories"],"all spectral radii, step sizes, stage numbers >= 2 and states",
 "Tests run one or two problems with a handful of stage numbers.",
 ["extensisq/sommeijer.py"],[("stage number","extensisq/sommeijer.py:SSV2stab._step_impl"),("stages","extensisq/sommeijer.py:SSV2stab._stages"),("spectral radius","extensisq/sommeijer.py:SSV2stab._rho")])
p("C21","The Adams method keeps its order and step discipline",
 "The variable-order Adams method never uses an order above the user's maximum, changes the order by at most one per accepted step, at most doubles the step and never goes below half of it after success, and halves (or more) after each failure. Whatever the step and order history, its predictor-corrector and its interpolant reproduce every solution that is a polynomial of degree up to the current order.",
 ["histories","inputs"],"all sequences of step sizes, orders, failures; all k_max from 1 to 12",
 "Tests run a few smooth problems at the default k_max; the coefficient recurrences for irregular step histories are not checked against their definition.",
 ["extensisq/shampine.py"],[("coefficients, order and step selection","extensisq/shampine.py:SWAG._step_impl"),("interpolant","extensisq/shampine.py:SwagDenseOutput")])
p("C22","Work counters are truthful",
 "The numbers of function, Jacobian and factorisation evaluations reported with a solution equal the calls really made (excluding the documented exceptions for evaluations spent on approximating Jacobians or spectral radii), and the failed-step counter equals the number of rejected attempts of the most recently constructed solver. A rejected attempt of a non-FSAL method costs one evaluation less than an accepted one, as documented.",
 ["histories","configurations"],"all methods, options and histories of rejections",
 "Tests compare a few evaluation counts to upper limits.",
 ["extensisq/common.py","extensisq/bogacki.py","extensisq/calvo.py","extensisq/cash.py","extensisq/shampine.py","extensisq/sommeijer.py"],[("counters","NFS, NFI, NLS; OdeSolver.nfev/njev/nlu; sommeijer counters")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch); assert x['statement'].count('. ')<=3,(x['id'])
print(len(P))
