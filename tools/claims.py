B = ('Bounded stand-in (not counted as proved) for the Adams code and complex states: '
     'run-time contract monitors of the unmodified package.')
I = ' and for the implicit methods (modular: step function against the contracts of its helpers, helpers on their bodies)'
K = ' and for the stabilised method (one arbitrary attempt from an arbitrary state)'
R = ' Machine arithmetic is treated as real arithmetic.'
claim('C01', f'Proved for every step of every run of {EXPL}{I}{K}, both directions.{R} The bit-for-bit end point is '
      f'checked in floating point by the monitors. {B}')
claim('C02', f'Proved for every step of every run of {EXPL}{I}{K}, both directions.{R} {B}')
claim('C03', f'Proved for {EXPL}{I}{K}.{R} {B}')
claim('C04', f'Proved for {EXPL}{I}{K}, with symbolic controller parameters.{R} {B}')
claim('C05', f'Proved for {EXPL}: the state after any accepted step is the declared formula, as an identity over '
      f'an uninterpreted right-hand side.{R} {B}')
claim('C06', f'Order conditions evaluated exactly on the tableau read off the terms that the running code '
      f'computes, for {EXPL}; other methods: on the class coefficients and on concrete runs (bounded).')
claim('C07', f'Proved for {EXPL}{I}{K} and every interpolant option, as polynomial identities in theta.{R} {B}')
claim('C08', f'Frame and aliasing obligations proved for {EXPL}{I}{K} and every interpolant option. {B}')
claim('C10', f'Proved for {EXPL}{I}{K}: failure leaves the state, success is finite, retries strictly shorten.{R} {B}')
claim('C22', f'Counter frames proved for {EXPL}{K}; counters of the implicit methods proved equal to the work done (ghost counters). {B}')
claim('C09', f'Proved: constructing any solver (any option, any form of the matrices) and any step of {EXPL} leaves class and '
      f'module variables, default arguments, other solvers and user arrays as they were; a second construction gives the same '
      f'solver; no step depends on the global counters. {B}')
claim('C17', f'Proved for every solver: symbolic tolerances (scalar and per component), first step, max_step and option values are '
      f'used as given or rejected. {B}')
claim('C15', f'Proved: the eigenvalue helper returns the true roots, larger first; the diagnosis changes only its own counters and '
      f'warns only when its criteria are met; no step of {EXPL} depends on those counters or on the option. {B}')
claim('C16', f'Proved for h_start (one component, any finite right-hand side, both directions) and for what every constructor makes of '
      f'its result.{R} {B}')
claim('C18', f'Proved over the contract of solve_ivp: the initial value problems that the three functions pose, and what they make '
      f'of the solutions, for several numbers of states and parameters and both directions.{R} {B}')
claim('C19', f'Proved for all Nystrom solvers, dimensions 1 to 4, arbitrary right-hand sides, both directions. {B}')
claim('C12', f'Proved for the six implicit methods: the stage solver on its body (Newton update with the true residual, convergence '
      f'test, exact solution of linear problems, non-finite evaluations never converge), and every accepted step of any run against '
      f'its contract (all stages solved, at the declared times and known parts; result is the declared combination; the '
      f'factorisation belongs to the Jacobian and step in use; a failed attempt leads to a new Jacobian or a shorter step).{R} {B}')
claim('C20', f'Proved: the stage recurrence for every number of stages and every step (stage times, values, order 2, stability '
      f'polynomial inside the documented interval), the choice of the number of stages, the limits on it, the estimate of the '
      f'spectral radius, the starting step, and one arbitrary attempt of a step from an arbitrary state.{R} {B}')
for i in 'C11 C13 C14 C21'.split():
    NA[i] = 'no obligations yet (work in progress)'
