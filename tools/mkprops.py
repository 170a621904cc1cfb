#!/opt/venv/bin/python
"""writes /verif/properties.jsonl (the single place the property texts are kept)"""
import json, os
K = 'filterpy/kalman/'
KF, EKF, UKF, CKF, ENKF = (K + f for f in ('kalman_filter.py', 'EKF.py', 'UKF.py', 'CubatureKalmanFilter.py', 'ensemble_kalman_filter.py'))
IMM, MMAE, INF, SR, FAD, FLS = (K + f for f in ('IMM.py', 'mmae.py', 'information_filter.py', 'square_root.py', 'fading_memory.py', 'fixed_lag_smoother.py'))
SIG, UT = K + 'sigma_points.py', K + 'unscented_transform.py'
HINF = 'filterpy/hinfinity/hinfinity_filter.py'
GH, MEM, LSQ = 'filterpy/gh/gh_filter.py', 'filterpy/memory/fading_memory.py', 'filterpy/leastsq/least_squares.py'
DB, MC, ST = 'filterpy/discrete_bayes/discrete_bayes.py', 'filterpy/monte_carlo/resampling.py', 'filterpy/stats/stats.py'
HLP, DISC, KIN = ('filterpy/common/' + f for f in ('helpers.py', 'discretization.py', 'kinematic.py'))
P = []


def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=' '.join(text.split())),
                  why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=' '.join(mech.split()), where=', '.join(files))])))


p('C01', 'The Kalman filter estimate is the exact Gaussian posterior after any history',
  """After any sequence of predictions and updates of the linear Kalman filter, its state and covariance
  equal the mean and covariance of the exact Gaussian posterior of the system described by the model
  matrices in force at each call (transition, process noise, control, measurement model, measurement
  noise, fading factor), given all the measurements so far.
  This holds however matrices are changed between calls or overridden for one call, also with
  singular process noise, very vague priors or very precise sensors.""",
  ['histories', 'inputs', 'configurations'],
  'every system size, every model, every interleaving of predict and update calls, overrides, attribute changes',
  'tests run a few fixed constant-velocity models and mostly look at plots or at loose tracking error',
  [KF], 'predict() and update() arithmetic: F x + B u, alpha^2 F P F^T + Q, Joseph-form update')

p('C02', 'Covariances stay symmetric positive semi-definite and no update inflates them',
  """The covariance every recursive filter of the library reports is, after every predict and update,
  symmetric and positive semi-definite to rounding error.
  Incorporating a measurement never increases the uncertainty in any direction in the Kalman filter family,
  and for the linear Kalman filter the covariance remains valid under extreme ratios between prior and
  sensor variance.""",
  ['histories', 'inputs', 'configurations'],
  'all filters (linear, square-root, information, fading, extended, unscented, cubature, ensemble, IMM, multiple-model), all histories',
  'loss of symmetry or definiteness needs long or badly scaled histories that the tests never run',
  [KF, SR, INF, FAD, EKF, UKF, CKF, ENKF, IMM, MMAE], 'Joseph form, square-root propagation, symmetric sums of outer products')

p('C03', 'Measurement layout, state layout and overrides do not change the estimate',
  """The linear Kalman filter gives the same estimate whichever accepted layout the measurement comes in
  (scalar, list, tuple, row, column, one-dimensional array), and whether the state is kept as a column or as a
  one-dimensional array, and it keeps the layout of its state.
  Passing a matrix (or a scalar for a noise matrix) for one call is equivalent to setting the corresponding attribute for that call
  only, and it never changes the stored attribute, for every filter that accepts such overrides.""",
  ['inputs', 'histories', 'configurations'],
  'all layouts, all subsets of overridden matrices, all filters offering overrides',
  'tests use one layout per test and rarely override more than one matrix',
  [KF, SR, INF, FAD, EKF, UKF, CKF, ENKF, HLP], 'reshape_z, default-argument handling in predict()/update()')

p('C04', 'Batch filtering equals running the same steps one at a time',
  """Filtering a whole sequence in one batch call returns exactly the means and covariances, priors and posteriors, in
  the documented order, that a loop of single predict and update calls would produce with the same per-step matrices and controls,
  including missing measurements and updating first; it leaves the filter in the same final state.
  A recorder passed to a batch call is triggered once per epoch and holds the per-step values.
  The g-h family's batch calls return the initial value followed by every step and do not modify the filter.""",
  ['inputs', 'histories', 'configurations'],
  'all lengths (from one), missing measurements anywhere, all combinations of per-step lists, both orders of update/predict, linear, fading, unscented, H-infinity and g-h batch calls',
  'tests compare batch and loop for one constant model without per-step lists or missing data',
  [KF, FAD, UKF, HINF, GH], 'batch_filter() in each class and the module-level batch_filter()')

p('C05', 'The stateless functions compute what the filter objects compute',
  """The stateless predict, update, steady-state, batch and smoothing functions of the linear Kalman filter return,
  for the same inputs, what the filter object would hold after the corresponding call, for vector and for scalar problems.
  The additional values an update returns on request (residual, gain, innovation covariance, log-likelihood) are those of that update.""",
  ['inputs', 'histories'],
  'all sizes, controls, fading factors, missing measurements, scalar problems',
  'tests call them on one-dimensional or one fixed problem each',
  [KF], 'module-level predict/update/predict_steadystate/update_steadystate/batch_filter/rts_smoother')

p('C06', 'Query functions tell the truth and change nothing',
  """Asking a filter for its next prediction, for the result of an update, for the residual of a
  measurement or for the measurement of a state returns what the real operation would produce, and any number of
  such queries, interleaved anywhere in a history, leaves every later result of the filter unchanged.
  Reading reported quantities such as likelihood or Mahalanobis distance, and printing or representing a filter, likewise changes nothing.""",
  ['histories', 'inputs'],
  'all histories with queries interleaved at arbitrary points, all filters that offer them',
  'tests call each query once, if at all',
  [KF, SR, FAD, EKF, HINF, INF, UKF, CKF, IMM], 'get_prediction, get_update, residual_of, measurement_of_state, lazily computed properties')

p('C07', 'Independent measurements can be fused jointly, one by one, in any order',
  """Incorporating a set of measurements with mutually independent noise gives the same estimate
  whether they are stacked into one update, incorporated one after the other in any order, or incorporated in consecutive
  slices by the sequential update.
  This holds for the linear filter, its square-root and information forms, and the extended filter with linear measurements.""",
  ['inputs', 'schedules'],
  'all partitions and all orders of the components of a measurement, all sizes',
  'one fixed example for the sequential update, no orderings',
  [KF, SR, INF, EKF], 'update(), update_sequential()')

p('C08', 'A missing measurement leaves the estimate exactly at the prediction',
  """Updating with a missing measurement changes neither the state nor the covariance of any filter, resets the residual (where the filter documents that),
  and records that there was no measurement and that the posterior is the prediction.
  Filtering a sequence in which some measurements are missing is the same as filtering it with the updates at those times left out.""",
  ['histories', 'fault_sequences', 'configurations'],
  'drop-outs at any position, runs of drop-outs, first and last step, every filter that accepts a missing measurement',
  'a single None in one or two tests',
  [KF, SR, INF, FAD, EKF, UKF, CKF, ENKF, HINF], 'the z is None branch of each update()')

p('C09', 'The quantities a filter reports about its last step are those of that step',
  """After every predict and update of the linear, square-root, fading, extended, unscented and cubature filters, the prior and posterior
  copies, the measurement, the residual, the gain, the innovation covariance and its
  inverse are mutually consistent and are those of that very step: the residual is measurement minus predicted measurement, the
  innovation covariance is the predicted measurement covariance plus noise, and gain times residual is the correction applied.
  The ensemble filter and the IMM and MMAE banks keep their prior and posterior copies likewise. Values handed out for one step are not
  altered by later steps, and the records of a step are not altered when the user corrects the present estimate in place.""",
  ['histories', 'inputs'],
  'all histories with overrides, changing measurement sizes and missing data',
  'tests never read most of these attributes after an override or check that they survive later steps',
  [KF, SR, FAD, EKF, UKF, CKF, INF, ENKF, IMM, MMAE], 'x_prior, P_prior, x_post, P_post, z, y, K, S, SI bookkeeping')

p('C10', 'Reported likelihoods are the true Gaussian densities of the measurements',
  """After every update, the log-likelihood a filter reports is the log density of the measurement under its
  predictive distribution, the likelihood is its exponential and never zero, and the Mahalanobis distance is that of the innovation.
  They always refer to the latest update, so that their sum over a run is the log evidence of all the measurements of a linear model.""",
  ['histories', 'inputs'],
  'all histories, measurement sizes, outliers up to underflow; linear, square-root, fading, information, extended, unscented and cubature filters',
  'tests check the sign or a single value',
  [KF, SR, FAD, INF, EKF, UKF, CKF, ST], 'log_likelihood, likelihood, mahalanobis properties; stats.logpdf')

p('C11', 'The RTS smoothers return the exact posterior given the whole measurement record',
  """Smoothing the output of a filter pass gives, for every step, the mean and covariance of that state given all the
  measurements of the pass, for any time-varying transition and process-noise matrices and for any length including one.
  The method, the stateless function and, on linear models, the unscented smoother agree; the inputs are not modified and the last step is returned
  unchanged.""",
  ['histories', 'inputs', 'configurations'],
  'all lengths, time-varying models, missing measurements, row or column state, variable time steps',
  'tests plot smoothed tracks or compare with constant models only',
  [KF, UKF], 'rts_smoother() of KalmanFilter, module function, UnscentedKalmanFilter')

p('C12', 'The fixed-lag smoother returns the estimate of step k-N given data up to step k',
  """Every estimate the fixed-lag smoother stores equals the posterior mean of that state given all measurements up to
  N steps later (or up to the last one received, for the most recent states).
  Smoothing one measurement at a time or a whole batch gives the same results.""",
  ['histories', 'inputs', 'configurations'],
  'all lags, lengths shorter and longer than the lag, controls, asymmetric models, vector states and measurements',
  'one test with a constant-velocity model and a loose variance comparison',
  [FLS], 'smooth(), smooth_batch()')

p('C13', 'All formulations of the filter agree with the Kalman filter on linear problems',
  """On linear models, the square-root, information, fading-memory (at any fading factor), extended, unscented (with every
  sigma-point family) and cubature filters produce the same states, covariances, residuals and likelihoods as the
  linear Kalman filter, throughout any common history.""",
  ['histories', 'inputs', 'configurations'],
  'all linear systems and histories including controls, overrides and missing measurements',
  'tests compare pairs of filters on one fixed constant-velocity model with loose tolerances',
  [KF, SR, INF, FAD, EKF, UKF, CKF, SIG, UT], 'predict()/update() of each formulation')

p('C14', 'Sigma points and the unscented transform reproduce the moments they represent',
  """For every sigma-point family, all parameter values and any mean and covariance, the weights for the mean sum to one, the weighted mean of the points is the
  given mean and their weighted covariance is the given covariance.
  The unscented transform returns the weighted mean and covariance of the points it is given (plus the noise), is exact for affine maps, and
  honours custom mean, residual, subtraction and square-root functions.""",
  ['inputs', 'configurations'],
  'all dimensions, parameters (alpha, beta, kappa), scales, badly conditioned covariances, custom functions',
  'tests look at the weight sum and one or two fixed covariances',
  [SIG, UT], 'MerweScaledSigmaPoints, JulierSigmaPoints, SimplexSigmaPoints, unscented_transform()')

p('C15', 'The extended filter is the Kalman filter of the linearised problem',
  """For any nonlinear measurement function and Jacobian the extended filter updates exactly as
  the Gaussian update linearised at the current state, with the residual taken from the nonlinear function (or a user-supplied residual).
  User functions get the current state and their extra arguments, and the combined predict-and-update call
  equals a predict followed by an update.""",
  ['inputs', 'histories'],
  'all measurement functions, extra arguments, angular residuals, overridden noise, row and column states',
  'one radar example whose result is only plotted or compared with a stored variance',
  [EKF], 'update(), predict(), predict_update()')

p('C16', 'The unscented filter computes the unscented moments of the given nonlinear model',
  """For any nonlinear transition and measurement functions, prediction and update of the unscented filter equal the Gaussian
  moment-matching formulas evaluated with the sigma points and weights of its point family.
  Extra arguments reach the user functions, the time step given for one call is used for that call only, and user-supplied mean,
  residual and addition functions are used wherever states or measurements are averaged, subtracted or corrected.""",
  ['inputs', 'histories', 'configurations'],
  'all models (also with angles), all point families, overrides, missing data, multi-sensor updates',
  'tests compare a few tracks with loose error bounds and never check argument routing',
  [UKF, UT, SIG], 'predict(), update(), compute_process_sigmas(), cross_variance()')

p('C17', 'The cubature filter computes the spherical-cubature moments of the given model',
  """For any nonlinear model, prediction and update of the cubature filter equal the Gaussian moment-matching formulas
  evaluated with the 2n equally weighted cubature points of the current belief.
  The cubature points have exactly the mean and covariance of the belief they represent, and user-supplied mean and residual functions are used throughout.""",
  ['inputs', 'histories'],
  'all models, dimensions, extra arguments, overridden noise',
  'tests compare one example with the unscented filter at loose tolerance',
  [CKF], 'spherical_radial_sigmas(), ckf_transform(), predict(), update()')

p('C18', 'The ensemble filter is the perturbed-observation ensemble update of its members',
  """After every prediction the ensemble filter's state and covariance are the sample mean and sample covariance of its ensemble (after an update the state still is), prediction moves
  every member by the user's transition function plus process noise of the specified covariance, and an
  update moves every member by the gain formed from the ensemble's sample covariances times its own perturbed innovation.
  On linear problems the ensemble estimate converges to the Kalman filter's as the ensemble grows, and the ensemble drawn initially has the given mean and covariance.""",
  ['inputs', 'histories', 'schedules'],
  'all models, ensemble sizes, noise overrides, random streams',
  'tests run one random stream and assert nothing about the ensemble',
  [ENKF], 'initialize(), predict(), update()')

p('C19', 'The interacting multiple model estimator computes the exact mixing recursion',
  """The interacting-multiple-model estimator's mode probabilities, mixing probabilities, mixed initial conditions and combined estimate follow the textbook
  recursion for the given mode-transition matrix and the models' likelihoods, over any run, and the probabilities stay a
  distribution.
  The combined state and covariance are the moment match of the mixture of models, and identical models reproduce the plain filter.""",
  ['histories', 'inputs', 'configurations'],
  'any number of models, transition matrices, initial probabilities, outliers that make all likelihoods tiny',
  'tests run two fixed examples and mostly plot',
  [IMM], 'predict(), update(), mixing and combination')

p('C20', 'The multiple-model bank weighs its filters by Bayes\' rule',
  """The multiple-model filter bank multiplies each model's probability by the likelihood of the measurement and
  renormalises, so that the probabilities always form a distribution proportional to prior times
  the product of likelihoods.
  The bank's state and covariance are the moment match of its filters' estimates under the current probabilities.""",
  ['histories', 'inputs', 'configurations'],
  'any number of models, histories, initial probabilities',
  'one test that checks only the most likely filter',
  [MMAE], 'predict(), update()')

p('C21', 'Steady-state filtering equals the full filter once the gain has converged',
  """With the converged gain in place, the steady-state prediction and update produce the same states as the full filter
  at its fixed point, and never touch covariance or gain.
  Their missing-measurement, control, override and record-keeping behaviour is that of the full operations.""",
  ['histories', 'inputs'],
  'all stable linear systems, controls, missing measurements, layouts',
  'one fixed system with a loose tolerance',
  [KF], 'predict_steadystate(), update_steadystate() in class and functional form')

p('C22', 'Fading-memory filtering is exponentially weighted estimation',
  """The polynomial fading-memory filter of each order produces the exponentially discounted least-squares polynomial
  estimate in the limit and tracks polynomials of its order without error, and the variances and truncation errors it reports are those of its
  own recursion.
  The general fading-memory Kalman filter equals a Kalman filter whose predicted covariance is inflated by the square of its fading factor, and with a factor of one is the plain filter.""",
  ['histories', 'inputs', 'configurations'],
  'all orders, memory factors, time steps, signals',
  'one comparison with the g-h-k filter at one factor and unit time step',
  [MEM, FAD, KF], 'FadingMemoryFilter.update(), P, e; FadingKalmanFilter.predict()')

p('C23', 'g-h and g-h-k filters follow their recursion and report its true variance',
  """The g-h, g-h-k and order-selectable filters compute prediction, residual and correction by their defining
  recursion, for scalars and arrays, with per-call gains affecting that call only, and agree with one another where they overlap.
  The variance-reduction factors and bias they report are those of that recursion driven by unit white noise or a constant jerk, and
  the gain-selection helpers return the optimal or critically damped gains they are named for.""",
  ['histories', 'inputs', 'configurations'],
  'all gains in the stable region, time steps, signals, state shapes',
  'tests compare the filters with each other at unit time step for one gain set; variance factors are only compared with themselves',
  [GH], 'GHFilter, GHKFilter, GHFilterOrder, VRF, VRF_prediction, bias_error, gain helpers')

p('C24', 'The recursive least-squares filter is the ordinary least-squares polynomial fit',
  """After any number of measurements at least equal to its number of coefficients, the recursive least-squares filter's state is the value and derivatives at the current
  time of the least-squares polynomial of its order through all measurements so far.
  The standard deviations it reports are those of that estimator, the reported residual is that of the last measurement, and a reset returns it to its initial condition.""",
  ['histories', 'inputs'],
  'all orders, time steps, lengths from one, signals, resets at any point',
  'tests track one noisy line or parabola with loose bounds',
  [LSQ], 'update(), errors(), reset()')

p('C25', 'The discrete Bayes functions are Bayes\' rule on a finite grid',
  """A discrete update returns the normalised product of likelihood and prior; a prediction moves the distribution by the offset and
  convolves it with the kernel so that total probability is preserved, wrapping around by default and otherwise filling outside the domain
  as requested.
  Results are distributions for all valid inputs and the inputs are never modified except as documented by normalisation in place.""",
  ['inputs', 'histories'],
  'all lengths, offsets (negative, larger than the domain), kernels of every width, modes',
  'a few fixed examples',
  [DB], 'normalize(), update(), predict()')

p('C26', 'Resampling selects particles in proportion to their weights',
  """Every resampling method returns as many valid indexes as there are weights, never selects a particle of zero weight, and
  selects each particle in expectation in proportion to its weight, for every weight vector that sums to one up to rounding.
  Systematic and stratified resampling keep each count within one or two of its expectation as documented, and residual
  resampling keeps at least the integer part.""",
  ['inputs', 'schedules'],
  'all weight vectors (degenerate, uniform, with zeros, lists and arrays), all random streams',
  'no existing test exercises resampling',
  [MC], 'residual_resample, stratified_resample, systematic_resample, multinomial_resample')

p('C27', 'Discretised process noise and transition matrices are the exact integrals',
  """The discretised transition matrices are the matrix exponentials of the continuous model and the discretised process noise is
  the exact integral of the propagated noise, for any continuous model and time step.
  The ready-made discrete and continuous white-noise matrices are those of the kinematic model of the requested order, laid out in the requested ordering, and compose over consecutive time steps.""",
  ['inputs', 'configurations'],
  'all orders, time steps, block sizes, orderings, general continuous models',
  'two orders at fixed time steps',
  [DISC], 'Q_discrete_white_noise, Q_continuous_white_noise, van_loan_discretization, linear_ode_discretation')

p('C28', 'Kinematic models are exact Taylor transitions in the requested layout',
  """The kinematic transition matrix of any order is the exact Taylor transition for its time step, and the ready-made kinematic filter has that
  transition for every dimension in the requested state ordering.
  The ready-made filter has identity noise and covariance matrices, and measures positions only: the position in the one-dimensional case.""",
  ['inputs', 'configurations'],
  'all orders, dimensions, time steps, orderings, provided filters',
  'orders up to two are compared with literals',
  [KIN], 'kinematic_state_transition(), kinematic_kf()')

p('C29', 'A recorder keeps an exact, independent copy of every recorded step',
  """The recorder holds, for every recorded call, the value each attribute and property of the watched object had at that moment, in
  order, independent of anything that happens to the object afterwards, and recording does not alter the object.
  Filtering of private, callable and ignored attributes, conversion to arrays and flattening keep exactly the requested data.""",
  ['histories', 'configurations'],
  'all filters, histories, option combinations',
  'tests record a handful of steps of three filters and check lengths',
  [HLP], 'Saver')

p('C30', 'Gaussian helper functions compute the exact Gaussian quantities',
  """Density, log-density, likelihood, Mahalanobis distance, probability of an interval, sum, product and multivariate product of Gaussians, the
  covariance ellipse and the normalised estimation error squared equal their mathematical definitions for all means, (co)variances and
  accepted argument layouts.
  Student-t variates follow the requested distribution.""",
  ['inputs'],
  'all dimensions, scales, layouts (scalars, lists, row and column vectors), full and diagonal covariances',
  'a few literal values',
  [ST], 'gaussian, mul, mul_pdf, add, multivariate_gaussian, multivariate_multiply, logpdf, log_likelihood, mahalanobis, norm_cdf, covariance_ellipse, NEES, rand_student_t')

p('C31', 'Filters neither modify their inputs nor influence one another',
  """No library call modifies the arrays or lists the caller passes in, unless modification is its documented purpose, and an array
  handed to one filter and later used by the caller or by another filter keeps its value.
  Any two filter objects are independent however their calls interleave, copies of a filter continue identically, and the same calls with the same random seed give the same results.""",
  ['histories', 'schedules', 'inputs'],
  'all filters, interleavings of several objects, shared matrices, deep copies taken at any point',
  'each test uses one object with private arrays',
  [KF, SR, INF, FAD, EKF, UKF, CKF, ENKF, IMM, MMAE, FLS, HINF, GH, MEM, LSQ, DB, MC, ST, DISC, HLP], 'value semantics of attributes; no module-level or class-level state')

p('C32', 'Numerical helper functions compute what they document',
  """The fourth-order Runge-Kutta step is exact for polynomials up to its order and converges at fourth order, the diagonal inverse and the sum of outer products equal their
  definitions, and measurement reshaping accepts exactly the convertible shapes.
  Comparing two filters lists exactly the differing attributes, copying states makes the destination behave like the source without sharing data,
  and printable representations show the data for every object.""",
  ['inputs', 'configurations'],
  'all shapes, functions, object types',
  'inverse and outer product on one example each; comparison and copy are not tested',
  [HLP], 'runge_kutta4, inv_diagonal, outer_product_sum, reshape_z, compare_kf, copy_states, pretty_str, repr_string')

p('C33', 'The correlated-noise update is the exact posterior under correlated noise',
  """When process and measurement noise are correlated, the correlated update yields the exact Gaussian posterior for the given
  cross covariance, with matching residual, gain, innovation covariance and likelihood.
  With zero cross covariance it coincides with the ordinary update, including its treatment of missing measurements and layouts.""",
  ['inputs', 'histories'],
  'all sizes, cross covariances, layouts, overrides',
  'one test with zero correlation',
  [KF], 'update_correlated()')

p('C34', 'Plotting helpers draw the data they are asked to draw',
  """Curves, ellipses and surfaces drawn by the plotting helpers have the coordinates of the requested distribution: density or cumulative
  values of the given Gaussian, ellipse centre, axes and orientation of the given covariance at each requested deviation, and the
  axes limits and labels requested.
  They draw on the given axes where one can be given and reject contradictory arguments.""",
  ['inputs', 'configurations'],
  'all means, covariances, deviation lists, options',
  'tests only check that plotting does not raise',
  [ST], 'plot_gaussian_pdf, plot_gaussian_cdf, plot_gaussian, plot_discrete_cdf, plot_covariance, plot_3d_covariance')

p('C35', 'Invalid configurations are rejected, valid ones accepted',
  """Constructors and operations refuse the sizes, orders, parameters, shapes and combinations they document as invalid with an error, before changing
  any state, and accept every documented valid one.
  A freshly constructed filter has the documented default state, covariance and model matrices of the right shapes.""",
  ['inputs', 'configurations'],
  'all dimension and parameter combinations around the boundaries of validity',
  'tests check two or three rejected values',
  [KF, SR, INF, FAD, EKF, UKF, CKF, ENKF, IMM, MMAE, FLS, GH, MEM, LSQ, SIG, DISC, KIN, ST, HLP], 'constructor and argument checks')

p('C36', 'A filter rebuilt from its visible state, or restored, continues identically',
  """What a filter computes next depends only on its public state and model (state, covariance, ensemble, gain in steady state, mode
  probabilities) and on the calls made: a new object given the state and model of another, at any point of any history, continues exactly like
  it, whatever the two objects did before. An object pickled at any point and restored equals the stored one and continues like it.""",
  ['histories', 'crash_points'],
  'all filter classes and banks, any history before and after the point of rebuilding',
  'no test rebuilds or restores a filter in the middle of a run',
  [KF, SR, INF, FAD, EKF, UKF, CKF, ENKF, IMM, MMAE, FLS, GH, MEM, LSQ, HINF], 'predict()/update() and constructors: no hidden state')

p('C37', 'Calls touch nothing outside their objects and may be nested or run in parallel',
  """No call changes process-wide settings (floating-point error handling, print options, warning filters, environment), and only the operations that
  sample (ensemble filter, resampling, Student-t variates) draw from the random streams, reproducibly for a given seed.
  User functions may run other filters inside a call, and filters used in parallel threads compute what they compute alone.""",
  ['schedules', 'histories'],
  'all classes and functions, nesting inside user callbacks, thread interleavings',
  'tests run one filter at a time in one thread and never look at global settings',
  [KF, SR, INF, FAD, EKF, UKF, CKF, ENKF, IMM, MMAE, FLS, GH, MEM, LSQ, HINF, HLP, ST, MC], 'module level of every file; no shared scratch space')

p('C38', 'An operation that fails leaves the estimate as it was',
  """When a user function (transition, measurement, Jacobian, mean, residual, addition, matrix root or inverse) raises inside a prediction or an update, or a
  measurement or control of unusable size is handed over, the exception reaches the caller and state, covariance and ensemble are what
  they were before the call. Repeating the call, or going on without it, gives what it would have given without the failure.""",
  ['fault_sequences', 'crash_points', 'histories'],
  'every user function, failing at any of its calls, at any step of a history',
  'no test lets a callback fail',
  [KF, SR, INF, FAD, EKF, UKF, CKF, ENKF, SIG], 'order of evaluation and assignment in predict() and update()')

p('C39', 'Equal numbers give equal results, however they are stored',
  """Every filter, smoother and library function computes the same estimates from equal numbers, whatever container or type holds them: integer or
  floating-point arrays of any width and byte order, any memory layout (Fortran order, strided, reversed, misaligned, read-only), and
  Python or numpy scalars, in any mixture. No estimate is truncated to the type of an argument.""",
  ['inputs', 'histories', 'configurations'],
  'all classes and functions, all mixtures of representations, along whole histories',
  'tests hand over contiguous arrays of doubles almost everywhere',
  [KF, SR, INF, FAD, EKF, UKF, CKF, ENKF, IMM, MMAE, FLS, GH, MEM, LSQ, HINF, SIG, UT, DISC, KIN, ST, DB, MC, HLP],
  'allocation of result arrays, in-place arithmetic on arguments')

p('C40', 'The choice of units does not matter',
  """Expressing states, measurements or time in other units (per component, with the model expressed accordingly) gives the same estimates,
  covariances, gains, innovations and smoothed histories in those units, the same mode probabilities, and densities that change by the
  volume factor alone. There are no hidden absolute tolerances, floors or regularisation terms.""",
  ['inputs', 'histories', 'configurations'],
  'all stochastic filters and order filters, unit factors from 2^-60 to 2^60, any history',
  'tests work with quantities of order one',
  [KF, SR, INF, FAD, EKF, UKF, CKF, ENKF, IMM, MMAE, FLS, GH, MEM, LSQ, SIG, UT, ST], 'all arithmetic of predict() and update()')

p('C41', 'Changes of the model take effect at the next call',
  """Assigning a model matrix, parameter, user function or state of a live filter, or editing such an array in place, reads back as set and acts
  from the next call on as if the filter had been built that way: no value derived from an earlier model is used.
  The inverse function chosen by the user is the one used.""",
  ['histories', 'configurations', 'inputs'],
  'every class, every model attribute, assignment and editing in place, at any point of any history',
  'tests set the model once before the first call',
  [KF, SR, INF, FAD, EKF, UKF, CKF, ENKF, IMM, MMAE, FLS, GH, MEM, LSQ, HINF], 'attributes read at call time; property setters')

p('C42', 'Memory and work do not grow with the length of the run',
  """Apart from results documented to accumulate (the fixed-lag history, a Saver), the memory a filter holds and the work of one step do not depend
  on how many steps it has run, library functions keep nothing of what they were called with, and data handed over are not hoarded.
  A discarded filter is released together with everything handed to it.""",
  ['histories', 'inputs'],
  'all classes and functions, long histories of all their operations',
  'tests run short histories and never look at sizes',
  [KF, SR, INF, FAD, EKF, UKF, CKF, ENKF, IMM, MMAE, FLS, GH, MEM, LSQ, HINF, DISC, ST, HLP], 'no caches, histories or registries')

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for r in P:
            f.write(json.dumps(r) + '\n')
    print(len(P), 'properties')
