HEAD = """
# DESIGN

## Approach

filterpy is pure Python on numpy: there is no native code, no thread and no file format, so compiler sanitizers and race
detectors have nothing to look at. What can go wrong is what the numbers are. Every property is therefore decided by
*runtime monitoring*: the real code of /repo is run through generated histories of calls (realistic, hostile and stress
workloads) while a monitor watches every call. The deciding step is always an oracle looking at an execution:

- an **online oracle** advances an independent reference next to the real object and judges every single operation
  (dense Gaussian conditioning, explicit least squares, matrix exponentials and quadrature, index arithmetic ...);
- a **twin** runs the same history in another form (another layout, a batch call, a deep copy, a query-free run), and the
  two executions are compared;
- an **offline checker** keeps every array that was handed over or handed out, with its value at the time, and judges the
  complete log when the history ends (aliasing, later modification, recorder contents);
- a **statistical monitor** recovers the random numbers the code drew from what it did with them and tests them with bounds
  whose false-alarm probability is below 1e-12 per case.

A violation is: an oracle mismatch, an exception on a valid input, or a non-finite value from a valid input. All monitors use
public attributes and results only; nothing depends on private names, on the number of random draws, or on the order of
floating-point operations (tolerances scale with the condition of the problem), so behaviour-preserving edits stay quiet.
There are no hooks in /repo.

### Machinery

- `run_check.py` runs one property: forks 8 shards, gives each scenario its case count (`SCENARIOS` in
  `rvmon/props/cNN.py`: function, quick count, thorough count), derives one seed per case from VERIF_SEED, scenario and index,
  collects violations with a replay file (`replays/`, `--replay FILE` runs it again), applies `known_findings.json`, writes
  `evidence/<id>.json` (cases, distinct case descriptions, oracle verdicts by kind, events by kind).
- `rvmon/core.py`: contexts (`ctx.close`, `ctx.true`, `ctx.shape`, `ctx.event`), sharding, evidence. `rvmon/refs.py`: references.
  `rvmon/gen.py`: systems, covariances, lengths, layouts; sizes are also drawn next to the integer literals of the source under
  test, so thresholds somebody writes into the code get exercised. `rvmon/drive.py`, `zoo.py`, `world.py`: drivers for every
  filter class under one interface, and live "worlds" of every class with all their operations.
- `tools/selfcheck.py` (setup_cmd) checks the references against each other and that /repo is what gets imported.
- Warnings of numpy are not violations by themselves.
- A run of a check is deterministic given VERIF_SEED and the tree. Quick runs take 1-25 s on 8 cores, thorough runs 1-10 min.

### Level

Every check is *exploration*: what was executed is judged completely, what was not executed is not covered. Evidence files
say what was observed.
"""
PARTS = {}


def p(i, oracle, limits=''):
    PARTS[i] = dict(oracle=oracle, limits=limits)


p('C01', """Information-form conditioning by Cholesky for each step; for the whole history one dense linear-Gaussian problem in all
states, solved at once (square-root form with QR for the extreme ratios).""")
p('C02', """Symmetry to rounding, smallest eigenvalue against the size of the matrix, and P_prior - P_post positive semi-definite.""",
  """UKF points with negative covariance weights can give an indefinite predicted covariance by construction: such a case ends.
UKF and CKF get exactly one update per prediction (they reuse the propagated points).""")
p('C03', """A second filter in the canonical layout, or with the attribute set for that call; shape of the state after each call;
stored attributes unchanged.""", """Flexible measurement layouts are documented for the linear filter and its functions only
(and the cubature filter through its reshape); other filters get the layout they document.""")
p('C04', """A twin filter stepped in a loop; a stand-in recorder that notes the state at each save().""",
  """GH/GHK batch calls: scalar data; what their recorder holds is not judged. H-infinity: only batch = loop.""")
p('C05', """The filter object run in lockstep; closed forms for scalar problems.""", """Scalar R for scalar problems only, as documented.""")
p('C06', """The operation actually performed next; a twin that is never queried, compared attribute by attribute. The printed form
names the class and shows the values of the attributes it names.""",
  """KalmanFilter.residual_of uses the prior, square-root and fading filters the current state (as their code documents);
log_likelihood_of uses the posterior state.""")
p('C07', """Dense conditioning on the union of the measurements, all permutations and partitions drawn at random.""",
  """update_sequential: column states, S and likelihood are not claimed by it.""")
p('C08', """Bitwise comparison before and after; a twin without the missing updates.""",
  """IMM and MMAE have no missing-measurement operation. Likelihood after a missing measurement is undefined and not judged.""")
p('C09', """All records recomputed from the state reported before the operation; a log of all arrays handed out, with their values,
compared at the end; argument buffers are overwritten by the caller after each call, and the estimate is edited in place between steps.""",
  """The order filters (g-h, fading memory) update their x where it is, by design; omega and likelihood of an IMM are working arrays.""")
p('C10', """Cholesky log density of the innovation; joint log evidence of the whole record; outliers down to underflow.""")
p('C11', """The smoothing problem of the whole record as one whitened least-squares problem (QR). For nonlinear models the
sigma-point smoothing recursion, written independently.""", """Records without controls (the smoother has none);
F[k+1], Q[k+1] lead from k to k+1 in the method, as the filter pass returns them.""")
p('C12', """Least squares over exactly the data each stored estimate may depend on.""")
p('C13', """The textbook posterior, shared by all formulations.""",
  """Information filter: P_inv positive definite and F invertible, plus starts with zero or partial information.""")
p('C14', """Defining moments of points and weights, closed forms for affine maps, direct sums for the transform.""",
  """The UKF's sqrt_fn argument is ignored by the library (the point class holds it).""")
p('C15', """The linear update at the returned Jacobian and h; recorded arguments of the user functions.""")
p('C16', """Moment matching recomputed from the points the point family gives for the current belief.""")
p('C17', """Moment matching with 2n points of the reference; transform against plain sums.""")
p('C18', """Sample moments; the perturbation of each member solved out of its movement, with chi-square type bounds on mean,
covariance and independence; convergence to the Kalman filter at rate 1/sqrt(N).""",
  """The covariance after an update is P - K S K' and not the sample covariance (documented); one update per prediction; N >= 2.""")
p('C19', """An independent mixing recursion (mixing, per-model Kalman step, likelihoods, moment match).""",
  """The documentation of M contradicts the code about its orientation; the code's row-stochastic reading is used.
At least two filters; predict/update pairs; no missing measurements. After likelihoods underflow only invariants are judged.""")
p('C20', """Prior times product of Cholesky likelihoods, renormalised; moment match.""", """Members like KalmanFilter; no missing measurements.""")
p('C21', """Full filter started at the fixed point of the Riccati equation.""")
p('C22', """Explicit weighted least squares; variances from the impulse response of the filter itself.""")
p('C23', """Defining recursion; Lyapunov equation of the transition matrix read off the filter's responses.""",
  """optimal_noise_smoothing and the Benedict-Bordner gains through their defining relations.""")
p('C24', """Batch polynomial fit (scaled Vandermonde, QR) of everything since the last reset and its covariance.""",
  """Judged from n >= order + 1 on; before that only that the answer exists. update() returns its own state array.""")
p('C25', """Index arithmetic on the grid; for histories exact enumeration.""", """Even kernels may be centred on either middle cell.""")
p('C26', """Hard bounds per run; Bernstein bounds on mean counts; joint counts for (in)dependence of the strata.""",
  """The integer part of residual resampling as computed in floating point.""")
p('C27', """Matrix exponential by scaled Taylor series and Gauss-Legendre quadrature of the propagated noise; exact rationals for the
ready-made matrices.""", """order_by_derivative is reached only through the noise functions. linear_ode_discretation with a non-square L needs Q.""")
p('C28', """Exact Taylor coefficients; polynomial trajectories.""", """KNOWN FINDING kinematic-kf-H, see below.""")
p('C29', """Deep copies taken independently at each save().""", """Private attributes with skip_private; attributes that cannot be copied must be ignored by name.""")
p('C30', """Closed forms with Cholesky / erf / eigenvalues; Kolmogorov-Smirnov type bound for Student-t variates (location-scale).""")
p('C31', """Values at hand-over; solo runs of interleaved histories; deep copies; repeated runs from one seed; arguments overwritten after the call.""",
  """Attributes assigned by the user are the user's sharing and references to f.x retained by the user are not claimed.
EnsembleKalmanFilter.initialize may adopt its arrays.""")
p('C32', """Exact rationals / stability polynomial, definitions, deep copies.""")
p('C33', """Conditioning of the joint Gaussian of state and correlated measurement.""")
p('C34', """Artists read back from matplotlib (Agg backend) against closed forms.""",
  """plot_gaussian_pdf takes variance or std, with variance=None for std; the length of a drawn semi-axis is not judged, only its
direction and proportion.""")
p('C35', """Documented bounds on both sides; documented defaults; state before and after a refused operation.""",
  """EKF, UKF, CKF, fixed-lag and H-infinity constructors do not document size checks. Refusal without change of state is claimed for
KalmanFilter and CubatureKalmanFilter (state, covariance, copies, z, model matrices).""")
p('C36', """The original object going on under the same calls; for pickles also the complete public state.""",
  """The fixed-lag smoother is only pickled (its window is part of its history). Unscented and cubature filters are rebuilt between an update and
the next prediction (their points belong to the prediction). A rebuilt bank shows its combined estimate from its next call on.""")
p('C37', """Settings and generator states before and after; the same run without nesting; the same histories run alone (switch interval 1 us).""",
  """Threads share no object; sampling classes are left out of the thread runs because the random stream is shared by design.""")
p('C38', """State before the call; a twin object in whose history nothing failed.""",
  """After a failed prediction of an unscented or cubature filter the next call is again a prediction (its points may be half moved). Failures inside
the filters of a bank and the reports of a failed step (residual, gain, innovation covariance) are not judged.""")

p('C39', """The same call, or the same history of a live object, with plain arrays of doubles.""",
  """Single precision (and 16-bit integers, which scipy computes with in single precision) only to 2e-2. Lists stand for arrays only where
documented. Probability arrays of discrete_bayes are documented as floating point.""")
p('C40', """The same history in the original units, converted exactly (factors are powers of two).""",
  """The H-infinity filter (its weights are absolute). Densities below the smallest double.""")
p('C41', """A new object constructed with the present model and state; a twin that received the same numbers by assignment; what was set, read back.""",
  """Editing in place what a property hands out as a computed copy (P, Q, R of the square-root filter, V of the H-infinity filter). Working arrays
(omega and likelihood of the IMM estimator, M of the square-root filter). Weights copied from the sigma points at construction.""")
p('C42', """The same measurement (reachable size of the object and of all library modules, lines executed per step, traced memory of library frames, weak
references to data handed over) early and late in the same run.""",
  """xSmooth of the fixed-lag smoother and Saver histories, which are documented to grow. Time spent inside numpy.""")

TAIL = """
## Sanitizers

filterpy contains no compiled code; its extension-module dependencies (numpy, scipy) are third-party. Address, thread, memory and
undefined-behaviour sanitizers therefore cannot observe anything of filterpy itself and are not used. The analogue of a memory
checker for this code base is the aliasing and mutation monitoring of C09, C29 and C31.

## Genuine defects

69 defects were repaired in /repo (one `fix:` commit each) and are listed in `known_findings.json` under `fixed` with the check
that reports them when the commit is reverted (each was confirmed on a copy with the commit reverted).

Known finding (kept, not repaired): **C28 kinematic-kf-H**. `kinematic_kf(dim > 1)` builds one measurement row summing all positions
although the documentation promises one position per dimension. Changing it changes the shape users must pass (dim_z=1) and an
existing test relies on the present shape, so it is recorded, not repaired.

## False alarms met and what was done

- C33 `correlated`: the simple covariance form loses symmetry by rounding over long histories, which the next inverse amplifies.
  The workload now hands the filter a symmetrised covariance when asymmetry exceeds 1e-11.
- C19 `identical`: denormal likelihoods carry few digits. Probabilities are not judged on steps whose log-likelihood is below -600.
- Earlier drafts of C14/C16 (negative weights), C20/C19 (underflow), C23 (gains outside the stability region) and C26 (weights not
  summing to one within rounding) were narrowed to the documented domain, as listed under "Left out".

## H-infinity filter

The library calls its numerics untested and possibly wrong. Only interface-level claims are made: batch = loop (C04), queries (C06), missing
measurements (C08), isolation (C31), printing (C06, C32), defaults (C35).
"""
