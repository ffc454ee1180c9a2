"""Per property: technique (MANIFEST), what is monitored and against which oracle (DESIGN)."""
T = {}


def t(i, tech, how):
    T[i] = (tech, how)


t('C01', 'run-time state monitor: snapshots of every observable part before/after each call, plus write-through aliasing probes',
  'A snapshot of the receiver and of all arguments is taken before each call and compared after it. The result is then *scribbled over* (every reachable array '
  'and unit overwritten, sub-fields included) and the inputs are snapshotted again; then the other way round. Aliasing that no value comparison can see is thus made '
  'visible at the moment it would bite. Same for the arrays handed to constructors.')
t('C02', 'run-time differential monitor: in-place against out-of-place execution of the same call',
  'Two executions of the real code are compared with each other: the in-place one on a deep copy, the other on the original; also along chains of 2 to 5 operations '
  'where each step is run both ways.')
t('C03', 'run-time invariant monitor evaluated after every step of random operation histories, with fault (refused input) injection',
  'An invariant checker (class invariants of all containers, written here from the documentation) runs after each accepted step of a history; refused assignments and '
  'builds must raise and leave the snapshot unchanged.')
t('C04', 'run-time reference-model monitor (dictionary position -> sample) on constructor calls',
  'The harness keeps its own map from coordinates to (value, mask) built from the raw input; the object is read back through index and coordinate queries.')
t('C05', 'run-time reference-model monitor: pointwise evaluation in SI with an independent unit table',
  'Each operator result is compared, at each sample, with numpy evaluation of the operands converted to SI by a unit table kept here (not by unum), with mask and dimension rules.')
t('C06', 'run-time conservation monitor: physical coordinates and values (number x unit) before and after',
  'Conserved quantity: the multiset of (x, y, value, time) in SI. Recomputed from outside after each unit change; scaled by the known factor after each scaling.')
t('C07', 'run-time reference-model monitor (dictionary of samples moved pointwise), composition laws',
  'The sample dictionary is transformed by the plain formula of the transformation and compared sample by sample, mask included; group laws (four quarter turns, inverse moves).')
t('C08', 'run-time reference-model monitor: independent interpolation and index search',
  'Queries are answered again by brute force search over the samples (bounding cell by comparison of coordinates) and by the affine function when the field is affine.')
t('C09', 'run-time reference-model monitor: brute-force neighbours, block averages, invariance of valid samples',
  'Valid samples are compared bit for bit before and after filling; filled ones with a brute force nearest search or with the affine function; reductions with explicit block means.')
t('C10', 'run-time reference-model monitor: sample-by-sample evaluation of each reduction',
  'Every statistic is recomputed from the list of unmasked samples; integrals by explicit trapezoidal sums; zones by an independent flood fill.')
t('C11', 'run-time reference-model monitor: list of (x, y, mask) triples',
  'Each operation on a Profile is mirrored on the plain list of triples and the two are compared, units included.')
t('C12', 'run-time reference-model monitor: list of (x, y, v, orientation) rows under operation histories',
  'A shadow list of rows in SI goes through the same history as the point set; after each step the rows must be the same, in the same order where order is defined.')
t('C13', 'run-time reference-model monitor: list of (time, snapshot) pairs under operation histories; differential per-field execution',
  'A shadow list of (time in s, snapshot of field) pairs goes through the same history; per-field operations are compared with the single-field operation of the same code.')
t('C14', 'run-time reference-model monitor: per-point evaluation over valid instants',
  'Each statistic is recomputed point by point from the instants at which the point is valid.')
t('C15', 'run-time round-trip monitor with operating-system fault injection (ENOSPC, EFBIG, truncated/corrupt files)',
  'Snapshots before export and after import; faults are real ones (/dev/full, RLIMIT_FSIZE at a random byte, missing/wrong paths, damaged files) in scratch folders; '
  'after each fault: an exception, same in-memory object, garbage collector state and open file descriptors as before.')
t('C16', 'run-time round-trip and reference-model monitor over generated files',
  'Files are written by the harness itself from a sample dictionary (or by the library and parsed by the harness); DaVis buffers come from a stand-in reader module.')
t('C17', 'run-time reference-model monitor: analytic derivatives, metamorphic laws',
  'Analytic constants of planted linear/quadratic fields in SI, explicit central differences for arbitrary ones, linearity/offset/rotation laws between executions.')
t('C18', 'run-time trajectory monitor: each segment against an independent integration of the flow',
  'The recorded polyline is an event log: each segment is replayed by a fourth-order integrator on the bilinear interpolation and the end must coincide; stop reasons are classified.')
t('C19', 'run-time reference-model monitor: independent implementation of each criterion, metamorphic laws',
  'Definitions re-implemented point by point from the literature formulas; offsets, scale and rotation laws between executions.')
t('C20', 'run-time reference-model monitor: closed forms, superposition and boundary conditions',
  'Closed-form velocities, sum over members plus images, independent panel solution with analytic integrals; divergence, curl, normal velocity and far-field checks.')
t('C21', 'run-time matching monitor: detected set against planted set (one-to-one), metamorphic laws',
  'Maximum matching between detected and planted critical points (kind, place, orientation); Poincare index sum; commutation with units, origin, scale, mirror.')
t('C22', 'offline log checker: trajectories against planted tracks, linking rules, shadow arrays',
  'Every point of every instant is tagged by its planted track; the trajectories are checked as logs: exactly-once membership, time order, maximum jump, no missed link.')
t('C23', 'run-time reference-model monitor: singular value decomposition made in the harness',
  'Energy, modes (up to sign and rotation inside degenerate groups), coefficients and reconstructions against numpy.linalg.svd of the raw data matrix.')
t('C24', 'run-time reference-model monitor: independent quadratures and ODE solutions',
  'Integral definitions evaluated by dense quadrature; Blasius/Falkner-Skan by a shooting method made here; Thwaites by direct quadrature.')
t('C25', 'run-time reference-model monitor: planted vortices, independent flood fill',
  'The vortex zone is found again by a flood fill and the measures recomputed; planted radius and circulation bound the answers; single and time variants are compared.')
t('C26', 'run-time reference-model monitor: member fields and planted affine function',
  'Answers of the collection against the members that cover the position and against the planted affine function.')
t('C27', 'run-time monitors: independent unit evaluator, call-history checker for the cache, recorded system calls for file deletion',
  'A parser of unit expressions kept here; cached calls logged over several process lives; deletions are observed as recorded os.remove/rmtree calls restricted to a scratch folder.')
t('C28', 'run-time reference-model monitor: direct evaluation of each definition on the point list',
  'Velocities, densities, kernels, fits and hulls recomputed from the list of points in SI.')
t('C29', 'run-time reference-model monitor: explicit Fourier/kernel sums, planted signals',
  'Explicit sums for spectra, densities, correlations and convolutions; planted frequency, phase, lag and parameters for maps, shifts and fits.')
t('C30', 'run-time differential monitor: equality against single-point mutations of the object',
  'Each pair (object, twin) or (object, object with exactly one thing changed) is compared in both orders; the verdict is known by construction.')
t('C31', 'run-time reference-model monitor: exact flow map (matrix exponential) and independent fine integration',
  'Each displacement is compared with the exact motion; exponents with the singular values of the exact flow map; leaving the field is decided on the exact path with a margin; endless loops are caught by the work limit.')
t('C32', 'run-time monitor of the artists on an off-screen canvas and of the navigation state machine, against the data and a model of the window',
  'After each display call the arrays held by the artists left on the axes are read back and compared with the samples, masks, units and ranges of the object; windows are driven by random histories of user actions and compared after each with a model of the index and of the one frame that must be visible.')
