INTRO = '''
# Runtime monitoring of SPECULA – design

(Generated by `tools/design.py` from the checks, the known-findings file and `tools/design_text.py`.)

## Approach

SPECULA is single-threaded Python on numpy: it has no native code of its own, so compiler sanitizers, race detectors and
undefined-behaviour interpreters have nothing to instrument.  Every property is therefore decided by **monitors that watch
executions of the real code**: the real objects are driven through the public step protocol (`setup`, `check_ready`, `trigger`,
`post_trigger`, `finalize`), engine properties through the real `Simul`/`LoopControl`, on random, seeded, hostile workloads.
The deciding step is always an oracle on an observed execution, one of

* an **offline trace oracle** (recording probe objects write an event log of every setup/step/value seen; a model that never looks
  at the engine recomputes what the log must be: C01, C02, C05, C08),
* a **snapshot monitor** (digests of all public state around each call, each change attributed to the running object; also slipped under the workloads of the other checks, so that
  about 60 object types are watched while they do their usual work: C03),
* **differential re-execution** (other process, hash seed, cache state, rank assignment, configuration spelling, replay, offline
  analysis: C04, C05, C06, C08, C25),
* a **ledger** (photons, steps, stored samples, messages – exactly once: C05, C07, C13, C14, C20, C23),
* an **independent reference model** stepped alongside the object (C11, C15–C20, C24, C26, C27),
* **metamorphic relations** (scaling, symmetry, superposition, round trips: C09, C10, C12, C14, C15, C21, C22).

No hooks in /repo were needed: probes are ordinary SPECULA objects in `harness/probes` (the engine can load classes from extra
modules through the documented class-lookup), and monitors wrap bound methods of live instances from outside.

### Harness
`run.sh CXX [--tier quick|thorough] [--seed N] [--section S] [--replay FILE]` → `harness/vf.py`.  A check is a set of *sections*; each
section is a generator of independent random cases (`numpy` generator seeded by property, section, precision, seed and case index).
Cases run in worker processes (one per precision and chunk: `specula.init` is per process), each in its own scratch directory, always
importing SPECULA from /repo's current working tree (`PYTHONDONTWRITEBYTECODE`; nothing is built or cached).
An exception raised inside /repo is a violation (unless the case expects a refusal); an exception raised in the harness makes the
result *inconclusive* (exit 2), never a violation; a section in which no oracle was evaluated is inconclusive too.
Every violation writes a replay file with section, seed, case index and witness; `--replay FILE` reruns just that case.
Evidence (`evidence/CXX.json`) lists, per section, the cases run, those skipped and why, the number of oracle evaluations, and the
counts of every observed event class (`c.saw(...)`: steps seen, values compared, messages delivered, refusals …) and the number of distinct cases.
`VERIF_LINES=DIR` records the executed lines of /repo (used to find what the workloads never reach).

Values fed by the harness to an object under test change in the way producers really change them: in about half of the cases the
array is updated in place, in the others it is replaced (`sp.IN_PLACE`), because a consumer that keeps a reference to an input is
wrong in exactly one of the two.

### Levels
All checks are at the level "held on every execution explored"; they say nothing about paths never driven.
Quick runs take 5–70 s on 8 cores; thorough runs multiply the number of cases by 10–300 and stay below 900 s.
Only the CPU target and numpy can run here (no cupy, no mpi4py): GPU branches are out of reach, and MPI is replaced by
`harness/mpi.py`, a message fabric with the mpi4py interface (forked ranks, random delivery delays that respect per-channel
order, a message ledger, deadlock detection).
'''
HOW = {}
NOTES = {
'C04': 'RandomGenerator with seed=None is random by documentation.',
'C05': 'Left alone: a DataStore on a remote rank does not see values published in finalize().',
'C06': "Left alone: missing required input *lists*, and delays such as ':-2' or ':1', are not refused.",
'C09': 'Restoring without kernel object, object descriptions and verbosity are not judged.',
'C11': 'Modulation of the gain with several numerator taps is only judged when it is constant. False alarm corrected: the reference for first-order low-pass filters predated the repair of their cut-off (C12).',
'C12': 'False alarm corrected: comparison of short truncated impulse responses of slowly decaying loops. Poles/zeros accessors are not judged (get_poles returns reciprocals, pinned by tests; set_poles keeps den[0]=1).',
'C14': "Corner-pixel extrapolation: a repair was attempted (30da296) but moved the reference of test_sh_calibration, so it was reverted (3d54c16) and recorded as a known finding; random piston checks skip resampled fields with opaque pixels. False alarms corrected: tolerance of mirrored Shack-Hartmann images when the field is resampled, transposed rectangular set-ups. Not judged: sign of the laser tilt against the focus, the default beacon focus away from the zenith, sign of pup_shifts (either is accepted), x/y shift labels of EFInterpolator, NaN for a completely dark pupil, p/(p-1) factor of the pyramid modulation.",
'C15': 'Not judged: odd-parity half-pixel conventions, Fresnel propagation with sources at different heights, magnification < 1.',
'C16': 'False alarm corrected: sub-aperture weighting windows compared at the wrong centre in an early reference model.',
'C19': "False alarm corrected: 'rigid-motion-between-states' tolerance on tiny overlaps. A wind that turns during a run turns the strip at its present position (the displacement is a distance along the strip). Not judged: corners of rotated layers, recycling of a finished screen (by design), single-frame cubes.",
'C20': 'False alarm corrected: expectation about FITS output of calibrators with no name. Not judged: singular-value cut-off of rank-deficient matrices, pokes of several modes at once.',
'C21': 'False alarms corrected while writing: spider width tolerance; slaving with no master actuator. Not judged: special_last_petal, piston offsets in m2c with Zernike modes, toccd on fields of non-positive total, Zernike orthogonality on off-centre masks, snapping of centeronpixel within one pixel, thin-plate partition of unity, half-pixel petal centre.',
'C22': 'False alarm corrected: bound on the rank-one humidity model of the Q band. Not judged: refraction between bands (fallback to K), the factor 2 in the slewing wind (pinned by a test), coordinates at infinite height, odd pupil padding, PowerLoss.post_trigger not calling its parent.',
'C23': 'The unwrapping defect has an exact repair (eedf8e9) but it moves test_modal_analysis_unwrapping_physical_propagation from <0.2 to 0.213; reverted (337cbd7) and recorded. False alarm corrected: generation time of averages when the last steps had no refresh. Not judged: S0 scaled by transmission besides the amplitude (pinned), declared PSF pixel size against the even-rounded one, Strehl with time-varying amplitude, non-converged apodisers, half-pixel centring of dark holes.',
'C24': 'Not judged: float32 accumulation in cumulated demodulation, single-pass tilt over n instead of n-1, vector optical gains, filters with zero leading coefficient. The optical-gain compensation is judged as the ratio of the last two optical gains received.',
'C25': 'Not judged: the end_time argument (ignored by the code), several DataStores (targeted replay uses the last), runs whose commands were not stored.',
'C27': 'The known finding: calc_noise_cov_elong uses sub-aperture corners, pinned by the reference data of the test suite; every other statement about it is judged with the pinned coordinates. LIFT is judged on a majority of each batch of images because its iterative search fails on about one in twenty; with fewer than about 20 pixels per grid side the search window does not fit and no statement is made. SPRINT is judged with one modulated mode of azimuthal order three or more for the pyramid (rotationally symmetric modes do not see rotations); several modes at once contaminate each other in the demodulation. Not judged: anamorphosis (marked as not yet implemented in the code), zonal matrices of mirrors with an m2c, sign conventions of the internal SPRINT mirror. False alarms corrected: trigger() called without the readiness test of the loop; a 3-pixel radial mode for rotation estimates.',
'C26': 'False alarm corrected: rounding of energy_th in the FITS card. Not judged: radius of obstructed pupils, images that are not a multiple of the lenslet number, saving before any measurement, generation time of the dark on reset.',
}
BUGS = '''
## Bugs planted blind

Besides the kept bugs below, batches of one- to three-line changes were written from the code and the property texts without
consulting the checks (about 45 so far, over all processing objects: stale caches, aliasing, off-by-one windows, wrong branch, rounding,
state kept across windows) and run against the quick checks.  Each miss led to a stronger workload: inputs replaced as well as updated
in place, winds that turn, seeing that stops, light and apertures that change during a run, null slopes in the other interleave,
one-shot SPRINT updates (forgetting factor and gain law), optical gains that vary, samples published at the end of a run of exactly
k chunks.  What is still missed is listed under the property as *not judged*.

## Planted bugs

Each entry of `seeded/` was written from a property's text, passes the 1268 stable tests and has a demonstration independent of the checks.
'''
OUTRO = '''
'''
