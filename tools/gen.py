#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below (run by hand, outputs are committed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, technique, note):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    P[-1]['_t'] = technique
    P[-1]['_n'] = note


S = 'specula/'
PO = S + 'processing_objects/'
DO = S + 'data_objects/'
LI = S + 'lib/'
EXPL = 'Held on every execution the workload produced (random, seeded, counted in the evidence); says nothing about paths never driven. Trusts numpy/scipy and the reference model in the check. '

prop('C01', "Data-flow order: same-step inputs come first, ':-1' is one step late",
     "In a simulation built from a configuration, each object runs at most once per step, after every object that produces one of its same-step inputs, and reads the values those objects produced in that very step. An input declared with ':-1' delivers the value its producer had at the end of the previous step, never the current one, whatever kind of object produces it. Neither depends on the order in which objects are listed in the configuration, and objects caught in a same-step cycle are refused or reported and left out, never run in some arbitrary order.",
     ['configurations', 'schedules'], 'all object graphs (fan-in/out, input lists, delayed edges, listing permutations) and all steps',
     'Tests build a handful of small fixed graphs in one listing order; order-dependent staleness appears only for some permutations and producers.',
     [S + 'simul.py', S + 'loop_control.py', S + 'base_processing_obj.py', S + 'connections.py', PO + 'base_filter.py'],
     [('Simul.trigger_order_for', 'specula/simul.py'), ('LoopControl.iter', 'specula/loop_control.py'), ('InputValue/InputList', 'specula/connections.py')],
     'Random-graph workloads run through the real simulation engine with recording probe objects; offline trace oracle (producer-before-consumer, exact value provenance, cross-permutation equality)', EXPL)

prop('C02', 'Simulated time is exact and every object is stepped exactly when due',
     "A run of duration T with step dt started at t0 executes exactly the steps t0+k*dt < t0+T, at exact integer-nanosecond times with no accumulated drift, and seconds/nanosecond conversion is exact to the nearest nanosecond. Every object is set up once before the first step and finalised once after the last; at a step it runs if and only if it has no connected inputs, or one of its same-step inputs was refreshed at that step, or it is a documented time-driven source (a prescribed phase-screen sequence), and what it then publishes carries that step's time. In stepping mode the loop waits before each step and advances by the number of steps the user asks for.",
     ['configurations', 'histories', 'inputs'], 'all dt/T/t0 combinations, refresh patterns of inputs (slow producers, optional inputs, lists), and stepping commands',
     'Tests use a few round time steps and mostly call objects directly; rounding off-by-ones depend on the numeric value of dt.',
     [S + 'base_time_obj.py', S + 'loop_control.py', S + 'base_processing_obj.py', S + 'connections.py'],
     [('BaseTimeObj.seconds_to_t', 'specula/base_time_obj.py'), ('LoopControl.run/iter', 'specula/loop_control.py'), ('checkInputTimes', 'specula/base_processing_obj.py')],
     'Lifecycle event log recorded by probe objects inside the real loop, checked offline against an integer-arithmetic model of time and refresh rules', EXPL)

prop('C03', 'Processing is isolated: only own outputs change, observers are invisible',
     "Running an object changes only that object's own outputs and internal state: the data it receives, and every other object's outputs, are left bit-identical. A value published at a step stays unchanged until its producer runs again. Consequently adding observers (data stores, buffers, printers, displays, PSF or analysis branches) to a simulation never changes any of its other results.",
     ['configurations', 'histories'], 'all processing object types, wirings, and sets of extra observers',
     'Each test looks at the outputs of one object; in-place modification of an input shows only when a second consumer exists.',
     [S + 'processing_objects', S + 'data_objects', S + 'base_processing_obj.py'],
     [('outputs/inputs ownership', 'specula/base_processing_obj.py'), ('local_inputs', 'specula/connections.py')],
     'Snapshot monitor hashing every published data object around each trigger/post_trigger of real simulations (observer-effect differential runs included) and around each step of about 60 object types driven by the workloads of the other checks', EXPL)

prop('C04', 'Same configuration and seeds give bit-identical results',
     "Two runs of the same configuration with the same seeds produce bit-identical outputs, whether repeated in one process, in another process, with another hash seed, or with calibration and phase-screen caches warm instead of cold. Different seeds give different noise and turbulence. A cached file is only ever reused for a request with the same parameters.",
     ['configurations', 'histories'], 'all stochastic objects (turbulence, detectors, generators), run repetitions, process environments and cache states',
     'Tests run once in one process; hidden global random state or stale cache keys show only across runs.',
     [LI + 'phasescreen_manager.py', PO + 'ccd.py', PO + 'random_generator.py', PO + 'atmo_evolution.py', PO + 'atmo_infinite_evolution.py', DO + 'infinite_phase_screen.py', PO + 'atmo_random_phase.py'],
     [('seed handling', 'specula/processing_objects/ccd.py'), ('phase screen cache', 'specula/lib/phasescreen_manager.py')],
     'Differential re-execution monitor: complete simulations rerun across processes, hash seeds and cache states, digests of every output at every step compared', EXPL)

prop('C05', 'Distributing a simulation over ranks does not change its results',
     "Assigning the objects of a simulation to any set of ranks yields, for every object, the same sequence of output values and times as the single-process run, and every rank terminates: each message sent is received by the input it was meant for, with none lost, duplicated or left pending at the end. This holds for same-step and delayed connections, inputs fed by lists of outputs, slow producers and any message timing.",
     ['schedules', 'configurations'], 'all assignments of objects to ranks, edge kinds, and message delivery delays',
     'There is no MPI in the test environment; message matching and delayed-edge termination are only exercised by a real multi-rank run.',
     [S + 'simul.py', S + 'base_processing_obj.py', S + 'connections.py', S + 'loop_control.py'],
     [('send_outputs/send_remote_output', 'specula/base_processing_obj.py'), ('remote inputs', 'specula/connections.py'), ('rank partition', 'specula/simul.py')],
     'Multi-rank execution over an in-process message fabric with injected delays; message ledger (exactly-once, tag matching, quiescence) and per-step differential against the single-rank run; bounded-progress watchdog', EXPL + 'The message fabric replaces mpi4py, which is not installed.')

prop('C06', 'Configurations compose as documented and mistakes are refused',
     "A simulation built from several files, overrides, per-index suffixes, removals, references, dictionary/list references and included data is the same as the one built from the single hand-merged configuration. Unknown classes, parameters, inputs or outputs, wrongly typed connections and missing required inputs are refused before the first step. The effective parameters recorded with the results rebuild the same simulation.",
     ['configurations', 'inputs'], 'all combinations of files, overrides, suffixes, removals and references, and all single mistakes in a valid configuration',
     'Tests cover one example of each mechanism in isolation.',
     [S + 'simul.py', S + 'calib_manager.py', PO + 'data_store.py'],
     [('combine_params', 'specula/simul.py'), ('apply_overrides', 'specula/simul.py'), ('build_objects/connect_objects', 'specula/simul.py')],
     'Generated configuration pairs (composed vs hand-merged) executed and compared; single-fault configuration mutation with refusal oracle; rebuild-from-recorded-parameters differential', EXPL)

prop('C07', 'Stored telemetry is exactly what the simulation produced',
     "Every value an output takes at a step it was refreshed is stored once, in order, with its exact time, in every storage format; with down-sampling by N exactly every N-th refresh is kept and with file splitting the pieces concatenate to the whole. Later changes to the live object do not alter what was stored, and buffers hand out their samples in order without loss or duplication.",
     ['histories', 'configurations'], 'all refresh patterns, run lengths, down-sampling factors, split sizes, buffer sizes, data types and formats',
     'Tests store a few samples with default options; losses occur at the end of the run or for particular length/size ratios.',
     [PO + 'data_store.py', PO + 'data_buffer.py', PO + 'data_print.py', DO + 'time_history.py'],
     [('DataStore', 'specula/processing_objects/data_store.py'), ('DataBuffer', 'specula/processing_objects/data_buffer.py')],
     'History monitor: independent recorder of every published value vs files read back; conservation/ordering/exactly-once oracle', EXPL)

prop('C08', 'Replaying stored data reproduces the original run',
     "A replay built from stored data, in which the stored outputs are read back instead of recomputed, gives for every remaining object the same values at the same times as the original run. This includes delayed connections, values stored at a lower rate than the loop, and runs with several stores.",
     ['histories', 'configurations'], 'all choices of stored outputs, stores, formats and remaining objects',
     'Tests replay one fixed chain once.',
     [S + 'simul.py', PO + 'data_source.py', PO + 'data_store.py'],
     [('build_replay', 'specula/simul.py'), ('build_targeted_replay', 'specula/simul.py'), ('DataSource', 'specula/processing_objects/data_source.py')],
     'Record-and-replay differential: original trace vs replayed trace compared step by step', EXPL)

prop('C09', 'Saved calibration objects are restored identical',
     "Any data object that can be saved and restored comes back equal in everything its users can observe: arrays (values, shape, type), metadata, and the results of every operation computed from it. Saving the restored object again gives the same content. Restoring into a chosen precision only rounds values.",
     ['inputs'], 'all savable data objects with arbitrary contents and metadata, including repeated save/restore',
     'Tests round-trip one small example per class and compare a few attributes.',
     [S + 'data_objects', S + 'base_data_obj.py'],
     [('save/restore', 'specula/data_objects/*.py')],
     'Round-trip monitor over generated objects with behavioural equality oracle (arrays, metadata and results of operations)', EXPL)

prop('C10', 'Copies and array exports are faithful and independent',
     "Copying or transferring a data object to another target gives an equal object, and afterwards neither object changes when the other is modified; setting a value read from one object into another reproduces it exactly. Conversions to plain arrays and to display form keep values, shape and numeric type, in the precision the object was created with.",
     ['inputs', 'histories'], 'all data objects, targets and sequences of copy/modify operations',
     'Tests copy once and compare once; sharing shows only after a later modification.',
     [S + 'base_data_obj.py', S + 'base_time_obj.py', S + 'base_value.py', S + '__init__.py', DO + 'electric_field.py'],
     [('copyTo/transferDataTo', 'specula/base_data_obj.py'), ('to_xp/cpuArray', 'specula/__init__.py')],
     'Random operation sequences over groups of copies with a value-semantics shadow model checked after each operation', EXPL)

prop('C11', 'Temporal control filters obey their difference equation and delay',
     "Each mode of an integrator, IIR, low-pass or state-space filter produces exactly the sequence given by its own coefficients, gain modulation and input history, delayed by the requested number of frames (fractional delays being the linear interpolation of the two neighbouring frames), and a simultaneous undelayed output. Modes never influence each other, coefficient groups apply to the modes they are meant for, and gain changes and resets act exactly from the step they arrive. Wrongly sized commands or gains are refused.",
     ['inputs', 'histories', 'configurations'], 'all coefficient sets, mode groupings, delays, gain modulations, input histories and refresh schedules',
     'Tests check a few steps of small integrators with one delay.',
     [PO + 'base_filter.py', PO + 'iir_filter.py', PO + 'integrator.py', PO + 'dynamic_integrator.py', PO + 'dynamic_iir_filter.py', PO + 'low_pass_filter.py', PO + 'ssr_filter.py', DO + 'iir_filter_data.py', DO + 'ssr_filter_data.py'],
     [('delay buffer', 'specula/processing_objects/base_filter.py'), ('IIR recursion', 'specula/processing_objects/iir_filter.py'), ('state-space step', 'specula/processing_objects/ssr_filter.py')],
     'Online lock-step comparison of real filter objects against an independent per-mode recursion over random histories', EXPL)

prop('C12', 'Filter and loop analysis agrees with the simulated behaviour',
     "The frequency response, rejection and noise transfer functions, stability verdicts, maximum stable gain and resonance reported for a controller are those of the loop that the simulator actually runs with that controller and delay. Filters designed from a cut-off frequency have unit static gain and the requested response at the cut-off. Conversion to and from control-library objects preserves the filter.",
     ['inputs', 'configurations'], 'all stable/unstable controllers, plants, delays and gains away from the stability boundary',
     'Tests check the analysis functions against themselves or known integrator constants, never against a simulated loop.',
     [DO + 'iir_filter_data.py', DO + 'ssr_filter_data.py', PO + 'iir_filter.py'],
     [('frequency_response/RTF/NTF', 'specula/data_objects/iir_filter_data.py'), ('is_stable/max_stable_gain', 'specula/data_objects/iir_filter_data.py')],
     'Closed and open loops simulated with the real filter objects; measured impulse/frequency response and divergence compared with the analysis functions', EXPL)

prop('C13', 'Integrating elements account for every photon and every step',
     "A detector delivers a frame exactly at the end of each integration time, containing exactly the light received during that interval scaled by bandwidth and quantum efficiency, binned, then affected only by the enabled noise terms, whose mean and variance follow their parameters; digital outputs are integers within range. Windowed averages and cumulative PSFs likewise cover each step of their window once and none outside it.",
     ['inputs', 'histories', 'configurations'], 'all integration/step ratios, light histories, binning, efficiencies and noise settings',
     'Tests check one frame with one setting; accounting errors appear at window boundaries and over several windows.',
     [PO + 'ccd.py', PO + 'windowed_integration.py', DO + 'pixels.py', DO + 'intensity.py'],
     [('CCD integration/noise', 'specula/processing_objects/ccd.py'), ('WindowedIntegration', 'specula/processing_objects/windowed_integration.py')],
     'Photon-ledger monitor over random light histories (conservation, timing), statistical oracle with wide confidence bounds for noise terms', EXPL)

prop('C14', 'Wavefront sensors conserve light and react to wavefronts as optics do',
     "The total light of a wavefront sensor's image is the source flux times the illuminated pupil area (times the transmission a pyramid reports for light outside its field); intensities are non-negative, scale linearly with flux, and sub-apertures share the light as the square of their amplitude. A constant phase offset changes nothing, tilting the wavefront moves the spots (and modulation spreads the focal-plane light) by the corresponding angle along the same axis, and mirroring or rotating the pupil field mirrors or rotates the image. A sensor's image depends only on its own field and settings, whatever other sensors exist in the process; distributed, polychromatic and extended-source variants equal the sums they stand for; an ideal derivative sensor is linear and measures the mean gradient.",
     ['inputs', 'configurations'], 'all pupil phases and amplitudes, fluxes, fields of view, sampling and modulation settings',
     'Tests compare a flat wavefront with stored numbers.',
     [PO + 'sh.py', PO + 'modulated_pyramid.py', PO + 'poly_chrom_wfs.py', PO + 'curvature_sensor.py', PO + 'zernike_sensor.py', PO + 'ideal_derivative_sensor.py'],
     [('SH propagation', 'specula/processing_objects/sh.py'), ('pyramid propagation', 'specula/processing_objects/modulated_pyramid.py')],
     'Metamorphic and conservation oracles on sensor outputs over random wavefronts and geometries', EXPL)

prop('C15', 'Optical path is exact superposition: mirrors, layers, screens, sources',
     "The phase reaching a pupil is the sum of the contributions of every layer and mirror along that source's line of sight, each shifted, magnified, rotated and masked by its own geometry, and amplitudes multiply; propagation of a sum is the sum of propagations. A deformable mirror shows exactly the linear combination of its shapes given by the command and sign. Sources with the same direction see the same wavefront and sources never affect one another.",
     ['inputs', 'configurations'], 'all sets of layers, mirrors, commands, source positions/heights and pupil geometries',
     'Tests use one or two layers with zero commands or integer shifts.',
     [PO + 'atmo_propagation.py', PO + 'dm.py', PO + 'electric_field_combinator.py', PO + 'electric_field_reflection.py', DO + 'electric_field.py', DO + 'layer.py', DO + 'ifunc.py', DO + 'm2c.py', DO + 'pupilstop.py', PO + 'phase_flattening.py'],
     [('layer-to-pupil interpolation', 'specula/processing_objects/atmo_propagation.py'), ('DM shape', 'specula/processing_objects/dm.py'), ('product/combination', 'specula/data_objects/electric_field.py')],
     'Linearity/superposition and geometric reference-model oracles over random optical trains', EXPL)

prop('C16', 'Slopes are the normalised centroid signals of the assigned pixels',
     "Slope vectors are exactly the documented normalised combination (centre of gravity, quad-cell, pyramid quadrants and their variants) of the pixels assigned to each sub-aperture or pupil, minus the reference, in the documented order, and are insensitive to overall flux where normalised. Swapping the roles of the axes by transposing or mirroring the frame permutes or negates the slopes accordingly, other pixels have no influence, and mapping to 2D puts each slope at its own sub-aperture.",
     ['inputs', 'configurations'], 'all frames, sub-aperture/pupil geometries, thresholds, weightings and references',
     'Tests use one symmetric frame per sensor.',
     [PO + 'sh_slopec.py', PO + 'pyr_slopec.py', PO + 'slopec.py', PO + 'cur_wfs_slopec.py', PO + 'double_roof_slopec.py', PO + 'zwfs_slopec.py', PO + 'ciao_ciao_slopec.py', DO + 'slopes.py', DO + 'subap_data.py', DO + 'pupdata.py'],
     [('centroiding', 'specula/processing_objects/sh_slopec.py'), ('quad signals', 'specula/processing_objects/pyr_slopec.py')],
     'Independent loop-per-subaperture reference evaluated on random frames and geometries, plus metamorphic oracles', EXPL)

prop('C17', 'Command path is exactly the configured linear algebra',
     "Reconstruction, matrix multiplication, slicing, insertion, concatenation, arithmetic operations, linear combination and command splitting give exactly the configured matrix/vector result for the current inputs, including filtering by mode counts and identity blocks. Pseudo-open-loop control equals the explicit formula using the commands really applied, and its implicit form gives the same commands. Multi-rate combinations hold the last slow value and use each input at its own rate.",
     ['inputs', 'configurations', 'histories'], 'all matrices, sizes, slices, operation settings and refresh histories',
     'Tests use single-step small examples; pseudo-open-loop and multi-rate errors need several steps.',
     [PO + 'modalrec.py', PO + 'modalrec_implicit_polc.py', PO + 'modalrec_multirate.py', PO + 'mvm.py', PO + 'base_operation.py', PO + 'base_slicer.py', PO + 'base_inserter.py', PO + 'linear_combination.py', PO + 'mirror_commands_combinator.py', PO + 'multirate_complementary_filter.py', DO + 'recmat.py', DO + 'intmat.py'],
     [('Modalrec', 'specula/processing_objects/modalrec.py'), ('BaseOperation', 'specula/processing_objects/base_operation.py')],
     'Lock-step comparison against dense linear-algebra reference over random multi-step histories', EXPL)

prop('C18', 'Generated signals follow their closed form at every step',
     "Waveform, push-pull, schedule, time-history, random and vibration generators emit at simulated time t exactly the value their parameters define for t (amplitude, offset, slope, frequency, phase, timing, vector expansion), independent of how they were stepped. Random signals have the requested mean, deviation and spectrum and are reproducible from their seed. Values fed interactively are published at the next step, in order.",
     ['inputs', 'histories', 'configurations'], 'all parameter vectors, step sizes and run lengths',
     'Tests check the first samples of one waveform each.',
     [PO + 'wave_generator.py', PO + 'push_pull_generator.py', PO + 'schedule_generator.py', PO + 'time_history_generator.py', PO + 'random_generator.py', PO + 'vibration_generator.py', PO + 'base_generator.py', PO + 'specula_input.py', LI + 'modal_pushpull_signal.py'],
     [('trigger code', 'specula/processing_objects/*_generator.py')],
     'Lock-step comparison with closed-form expressions and spectral/statistical oracle over random parameters', EXPL)

prop('C19', 'Turbulence is frozen flow with the requested strength, wind and geometry',
     "Each turbulent layer moves rigidly by wind speed times elapsed time in the wind direction, with sub-pixel motion consistent with whole-pixel motion, and its strength scales with seeing, zenith angle, wavelength and fractional profile weight by the Kolmogorov/von Karman laws. Layer heights and sizes follow the geometry of field and zenith. Screens have the requested spatial statistics, and independent seeds give independent screens.",
     ['inputs', 'histories', 'configurations'], 'all wind/seeing/height/time histories and screen parameters',
     'Tests check shapes and a single shift.',
     [PO + 'atmo_evolution.py', PO + 'atmo_evolution_up_down.py', PO + 'atmo_infinite_evolution.py', PO + 'atmo_random_phase.py', PO + 'phase_screen_cube.py', DO + 'infinite_phase_screen.py', LI + 'calc_phasescreen.py', LI + 'phasescreen_manager.py'],
     [('AtmoEvolution.trigger_code', 'specula/processing_objects/atmo_evolution.py'), ('phase screen statistics', 'specula/lib/calc_phasescreen.py')],
     'Trajectory oracle comparing layer phase at each step with a shifted reference screen, scaling-law metamorphic oracle, structure-function statistics with wide bounds', EXPL)

prop('C20', 'Calibration recovers the response of the system that was poked',
     "The interaction matrix built from a push-pull (or multi-frame) calibration has as the entry of the n-th poked mode exactly the differential response per unit amplitude of that mode, in any poke order, amplitude and frame count, and the reconstructor derived from it is its (weighted, mode-limited) generalised inverse. Closed around a linear system, calibration followed by reconstruction returns the commanded modes. Slope references and dark frames are the mean of exactly the frames acquired, and multi-sensor calibrations give each sensor its own data.",
     ['inputs', 'histories', 'configurations'], 'all linear responses, mode ranges, amplitudes, poke patterns and sensor counts',
     'Tests check one tiny matrix per calibrator.',
     [PO + 'im_calibrator.py', PO + 'multi_im_calibrator.py', PO + 'rec_calibrator.py', PO + 'multi_rec_calibrator.py', PO + 'sn_calibrator.py', DO + 'intmat.py', DO + 'recmat.py', PO + 'push_pull_generator.py', LI + 'mmse_reconstructor.py'],
     [('ImCalibrator', 'specula/processing_objects/im_calibrator.py'), ('Intmat.generate_rec', 'specula/data_objects/intmat.py')],
     'Synthetic linear plants calibrated by the real objects; measured matrix and reconstructor compared with the plant and with an independent pseudo-inverse', EXPL)

prop('C21', 'Modal bases, masks and resampling keep their defining invariants',
     "Zernike polynomials on a full pupil are orthonormal, ordered and normalised as documented and zonal, petal and Karhunen-Loeve bases keep their defining properties (partition, orthogonality, pupil restriction). Masks and coordinate grids have the requested size, position, obstruction and symmetry. Rebinning, pixel remapping and interpolation conserve totals or means as documented, reproduce affine fields exactly, and commute with flips.",
     ['inputs'], 'all sizes, obstructions, offsets, orders, factors and sampled fields',
     'Tests check individual stored cases.',
     [LI + 'zernike_generator.py', LI + 'modal_base_generator.py', LI + 'compute_zern_ifunc.py', LI + 'compute_zonal_ifunc.py', LI + 'compute_petal_ifunc.py', LI + 'make_mask.py', LI + 'mask.py', LI + 'make_xy.py', LI + 'rebin.py', LI + 'toccd.py', LI + 'interp2d.py', LI + 'radial_profile.py', LI + 'extrapolation_2d.py'],
     [('ZernikeGenerator', 'specula/lib/zernike_generator.py'), ('toccd', 'specula/lib/toccd.py'), ('Interp2D', 'specula/lib/interp2d.py')],
     'Invariant and metamorphic oracles over random sizes and fields', EXPL)

prop('C22', 'Photometry, coordinates and unit conversions follow the physics',
     "Photon flux follows magnitude (a factor 10^(-0.4) per magnitude), collecting area, time, bandwidth and wavelength; phase in radians is 2*pi*OPD/wavelength everywhere; intensity of a field is its transmission times the source flux. Source polar and Cartesian coordinates are consistent, and unit helpers are mutually inverse.",
     ['inputs'], 'all magnitudes, bands, wavelengths, areas, coordinates and units',
     'Tests check isolated values.',
     [LI + 'n_phot.py', DO + 'source.py', DO + 'electric_field.py', LI + 'utils.py', LI + 'air_refraction.py', LI + 'calc_geometry.py', LI + 'platescale_coeff.py', PO + 'power_loss.py'],
     [('n_phot', 'specula/lib/n_phot.py'), ('Source', 'specula/data_objects/source.py')],
     'Scaling-law and inverse-function oracles over random physical parameters', EXPL)

prop('C23', 'PSF and Strehl statistics are those of the wavefronts observed',
     "The instantaneous PSF is the normalised squared modulus of the Fourier transform of the pupil field: it is non-negative, sums to the total, and its Strehl ratio is 1 for a flat wavefront, never more than 1, and equal to exp(-variance) for small aberrations. Long-exposure PSF, Strehl, variance and averages are exactly the means over the samples after the start time, each counted once. Coronagraphic and modal analyses remove or project exactly what they declare.",
     ['inputs', 'histories', 'configurations'], 'all pupils, wavefront histories, start times, samplings',
     'Tests check a flat wavefront and a few steps.',
     [PO + 'psf.py', PO + 'psf_coronagraph.py', PO + 'modal_analysis.py', LI + 'calc_psf.py', PO + 'abstract_coronagraph.py'],
     [('PSF accumulation', 'specula/processing_objects/psf.py'), ('calc_psf', 'specula/lib/calc_psf.py')],
     'Independent FFT reference and running-average ledger over random wavefront histories', EXPL)

prop('C24', 'Modulated-signal demodulation and gain tracking recover the truth',
     "Demodulating a signal that contains a sinusoid at the carrier frequency returns that sinusoid's amplitude and relative phase for each mode, independent of offset, sampling and other modes; demodulators emit one value per window, computed from that window only. Gain estimators converge to the true optical gain of a linear system, and gain optimisation never selects a gain outside its stable range.",
     ['inputs', 'histories', 'configurations'], 'all carriers, amplitudes, offsets, modes, window lengths and loop histories',
     'Tests use one clean sinusoid.',
     [LI + 'demodulate_signal.py', PO + 'demodulator.py', PO + 'optical_gain_estimator.py', PO + 'gain_optimizer.py'],
     [('demodulate_signal', 'specula/lib/demodulate_signal.py'), ('Demodulator', 'specula/processing_objects/demodulator.py')],
     'Synthetic carriers with known truth driven through the real objects over several windows', EXPL)

prop('C25', 'Offline field analysis equals what an online branch would have computed',
     "PSFs, modal coefficients and phase cubes computed afterwards from stored telemetry for a set of field directions equal those an on-line branch for the same source would have produced in the original run. Results do not depend on the order or number of directions requested, nor on whether they come from cached files.",
     ['configurations', 'histories'], 'all recorded runs, field points, and repeated requests',
     'Tests check array shapes and a single on-axis case.',
     [S + 'field_analyser.py', S + 'simul.py'],
     [('FieldAnalyser', 'specula/field_analyser.py')],
     'Differential runs: field analyser vs direct on-line branches in the original simulation', EXPL)

prop('C26', 'Sensor geometry calibration finds the true sub-apertures and pupils',
     "Sub-aperture selection keeps exactly the cells whose light exceeds the requested fraction of the maximum, with pixel indices that tile the selected cells without overlap, and pupil detection on a synthetic four-pupil image recovers centres and radii to sub-pixel accuracy with equal, disjoint, consistently ordered pupils. Stored geometry reproduces the same pixel sets.",
     ['inputs', 'configurations'], 'all frames, thresholds, sub-aperture grids and pupil positions',
     'Tests use one ideal image.',
     [PO + 'sh_subap_calibrator.py', PO + 'pyr_pupdata_calibrator.py', PO + 'dynamic_pyr_pupdata_calibrator.py', DO + 'subap_data.py', DO + 'pupdata.py', PO + 'dynamic_dark_calibrator.py'],
     [('ShSubapCalibrator', 'specula/processing_objects/sh_subap_calibrator.py'), ('PyrPupdataCalibrator', 'specula/processing_objects/pyr_pupdata_calibrator.py')],
     'Synthetic detector images with known geometry; set/tiling/accuracy oracle', EXPL)

prop('C27', 'Model-based estimators recover what produced their data',
     "Estimators built on a model of the optics give back the parameters that produced their data: LIFT the Zernike coefficients of a focal-plane image, SPRINT the mis-registration (shifts, rotation, magnification) of a Shack-Hartmann or pyramid seen through a modulated mirror, the spot monitor the Moffat parameters of the summed spot, the elongation model the inverse noise covariance of spots stretched along the launcher direction. A synthetic interaction matrix equals the push-pull measurement on the real mirror and sensor under the same mis-registration, and its reconstructor inverts it. Estimates come at the requested cadence and every output is stamped.",
     ['inputs', 'configurations'], 'all aberrations, mis-registrations, modulated modes, spots and launcher geometries inside the working range',
     'Tests use one geometry and mostly check shapes; the closed-form truth is never compared over the parameter ranges.',
     [PO + 'lift.py', PO + 'base_sprint_estimator.py', PO + 'sprint_pyr.py', PO + 'sprint_sh_synim.py', PO + 'im_sh_synim_generator.py', PO + 'spot_monitor.py', 'specula/lib/synim_utils.py', 'specula/lib/calc_noise_cov_elong.py', 'specula/lib/demodulate_signal.py'],
     [('Lift', 'specula/processing_objects/lift.py'), ('ImShSynimGenerator', 'specula/processing_objects/im_sh_synim_generator.py'), ('SpotMonitor', 'specula/processing_objects/spot_monitor.py')],
     'Synthetic data from known parameters given to the real estimators; known-truth and push-pull oracle', EXPL)


NA = {}


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    checks, na = [], []
    for p in P:
        pid = p['id']
        if pid in NA:
            na.append(dict(property=pid, reason=NA[pid]))
        elif os.path.exists(os.path.join(ROOT, 'checks', pid.lower() + '.py')):
            checks.append(dict(property=pid, quick_cmd=f'./run.sh {pid} --tier quick', thorough_cmd=f'./run.sh {pid} --tier thorough',
                               evidence_file=f'evidence/{pid}.json', technique=p['_t'], level='exploration', level_note=p['_n'].strip()))
        else:
            na.append(dict(property=pid, reason='No check has been built yet (work in progress); the technique itself applies.'))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
             notes='No hooks in /repo: all monitors attach through the public object protocol from the outside.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
    print(len(P), 'properties,', len(checks), 'checks,', len(na), 'not claimed')


main()
