"""Single source of properties.jsonl and MANIFEST.json.
Regenerate with:  python3 tools/registry.py   (from /verif)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ED = "gw_eccentricity/eccDefinition.py"
GW = "gw_eccentricity/gw_eccentricity.py"
UT = "gw_eccentricity/utils.py"
FF = "gw_eccentricity/eccDefinitionUsingFrequencyFits.py"
AF = "gw_eccentricity/eccDefinitionUsingAmplitudeFits.py"
RA = "gw_eccentricity/eccDefinitionUsingResidualAmplitude.py"
RF = "gw_eccentricity/eccDefinitionUsingResidualFrequency.py"
LD = "gw_eccentricity/load_data.py"
CLI = "gw_eccentricity/postprocess/postprocess_cli.py"
PC = "gw_eccentricity/postprocess/core.py"
PP = "gw_eccentricity/postprocess/postprocess.py"
BB = "gw_eccentricity/postprocess/postprocess_for_bilby.py"
SF = "gw_eccentricity/spin_filter.py"
TR = "gw_eccentricity/truncate_waveform_by_flow.py"
CM = "gw_eccentricity/compare_methods.py"
RT = "gw_eccentricity/rational_fit.py"

DIRECT = ("Exhaustive enumeration of the stated bounded space on the real code "
          "in /repo, every execution compared with an independently written "
          "reference model. ")
INP, CFG, HIS, SCH, CRA, FLT, PRG = ("inputs", "configurations", "histories",
                                     "schedules", "crash_points",
                                     "fault_sequences", "programs")
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, level,
         note):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[
                      dict(name=a, where=b) for a, b in mech]),
                  technique=technique, level=level, note=note))


prop("P01", "Exactly the requested reference points in range are answered",
     "For every set of requested reference times or frequencies, the measurement answers exactly those that lie in the range the data supports, in the order asked, with one finite eccentricity in [0,1) and one mean anomaly in [0,2pi) per answered point; a scalar request gives a scalar-like answer. Points outside are dropped, and if none remains the call fails with an error instead of returning numbers.",
     [INP, CFG], "All subsets of a pool of reference points (below, at, inside, at and above both ends; scalar and array), for all six methods, both domains and both extrema interpolations.",
     "Tests ask for a handful of in-range points; every combination of boundary, inside and outside points is needed to pin the range rule.",
     [ED, GW], [("measure_ecc", ED), ("check_input_limits", ED), ("compute_tref_in_and_fref_out_from_fref_in", ED)],
     "exhaustive enumeration of reference-point subsets against a reference model", "exploration",
     DIRECT + "Assumes synthetic chirps represent the input class.")
prop("P02", "Eccentricity is the gravitational-wave eccentricity of the extrema",
     "At every answered point the reported eccentricity equals the documented function of the orbital frequencies interpolated through the waveform's own pericentres and apocentres, and reduces to the true Newtonian temporal eccentricity for Newtonian-like signals. It depends only on the waveform's (2,2)-type frequency, not on which detection method found the same extrema.",
     [INP, CFG], "A grid of eccentricities, phases, lengths, sampling steps, methods and interpolations; every point of the supported time range.",
     "Tests compare stored numbers for one waveform; the definition must hold for all signals and at every time.",
     [ED], [("compute_eccentricity", ED), ("et_from_ew22_0pn", ED), ("get_omega_gw_extrema_interpolant", ED)],
     "exhaustive grid enumeration against an independent reference model", "exploration",
     DIRECT + "Tolerance 1e-9 for splines, looser for rational fits.")
prop("P03", "Mean anomaly grows linearly from 0 to 2pi between pericentres",
     "The reported mean anomaly is 0 at each pericentre and grows linearly in time by 2pi until the next one, is always within [0,2pi), and is the same whatever other points are requested. A pericentre time itself is assigned zero.",
     [INP, CFG], "Every radial period of every waveform of a grid, times at, just before and just after every pericentre and in between, for all methods.",
     "Tests check one waveform at a few points; wrap-around and boundary cases occur at each pericentre.",
     [ED], [("compute_mean_anomaly", ED)],
     "exhaustive enumeration of times around every pericentre against a reference model", "exploration", DIRECT)
prop("P04", "Each reference point's answer is independent of its companions",
     "The eccentricity and mean anomaly reported for a reference time or frequency do not depend on which other points are requested in the same call, on their order, on repetition, or on whether the point is passed as scalar, list or array. Answers come back in request order.",
     [INP], "All ordered selections (permutations, repetitions) of up to 3 or 4 points from a pool, scalar/list/tuple/array forms, every method, both domains.",
     "Tests never permute or combine requests.",
     [ED, GW], [("measure_ecc", ED), ("compute_tref_in_and_fref_out_from_fref_in", ED)],
     "exhaustive enumeration of ordered request tuples, pairwise comparison", "exploration", DIRECT)
prop("P05", "Reference frequency and reference time descriptions agree",
     "Asking at a reference frequency gives what asking at the time when the average frequency equals it gives, and the advertised frequency range is exactly the range of requests that are answered: the lowest advertised frequency is answered, the highest is not. The answered frequencies are returned unchanged.",
     [INP, CFG], "All pool frequencies (each end of the range, one ulp around, inside, outside) x averaging methods x detection methods x waveforms.",
     "Tests use a few interior frequencies and never the exact ends of the range.",
     [ED], [("compute_tref_in_and_fref_out_from_fref_in", ED), ("get_fref_bounds", ED), ("get_fref_out", ED)],
     "exhaustive enumeration of boundary frequencies against a reference model", "exploration", DIRECT)
prop("P06", "Results do not depend on units, time origin, scale or phase offset",
     "Rescaling time, shifting the time origin, rescaling the strain amplitude, or adding a constant phase changes no reported eccentricity, mean anomaly, or (suitably rescaled) reference point, for every detection method and option. A request answered in one unit system is answered in all.",
     [INP, CFG], "All products of 4 time origins x 3 time units x 3 amplitude units x 3 phase offsets for each method, domain, averaging and segment option.",
     "Tests use one unit system.",
     [ED, FF], [("measure_ecc", ED), ("get_approximate_tref_for_fref_using_secular_trend", ED), ("find_extrema", FF)],
     "exhaustive enumeration of symmetry transformations, metamorphic comparison", "exploration", DIRECT)
prop("P07", "Equivalent data encodings agree; ambiguous ones are rejected",
     "Supplying the same waveform as complex modes, as amplitude and phase, or with an explicit frequency gives the same answers. Every incomplete or contradictory combination of data keys (for the signal and for its quasicircular partner) is rejected with an error, as are a phase or frequency of the wrong sign and times that are not equidistant; unrelated keys never change the answer.",
     [CFG, INP], "All subsets of the recognised data keys for signal and partner, for every detection method, with and without unknown keys.",
     "Tests exercise two or three of the key combinations.",
     [ED], [("process_data_dict", ED), ("get_amp_phase_omega_data", ED), ("get_recognized_dataDict_keys", ED)],
     "exhaustive enumeration of all key subsets against a decision table", "exploration", DIRECT)
prop("P08", "Inputs are never modified and calls do not influence each other",
     "A measurement leaves every object the caller passed (data arrays and dictionaries, option dictionaries, reference arrays) bit-for-bit unchanged, whether it succeeds or fails. The result of a call is bit-identical whatever sequence of other calls preceded it with the same objects, and a call leaves the settings of the process (warning filters, numerical error handling, random states, working directory, environment) as they were.",
     [HIS, CFG], "All call sequences up to length 3 over an alphabet of calls sharing the same data and option objects, for every method, encoding, frame and failing call.",
     "Tests make each call once with fresh objects; mutation shows only in later calls.",
     [ED, FF, UT], [("transform_inertial_to_coprecessing", ED), ("process_data_dict", ED), ("check_kwargs_and_set_defaults", UT)],
     "exhaustive enumeration of call histories with bit-exact state comparison", "exploration", DIRECT)
prop("P09", "Missed, spurious and surplus extrema are discarded as documented",
     "Whatever extrema a detection method reports, the measurement uses only a contiguous run of them: everything beyond a gap or a too-close pair near either end, and all but one surplus extremum of one kind beyond the other kind's last, is dropped. The supported range, eccentricity and mean anomaly follow from exactly the retained extrema, and if too few remain the call fails.",
     [INP, FLT], "All subsets of missing pericentres or apocentres, all pairs of missing prefixes/suffixes/holes of both kinds, and all insertions of up to two spurious extrema combined with a missing one.",
     "Tests use clean waveforms where detection does not fail.",
     [ED], [("get_good_extrema", ED), ("drop_extrema_if_extrema_jumps", ED), ("drop_extrema_if_too_close", ED), ("drop_extra_extrema_at_ends", ED)],
     "all fault patterns of scripted detection, replayed on the code and compared with a state model", "model_checking",
     DIRECT + "The model is bound to the code by replaying every one of its states on the implementation.")
prop("P10", "Only data up to the requested number of orbits before merger is used",
     "With N orbits excluded, no extremum or reported point lies less than N orbits before the merger (the loudest point of all modes together), everything earlier is used, and changing data after the merger changes nothing; with no exclusion (including signals without a merger) all data is used. A negative N, or more orbits than the signal has, is an error.",
     [INP, CFG], "All N of a list (none, 0, fractional, ordinary, too large, negative) x methods x interpolations x variants of the discarded data.",
     "Tests use the default and one other value, always with the same ringdown.",
     [ED], [("process_data_dict", ED), ("get_index_at_num_orbits_earlier_than_merger", ED)],
     "exhaustive enumeration of exclusion values and of variants of the excluded data", "exploration", DIRECT)
prop("P11", "Zero eccentricity is reported only on request for long signals",
     "If fewer than two pericentres or apocentres are found, the call returns zeros for every requested point, unchanged and in the requested shape, only when the user asked for that and the used signal is longer than five orbits; in every other case it is an error. A signal with identifiable extrema never gets zeros from this rule.",
     [CFG, INP], "All combinations of 0-4 pericentres, 0-4 apocentres, five lengths around the limit, policy on/off/default, midpoint option, both domains, four request shapes; plus all methods on real low-eccentricity signals.",
     "Tests exercise one or two of several thousand combinations.",
     [ED], [("check_num_extrema", ED), ("set_eccentricity_and_mean_anomaly_to_zero", ED)],
     "exhaustive decision-table enumeration on scripted and real detection", "exploration", DIRECT)
prop("P12", "Options are validated and defaults behave as documented",
     "An option with an unknown name, or an unsupported value, is refused with an error that names it, in every option dictionary, and passing any option explicitly with its documented default gives exactly the same results as omitting it. Options that control extrema finding and interpolation reach the computation with their documented meaning.",
     [CFG], "All option dictionaries x unknown names, all invalid choices, all documented defaults singly and in pairs, all spline orders and all peak-finder arguments of a grid.",
     "Tests set a few options; a default that drifts or an option that is silently ignored changes no sampled outcome visibly.",
     [ED, UT], [("check_kwargs_and_set_defaults", UT), ("get_default_extra_kwargs", ED), ("get_default_spline_kwargs", UT), ("get_width_for_peak_finder_from_phase22", ED)],
     "exhaustive enumeration of the option space with differential oracles", "exploration", DIRECT)
prop("P13", "Residual methods align the circular counterpart correctly",
     "The residual methods subtract a quasicircular counterpart aligned at the merger: shifting the counterpart's time, changing its sampling or its data after the merger does not change the answer, and the residual equals the difference between the two signals at equal time from merger. A counterpart that is missing, starts later than the signal, ends before its merger, or data sampled irregularly, is refused.",
     [INP, CFG], "All combinations of time shifts, sampling steps, start offsets, irregular samplings and late-data variants of the counterpart x residual methods.",
     "Tests use one pair of waveforms generated on matching grids.",
     [ED, RA, RF], [("get_t_merger / interp_extrema alignment", ED), ("check_time_step", ED)],
     "exhaustive enumeration of alignments against an independent residual", "exploration", DIRECT)
prop("P14", "Segment-limited measurement uses the documented part of the signal",
     "When the user limits the measurement to a number of orbits around the reference points, exactly the documented segment is used: it covers every reference point whatever their order, with the margin on both sides, never beyond the available data, and the answer is the ordinary measurement from the extrema inside it. Data outside the segment has no influence.",
     [INP, CFG], "All positions of a reference grid x orbit limits x orders and multiplicities of the reference array, in both domains, with perturbed data outside the segment.",
     "Tests use one position and one limit, in ascending order.",
     [ED], [("get_waveform_segment", ED), ("use_only_these_many_orbits", ED)],
     "exhaustive enumeration of segment placements with an independent segment model", "exploration", DIRECT)
prop("P15", "The rational fit through the extrema adapts its degree correctly",
     "By default the extrema are joined by a rational fit whose degrees start from the number of extrema or the user's choice, are reduced until enough points are available, lowered until the fit is monotonic, otherwise raised as long as it stays monotonic; the last monotonic fit is the one used, or a spline, with a warning, when none is. Rational functions of the chosen degrees are reproduced, and the best iterate is kept.",
     [INP, CFG], "All numbers of extrema of a list up to 68 x eleven data shapes x default degrees, all user degrees 0..6 x 0..6, all reductions for degrees 0..9 and 0..24 points.",
     "Tests run a few waveforms with default degrees; the fallback and most reductions never happen there.",
     [ED, RT, UT], [("get_rational_fit_for_extrema", ED), ("get_reduced_degrees", RT), ("RationalFit", RT)],
     "explicit-state model of the degree controller, every state's trace compared with the real measurement", "model_checking",
     DIRECT + "The controller model uses the package's fit as its transition function; the fit itself is checked separately by exact recovery.")
prop("P16", "The average frequency follows its documented definition",
     "The orbit-averaged frequency, the mean of the extrema interpolants and the quasicircular frequency each equal their documented definition at every time of the supported range; only monotonically increasing averages are accepted, otherwise the call fails. The reported reference frequency for a time is that average.",
     [INP, CFG], "All averaging methods x detection methods x waveforms at every sample, plus scripted non-monotonic patterns.",
     "Tests check only that the three agree roughly.",
     [ED], [("get_omega_gw_average", ED), ("compute_orbit_averaged_omega_gw_between_extrema", ED), ("check_monotonicity_of_omega_gw_average", ED)],
     "exhaustive grid enumeration against an independent reference model", "exploration", DIRECT)

prop("P17", "Every method finds each pericentre and apocentre once, where it is",
     "For clean eccentric signals every method uses one pericentre and one apocentre per orbit, without gaps, located where the orbit passes them: the direct methods exactly at the local extrema of amplitude or frequency, the residual and fit methods also at small eccentricities where the signal itself has no extrema. This does not depend on units, time origin, length, sampling or pericentre precession.",
     [INP, CFG], "All products of methods x eccentricities x initial anomalies x five signal families.",
     "Tests use a handful of waveforms and compare with stored numbers.",
     [ED, FF, AF, RA, RF], [("find_extrema of each method", FF), ("get_interp_extrema / find_peaks use", ED)],
     "exhaustive grid enumeration against the known orbit", "exploration", DIRECT)


prop("P18", "Diagnostics observe without interfering",
     "The verbosity level and debug plots never change the results of a measurement or the caller's input; the silent level issues nothing, each level's messages include those of the quieter one, and the highest level turns the package's warnings into errors. Debug plots and diagnostic figures write only their own files, work without optional typesetting, show the measured data, and come out the same in any order of calls.",
     [CFG, HIS], "All products of scenarios that do and do not warn x verbosity levels x debug plots x methods, and all orders of diagnostic calls up to a depth.",
     "Tests run at one verbosity and only check that plotting does not fail.",
     [ED, SF, UT, RF], [("debug_level / debug_plots handling", ED), ("debug_message", UT), ("make_diagnostic_plots and plot_* methods", ED)],
     "exhaustive enumeration of configurations and call orders", "exploration", DIRECT)


prop("P19", "Each posterior sample is measured as if it were the only one",
     "Postprocessing a posterior gives, for every selected sample and in the selected order, exactly the eccentricity and mean anomaly of a direct measurement with the same data and options, or a failure with a message. Neither failing samples, nor generators that change their arguments, nor the order in which parallel jobs complete, nor earlier calls affect any other sample, the posterior or the caller's options; misuse is refused instead of being recorded as failed samples.",
     [FLT, SCH, HIS], "All sequences of sample behaviours up to length 3 and all completion orders of up to 5 parallel jobs, shared or isolated.",
     "There are no tests of postprocessing; parallel completion orders and fault sequences cannot be sampled meaningfully.",
     [PC, PP, BB], [("postprocess_sample isolation", PC), ("Parallel(...) dispatch and ordering", PP)],
     "stateless exploration of the real code under a controlled job scheduler and fault injector", "model_checking", DIRECT)

prop("P20", "The common frequency range holds for every posterior sample",
     "The frequency range reported for a sample is that of a direct measurement, failures are reported per sample, and the common range is the largest minimum and smallest maximum over the successful samples: every frequency in it can be used for all of them, and just outside at least one fails. Without any successful sample there is no range.",
     [FLT, SCH], "All sequences of good and failing samples up to length 3 x methods x options, and all completion orders of up to 5 jobs.",
     "There are no tests of this; the aggregate must hold for every combination of samples.",
     [PC, PP], [("get_fref_bounds_for_sample / get_minmax_fref", PC)],
     "exhaustive enumeration of sample sequences and completion orders", "exploration", DIRECT)

prop("P21", "Parallel postprocessing computes each sample once in every schedule",
     "With any number of workers, samples and batch size, and for every order in which messages arrive, the parallel program evaluates each pending sample exactly once, all processes end, and the result equals the single-process one, row by row. An error of a process is reported and never leaves the others waiting.",
     [SCH, CFG, FLT], "All message orders for up to 3 workers and 5 samples (thorough: 4 and 7) x batch sizes x checkpoint intervals x recorded subsets x send modes.",
     "Message orders depend on timing; no test runs the parallel program.",
     [CLI], [("master / worker dispatch loop", CLI)],
     "stateless exploration of all message schedules of the real program on simulated ranks", "model_checking", DIRECT)

prop("P22", "A crash loses at most one checkpoint interval of work",
     "If postprocessing dies at any point, including in the middle of writing a file, a later run succeeds, gives the result of an uninterrupted run, and does not evaluate recorded samples again: at most one checkpoint interval (plus the batches being worked on) is lost. Results recorded by earlier runs, also for other sample selections, are kept, and a result file that exists is complete.",
     [CRA, HIS], "All file operations (with torn writes) of every history of up to three runs and two crashes, in one process and with workers.",
     "Crash points cannot be hit by tests; there are none for restarting.",
     [CLI], [("save_checkpoint / load_checkpoint / save_final", CLI), ("checkpoint replay in master", CLI)],
     "exhaustive crash-point injection at file-system calls of the real program", "model_checking", DIRECT)

prop("P23", "The postprocessing command does exactly what was asked, or refuses",
     "For every documented sample selection, reference, method, nested option, column list, generator specification and output format, the result table has one row per selected sample, in order, with the posterior's columns and the values of a direct measurement with these options, whatever other options were used before in that directory. Malformed or contradictory command lines end with an error, without evaluating samples or writing results.",
     [INP, CFG], "All selection strings up to length 4 over a six-letter alphabet and products of all options and output formats.",
     "There are no tests of the command line program.",
     [CLI], [("build_config_from_cli / parse_samples / save_final", CLI)],
     "exhaustive enumeration of command lines against an independent reading of the grammar", "exploration", DIRECT)

prop("P25", "Precessing results do not depend on frame or representation of the modes",
     "For a precessing binary the measured eccentricity and mean anomaly depend only on the binary: any fixed orientation of the inertial frame, any precession of the orbital plane, modes given in the inertial or in the coprecessing frame, and as complex strain or as amplitude and phase, give the same result. In the non-precessing limit the result equals that of a non-precessing measurement. Modes that are required but missing, or an unknown frame, are refused.",
     [INP, CFG], "Full grid of rotations (three Euler angles) x precession motions x mode content x representation x method.",
     "Tests rotate one downloaded waveform (skipped offline); orientation independence is a statement about all rotations.",
     [ED, LD], [("transform_inertial_to_coprecessing / get_amp_phase_omega_gw", ED), ("get_coprecessing_data_dict", LD)],
     "exhaustive enumeration of rotations, motions and representations against the coprecessing modes", "exploration", DIRECT)

prop("P26", "Spin-induced oscillations are filtered when, and only when, they matter",
     "For precessing binaries, oscillations from mode asymmetry are removed exactly when the asymmetry exceeds the chosen fraction of the eccentric modulation, in any units and with any time origin; the eccentricity is then that of the signal without them. Otherwise, and when filtering is switched off, the data are untouched and the result is that of the plain combination of modes. The unfiltered data are always kept, and unknown filter options are refused. What is removed is, segment by segment, what lies above the trough between the two peaks of the spectrum, with the chosen options; filter diagnostics do not change it.",
     [INP, CFG], "Full grid of eccentricity x asymmetry x oscillation size x frequency ratio x threshold x units x options.",
     "Tests only check that the filter runs on one waveform.",
     [SF, ED], [("check_filter_requirement / FilterSpinInducedOscillations / check_and_filter_spin_induced_oscillations", SF), ("eccDefinition.__init__", ED)],
     "exhaustive enumeration of asymmetric signals and filter options against a reference model", "exploration", DIRECT)


prop("P27", "Comparing measurements and truncating by frequency lose and invent nothing",
     "Comparing two measurements returns exactly the requested times both support within the window, the values of each, and errors equal to the difference of eccentricities and the circular distance of mean anomalies; measurements at different requested times are not compared. Truncating a signal at a frequency keeps every sample at or above the cutoff for all modes up to the requested order, starts no earlier than necessary, and changes nothing else.",
     [INP, CFG], "Every pair of methods x reference-time pattern x window x relative phase; every cutoff of a grid over the frequency range x mode content x order x method.",
     "No test calls either helper.",
     ["gw_eccentricity/compare_methods.py", "gw_eccentricity/truncate_waveform_by_flow.py"], [("compute_errors_between_methods", "gw_eccentricity/compare_methods.py"), ("truncate_waveform_by_flow", "gw_eccentricity/truncate_waveform_by_flow.py")],
     "exhaustive enumeration of pairs, windows and cutoffs against set and order specifications", "exploration", DIRECT)

prop("P24", "Generated signals are those of the requested binary, in the requested units",
     "A signal requested from the waveform library is that binary's dominant mode: every requested parameter takes effect, times are uniform with the requested step and the merger at zero, and physical units are the exact scaling of the dimensionless ones. The quasicircular partner is the same binary at (nearly) zero eccentricity, aligned at merger and at least as long as the signal. Incomplete, unphysical or misspelt requests are refused and the caller's objects and the documented defaults never change.",
     [INP, CFG], "Full grid approximant x mass ratio x spins x eccentricity x starting frequency x step x units; every single omission, misspelling and violation.",
     "Tests use a few generated waveforms as input and never check what the loader promised about them.",
     [LD], [("load_LAL_waveform / load_LAL_waveform_using_hack / generate_LAL_waveform", LD), ("get_load_waveform_defaults", LD)],
     "exhaustive enumeration of requests against direct library calls, scaling laws and post-Newtonian theory", "exploration", DIRECT)

prop("P28", "Waveform files of every supported format load as what they contain",
     "For every supported file format and combination of options, the loaded modes are the file's signal at the requested uniform times, with the merger at zero where documented, without exactly the requested number of initial orbits, and with that simulation's parameters. The quasicircular partner is of the same binary and always covers the data. Loading is refused, naming what is missing, exactly when a needed file or option is absent.",
     [INP, CFG, FLT], "Full product of loading options per format; every subset of the files of a directory; every offset of a counterpart's start.",
     "Tests of file loading need downloads and check one file.",
     [LD], [("load_sxs_catalogformat / load_sxs_catalogformat_old / check_sxs_data_dir / make_return_dict_for_sxs_catalog_format", LD), ("load_lvcnr_hack / load_EMRI_waveform / load_EOB_waveform", LD), ("get_zeroecc_dataDict_for_nr / reomve_junk_from_nr_data", LD)],
     "exhaustive enumeration of file contents, file subsets and options against the written content", "exploration", DIRECT)


prop("P29", "Numerical building blocks are exact to their stated order",
     "The derivative is exact for quartics at every sample including the ends, the peak finder for parabolas wherever the peak lies, and interpolation passes through its points and reproduces polynomials up to its order. Nothing is extrapolated without permission, unordered or mismatched points and unknown options are refused, and the caller's data and options are left as they were.",
     [INP, CFG], "All lengths, positions, monomials (a basis of the polynomials in question), data types, extrapolation choices and key subsets up to the bounds.",
     "The tests use these helpers on one smooth signal each; errors at the ends, for short data or other data types do not show.",
     ["gw_eccentricity/utils.py"], [("time_deriv_4thOrder", "gw_eccentricity/utils.py"), ("peak_time_via_quadratic_fit", "gw_eccentricity/utils.py"), ("get_interpolant", "gw_eccentricity/utils.py"), ("check_kwargs_and_set_defaults", "gw_eccentricity/utils.py")],
     "exhaustive enumeration of small inputs over a polynomial basis", "exploration", DIRECT)

prop("P30", "A measured object answers later queries correctly in any order",
     "The object returned with a measurement evaluates the eccentricity, its time derivatives, the mean anomaly and every kind of average frequency at any time of the supported range, for scalars and arrays, with the values that the documented definitions give, and refuses times outside. The frequency bounds are those of the average first asked for until it is reset. No sequence of such calls changes any later answer or the results already returned.",
     [HIS, CFG], "All states of the measured object reachable by any number of evaluation calls (closed under the calls: a fixpoint, or the stated bound), for every method, kind of reference, interpolation, average, segment and precession setting.",
     "Tests call at most one evaluation on an object; stale caches show only in particular orders of calls.",
     [ED], [("compute_eccentricity / derivative_of_eccentricity / compute_mean_anomaly", ED), ("get_omega_gw_average / get_fref_bounds", ED)],
     "breadth-first exploration of the state graph of the real object, every transition checked against a reference model", "exploration", DIRECT)

prop("P31", "Warnings and error messages state what really happened",
     "In verbose mode a measurement reports every missing, too-close, surplus, too-distant or non-alternating extremum, the loss of more than half of them, eccentricity that grows with time and kinked interpolants, with the kind, side, number and times concerned, and nothing that did not happen. Returned zeros, requests for more orbits than the signal has, unrecognised data keys, unordered reference frequencies and frequency bounds of a mere segment are announced. A refused reference point is answered with the side it lies on and the true allowed range.",
     [HIS, CFG], "All subsets of missing extrema of one kind, pairs of missing prefixes, suffixes and holes of both kinds, all single insertions and changes of a frequency at an extremum, verbosity levels, methods, orders of references.",
     "Tests look for single messages on hand-picked signals; a wrong side, time, count or a missing message shows only for particular patterns of extrema.",
     [ED], [("drop_extrema_if_extrema_jumps / drop_extrema_if_too_close / drop_extra_extrema_at_ends", ED), ("check_extrema_separation / check_monotonicity_and_convexity / check_input_limits", ED)],
     "exhaustive enumeration of extrema fault patterns against a reference model of the messages", "model_checking", DIRECT)


def main():
    built = [p for p in P if os.path.exists(os.path.join(
        HERE, "mc", "props", p["id"].lower() + ".py"))]
    built.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in built:
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps({k: p[k] for k in (
                "id", "title", "statement", "quantifier", "why_tests_cant",
                "anchors")}) + "\n")
    man = dict(version=1, setup_cmd="./setup.sh",
               checks=[dict(property=p["id"],
                            quick_cmd=f"./run.sh {p['id']} quick",
                            thorough_cmd=f"./run.sh {p['id']} thorough",
                            evidence_file=f"evidence/{p['id']}.json",
                            technique="explicit enumeration (model checking): "
                            + p["technique"], level=p["level"],
                            level_note=p["note"]) for p in built],
               not_applicable=NOT_APPLICABLE,
               notes="See DESIGN.md. No hooks are needed in /repo.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")
    missing = [p["id"] for p in P if p not in built]
    print(len(built), "registered; without module:", missing)


NOT_APPLICABLE = []
if __name__ == "__main__":
    main()
