import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

CD="src/collect_data.py"; DE="src/decoding.py"; HC="src/honeycomb_circuit.py"; HL="src/honeycomb_layout.py"; NO="src/noise.py"; MT="src/measure_tracker.py"
AG="src/paper/aggregate_csv_data.py"; MC="src/paper/main_collect_all.py"

add("C01","Announced batches are durable, correctly attributed and counted exactly once",
 "Whenever a data collection run (error-rate or detection-fraction) has printed a result record, that record is already in the output file, and from then on reading the recorded data counts exactly those shots and successes, once, under the problem whose circuit was actually sampled and decoded. This stays true across any sequence of runs appending to the same file, process kills and interrupts at any point, and restarts; the batch in flight when a process dies is counted either fully or not at all. A run told to discard previous data leaves only its own records. What a run prints is itself a readable data file with the same records.",
 ["histories","crash_points","fault_sequences"],"every sequence of collection runs over one or more output files, every batch outcome, every kill/interrupt point between two operating-system calls, every restart",
 "test_collect_and_plot makes one uninterrupted run of 4 single-batch problems and never compares the totals; no test stops, restarts, appends to a file or checks which problem a row belongs to.",
 [CD,MC],[("append, then echo on stdout, once per batch",CD+":collect_simulated_experiment_data, collect_detection_fraction_data"),("summing rows per problem description",CD+":read_recorded_data"),("problem list and circuit makers",MC+":honeycomb_problems, surface_code_problems")],
 [("output CSV","append-only log of batches",CD)],["stdout of the collector","the output file","read_recorded_data"])
add("C02","Crashes and torn writes never corrupt the recorded statistics",
 "After a power loss or a short, failed or torn write at any point has left any prefix of the unsynced output behind, reading the data counts exactly the records that survived whole and ignores the cut-off remainder. A later run appending to that file loses nothing, and all its records are read back; no surviving or later record is ever altered, merged, dropped, misattributed or made unreadable.",
 ["crash_points","fault_sequences","histories"],"every byte position at which the output (header included) can be cut, every crash/restart sequence, both collectors, new and existing files",
 "No test reads or appends to a damaged, empty or headerless file; the cut positions are thousands per file and only some of them (first column, decoder column, header) go wrong.",
 [CD],[("header / line-boundary repair before appending",CD+":_prepare_out_file"),("skipping cut-off rows",CD+":read_recorded_data")],
 [("output CSV","may be empty, headerless or end mid-record",CD)],["read_recorded_data after recovery"])
add("C03","I/O failures are reported, never turned into silently missing data",
 "If any operation on the output file fails (cannot open, disk full, I/O error, failing close) or the announcement cannot be printed, the collection run ends with an exception; whenever it returns normally, all its batches are in the file. If reading or aggregating recorded data meets an I/O error on any input, it ends with an exception instead of returning partial totals.",
 ["fault_sequences"],"every file or stdout operation of collecting, reading and aggregating, failing with ENOSPC, EIO, EDQUOT, EACCES, EMFILE, EPIPE, once or repeatedly, with and without a partial write",
 "Tests run on a healthy disk and a healthy stdout only.",
 [CD,AG],[("no exception handler around writes or reads; file closed before the record is announced",CD),("all inputs read before anything is printed",AG+":main")],
 (),["outcome (return or exception) of the collector, reader and aggregator","the output file"])
add("C04","Concurrent collectors sharing an output file lose and mix up nothing",
 "When several collector processes append to the same output file at the same time, in any interleaving and even when the file does not exist yet, every record any of them announced ends up in the file intact and is read back exactly once. Kills, interrupts and stalls of some collectors at any point do not affect the others' records.",
 ["schedules","crash_points"],"every interleaving of the operating-system calls of 2-4 collectors (creation race included), with kills, interrupts and stalls",
 "No test runs two collectors; the creation race needs a switch between two particular calls.",
 [CD],[("record appended by one write in append mode",CD),("header appended without truncating",CD+":_prepare_out_file"),("repeated headers skipped",CD+":read_recorded_data")],
 [("output CSV","shared append-only log",CD)],["the shared file","read_recorded_data"])
add("C05","Reading and aggregating conserves statistics, even while files grow",
 "Reading or aggregating any set of data files and directories (searched recursively; no file named twice) yields, per problem, exactly the sum of shots, successes and processing seconds of all records in all the files, each counted once, and nothing from other problems; the aggregated output, written to a file and read back, gives the same totals. Grouping, merging or filtering what was read neither loses, doubles nor mixes statistics, and leaves the data unchanged. When collectors are appending meanwhile, the totals equal those of some prefix of each file's records lying between what was announced when the aggregation started and what had been written when it ended.",
 ["schedules","histories","inputs"],"every layout of data files, every interleaving of a reader or aggregator with running collectors, re-aggregation of aggregated data",
 "src/paper has no tests; read_recorded_data is only smoke-tested on one quiescent file.",
 [AG,CD],[("recursive search and merge",AG+":main"),("row parsing and summation",CD+":read_recorded_data")],(),["stdout of the aggregator","read_recorded_data"])
add("C06","Sampling respects its shot limits and stopping rules, and always ends",
 "For every problem and every history of batch outcomes, no batch exceeds the batch limit, the total never exceeds the maximum number of shots, and sampling stops at the first batch boundary where either the maximum is reached, or at least the minimum number of shots was taken and either both the requested number of logical errors was seen and the sample standard deviation is low enough, or at least 10 errors were seen and they are at least 48% of the shots. Problems are treated in order and independently of one another, and the number of batches stays within log2(max shots) + max shots / batch limit + 2.",
 ["histories","configurations"],"all settings of minimum/maximum shots, batch limit, error target and deviation target, and all sequences of per-batch error counts",
 "The only test uses min_shots = max_shots = 10, so every problem takes exactly one batch; the doubling, capping and stopping branches never run.",
 [CD,MC],[("batch size and stop conditions",CD+":collect_simulated_experiment_data"),("default limits",MC+":collect_data")],(),["number of shots asked of the sampler per batch","records on stdout"])
add("C07","Recorded processing time is the batch's own elapsed time",
 "The processing seconds recorded for a batch cover at least the sampling and decoding of that batch and nothing outside the span between the previous record and its own, whatever happens to the wall clock (steps forward or back, slewing), however long the process is stalled, and however many collectors run side by side. Summing over records gives the total processing time of a problem.",
 ["fault_sequences","schedules"],"every duration of sampling, decoding and I/O, every wall-clock adjustment at any point, every stall",
 "No test looks at the time column, and a test cannot step the clock.",
 [CD],[("elapsed time between two readings of a monotonic clock",CD+":collect_simulated_experiment_data, collect_detection_fraction_data")],(),["processing-seconds column on stdout and from read_recorded_data"])
add("C08","The external decoder gets exactly the sampled shots; answers match by shot",
 "For every sampled batch the external decoder is handed the error model of the model circuit and one line per shot, in order, naming exactly that shot's detection events, in correlated mode if and only if correlated decoding was asked for; its k-th answer is taken as the prediction for the k-th shot, observable by observable. This holds for any number of detectors, observables and shots, and when several decodings run at the same time in the same directory none of them sees another's files.",
 ["inputs","schedules"],"all batches (including shots without events, circuits without observables or detectors) and all interleavings of concurrent decodings",
 "test_internal_decoder_runs is skipped: the decoder binary is not public, so this code never runs in the tests.",
 [DE],[("file exchange with the decoder process in a private temporary directory",DE+":decode_using_internal_decoder")],(),["files and command line the decoder process receives","returned predictions"])
add("C09","A failing external decoder never produces a count",
 "If the external decoder is missing, cannot be started, exits with an error, is killed, or leaves a missing, truncated or malformed answer, or if exchanging files with it fails, the batch ends with an exception: no success count is returned and no record for that batch is written or announced. If the decoder process fails, the error model, shots and circuit of the failing case are left in the working directory exactly as they were, and unless the collecting process itself is killed its private temporary files are gone afterwards.",
 ["fault_sequences"],"every failure kind of the decoder process and of every file operation around it, at every point, including failures of individual batches in a long collection",
 "The external decoder never runs in the tests, let alone fails.",
 [DE,CD],[("checked subprocess call, format assertions on the answer, repro files",DE+":decode_using_internal_decoder")],(),["outcome of sample_decode_count_correct","output file","working and temporary directory"])
add("C10","The success count is the number of shots with every observable predicted",
 "The number of successes returned for a batch is exactly the number of shots in which the decoder's prediction equals the sampled value of every observable, out of exactly the requested number of freshly sampled shots (never the same random shots again) of the sampled circuit, decoded using only the detection events and the model circuit. This holds for all decoders, any number of observables (including ones no error can flip) and any number of shots; an unknown decoder name or a mismatched model circuit is refused.",
 ["inputs","histories"],"all circuits, model circuits, fault patterns drawn during sampling, decoders, shot counts",
 "Tests call it for two small sizes with random noise and ignore the count (or only require > 99.5% in one case).",
 [DE],[("split of detectors and observables, comparison of predictions",DE+":sample_decode_count_correct"),("matching decoder",DE+":decode_using_pymatching, detector_error_model_to_pymatching_graph")],(),["returned count vs. the simulator's own shot-by-shot knowledge"])
add("C11","Without faults every detector and the logical observable are deterministic",
 "When a generated memory experiment (any supported size, number of sub-rounds, circuit style and observable; also the stored surface code circuits) runs without physical faults, the parity of every detector and of the logical observable is the same in every execution, whatever the outcomes of the intrinsically random measurements. The experiment annotates exactly one observable, the requested one (vertical: number 0, horizontal: number 1).",
 ["histories","configurations"],"all outcomes of the random measurements in all experiments",
 "Tests build error models for widths 2-8, heights 6-30 and fewer than 24 sub-rounds of four styles plus a few golden texts; larger sizes, long loops and EM3_v2 are not reached.",
 [HC,HL,MT,MC],[("detector and observable bookkeeping",HC+":_sub_round_measurements_and_detectors, fault_tolerant_init, fault_tolerant_measurement"),("measurement record arithmetic",MT)],(),["simulated measurement record, detector and observable parities"])
add("C12","Executed circuits refine the ideal honeycomb measurement protocol",
 "Every fault-free execution of a generated circuit reports outcomes that the ideal protocol could produce: starting from the fault-tolerant product state, exactly the requested number of sub-rounds, sub-round k measuring the two-qubit parities of basis X, Y, Z (k mod 3) on all edges of that type of the periodic honeycomb lattice and nothing else, followed by measuring all data qubits in the basis in which the chosen observable is then defined. In every time step each qubit takes part in at most one operation. The logical observable reported is the protocol's horizontal or vertical one, and the detectors are exactly the protocol's comparisons: deterministic first edges, every plaquette once per cycle against its previous value, and the closing comparisons with the data measurements, so that any wrong result raises exactly the detection events and observable flip it raises in the protocol; each detector is labelled with the place of its plaquette or edge and with the sub-round that completes it. A request for which no such experiment exists (odd data width, data height that is no multiple of six, no sub-round, a number of sub-rounds that is no multiple of three for SI1000, an unknown style or observable) is refused with an exception.",
 ["histories","configurations"],"all sizes, sub-round counts (loop folding included), styles, observables, and all random measurement outcomes",
 "Only six golden circuits fix what is measured (2x6 or 4x6, fixed round counts); the other tests only need some decomposable error model to exist.",
 [HC,HL],[("circuit generation per style",HC+":generate_rounds_sd6, generate_rounds_pc3, generate_rounds_em3, generate_rounds_SI1000"),("edge schedule",HL+":round_edges, obs_before_sub_round")],(),["simulated measurement record"])
add("C13","Few physical faults never flip the logical observable undetected",
 "In a generated memory experiment of any size, no set of physical faults of the noise model smaller than the circuit's fault distance flips the logical observable without any detection event. The fault distance is the data width (vertical observable) or half the data height (horizontal observable) for the ancilla-based styles, and half the width or a third of the height for the entangling-measurement styles; for the stored surface code circuits it is their code distance.",
 ["fault_sequences","configurations"],"all fault locations, fault kinds and combinations below the distance, in all experiments",
 "Tests only require that an error model exists; none looks at undetected errors or distances.",
 [HC,HL,NO],[("choice of detectors and observable",HC),("fault locations",NO+":NoiseModel.noisy_circuit")],(),["detection events and observable flip of each faulty execution"])
add("C14","The matching decoder corrects what the code distance promises",
 "In every generated memory experiment with a fault distance of at least 3 and an error rate of at most 0.1%, the matching decoder predicts the logical observable correctly in every execution hit by a single physical fault of the noise model at any place and time, and by no fault at all.",
 ["fault_sequences","configurations"],"all single faults in all experiments, all error rates up to 0.1%",
 "One test asks for a few statistically good counts on one circuit; single faults are never injected.",
 [DE,HC,NO],[("error model to matching graph",DE+":detector_error_model_to_nx_graph, iter_flatten_model, detector_error_model_to_pymatching_graph"),("decoding",DE+":decode_using_pymatching")],(),["returned success count for runs with injected faults"])
add("C15","Adding noise only adds faults: fault-free behaviour is unchanged",
 "For every circuit over the operations a noise model supports (each qubit used at most once per time step), executing the noisy circuit with none of its faults firing gives exactly the measurement record, detectors and observables of the original circuit for the same random outcomes, on any initial history, loops included; at strength zero no faults are added at all. Helper qubits the model introduces never disturb the qubits of the circuit.",
 ["programs","histories"],"all circuits over the supported operations (nested loops, annotations, inverted results, sparse qubit numbers), all five noise models and user-made ones, all random outcomes",
 "noise_test compares a dozen hand-written texts of one to four instructions; the entangling-measurement model with correlated errors is only compared on one generated circuit.",
 [NO],[("moment-by-moment rewriting",NO+":NoiseModel.noisy_circuit, noisy_op"),("parity measurement gadget",NO+":parity_measurement_with_correlated_measurement_noise")],(),["measurement records of the original and the noisy execution"])
add("C16","Every operation and idle qubit is exposed to its prescribed faults",
 "In every time step (ended by a TICK or a loop boundary) of every noisy circuit whose qubits are used at most once per time step, each operation meets exactly the fault kinds at the strengths its noise model prescribes for it (preparation flips after, measurement flips before or on the result, depolarisation after gates, correlated depolarisation-and-flip for parity measurements), and each qubit not operated on meets the model's idle fault exactly once, with the additional idle fault during measurement or reset where prescribed. No other faults occur, inside or outside loops, and strengths scale with the given error rate. This includes noise models put together by the user and explicitly given sets of idling qubits; an operation the model prescribes no noise for is refused.",
 ["programs","configurations"],"all circuits over the supported operations, all noise models and strengths, every time step of the execution",
 "noise_test checks a few two-moment texts at one strength; no test covers idling inside nested loops, sparse qubits or combinations in one moment.",
 [NO,HL],[("per-moment bookkeeping of used, measured and reset qubits",NO+":NoiseModel.noisy_circuit"),("model tables",NO+":NoiseModel.SD6, PC3, EM3_v1, EM3_v2, SI1000")],(),["fault points reached during the simulated execution"])
add("C17","Problems and circuits do not depend on process, history or interleaving",
 "The list of problems, their numbering, and the circuit of every problem are the same in every worker process and every Python hash seed, no matter which other problems or layouts were generated before or in between in the same process. Each problem's description states the size, rounds begun, noise, style, observable, qubit count and code distance (the fewest single-qubit errors between perfect operations that flip an observable undetected; for surface codes the fewest faults) of the circuit it produces.",
 ["histories","schedules","configurations"],"all sequences and interleavings of layout queries and circuit generations, all hash seeds, all worker assignments of problem numbers",
 "Each test uses fresh layouts under one hash seed and never compares a circuit built in two contexts; the problem list has no tests.",
 [HL,HC,MC],[("value-keyed caches",HL+":round_edges, round_hex_centers, cached properties"),("order-independent record sets",HC),("problem enumeration",MC+":honeycomb_problems, surface_code_problems, collect_data")],(),["generated circuits", "records of workers given a problem number"])
add("C18","Reported intervals and remaining work follow the recorded history",
 "Whenever recorded data is read, at any point of any history of collection runs (growing files, killed or cut-off runs, any batch outcomes up to hundreds of millions of shots), the interval reported for a problem's error rate contains the observed rate and is, to within two hundredths of a shot at either end, the set of rates whose likelihood given all recorded shots is within the requested factor of the maximum; the remaining-work report says finished exactly if the shots, the errors or the error rate (from 10 shots on) reach their limits, and otherwise states the missing shots, missing errors and the shorter of the two times extrapolated from the recorded seconds.",
 ["histories","crash_points","inputs"],"all histories of batches and their outcomes, all points of reading, all ratios and limits",
 "Tests sample eleven count/ratio combinations of at most 100000 shots to four digits; nothing tests remaining work or intervals of data that was recorded and read back.",
 [CD,"src/probability_util.py"],[("binary search over a log-likelihood",CD+":ShotData.likely_error_rate_bounds"),("log likelihood","src/probability_util.py:log_binomial"),("remaining work",CD+":RemainingWork")],(),["interval and remaining work of read data"])
add("C19","Per-round error conversion and line fits invert their forward models",
 "For all rates and numbers of pieces, combining the per-piece error rate over the pieces gives back the total error rate; constrained least-squares fits and their ranges are optimal for all data.",
 ["inputs"],"all rates, piece counts and data sets","Tests check a few values.",
 ["src/plotting.py","src/probability_util.py"],[("closed form","src/plotting.py:total_error_to_per_piece_error"),("fits","src/probability_util.py")],(),["returned values"])
add("C20","Measurement bookkeeping is exact for every operation history",
 "For every sequence of recorded measurements, groups and placeholders, the record offsets produced for a combination of keys are exactly the measurements whose parity the combination denotes, and combinations touching an unknown value are withheld.",
 ["histories"],"all operation sequences","Tests check two short sequences.",
 [MT],[("history per key",MT+":MeasurementTracker")],(),["returned record targets"])
add("C21","Figures show exactly the recorded statistics, or fail",
 "A figure rendered from data files and directories, at any point of any collection history (collectors appending meanwhile, killed, or cut off by a power loss), shows exactly the statistics of the whole records in the files it read. Error-rate plots: per problem family one curve through the per-code-cell error rate of every noise strength with errors, and the per-cell 1000-to-1 likelihood interval of every noise strength; threshold figure: each family in the panel of its noise model, observable and decoder; line-fit figures: per noise strength and distance the rate at which a cell flips either observable, with the fitted line where errors are being suppressed; lambda and teraquop figures: the error suppression factor and the qubit count for one in a trillion errors of that fit, with the range of fits costing at most one more; detection-fraction figure: the recorded fractions. Nothing else is shown, tick labels and legends state what they mark, and no named file is left out. If reading fails, or two experiments claim one point of a fit, the script fails instead of showing less.",
 ["histories","crash_points","fault_sequences","schedules"],"all recorded statistics (of experiments with a common number of code cells for the fits), all interleavings with collectors, all read failures",
 "One test checks that plotting four problems raises nothing; no test looks at what any figure shows or runs the figure scripts.",
 ["src/plotting.py","src/probability_util.py","src/paper/main_render_threshold_figure.py","src/paper/main_render_lambda_figure.py","src/paper/main_render_detection_fraction_figure.py",CD],
 [("curves and intervals","src/plotting.py:plot_data"),("panels","src/paper/main_render_threshold_figure.py:plot_thresholds"),("combination and fits","src/paper/main_render_lambda_figure.py:LambdaGroup"),("grouping",CD+":ProblemShotData.grouped_by")],(),["artists of the figures when they are saved"])
add("C22","Circuit diagrams show exactly the circuit they are given",
 "Every symbol of a drawn circuit diagram and every edge of the exported lattice graph corresponds to the circuit or layout passed in.",
 ["inputs"],"all circuits and layouts","Tests check three golden diagrams.",
 ["src/circuit_diagrams.py","src/paper/write_honeycomb_networkx_graph.py"],[("diagram","src/circuit_diagrams.py")],(),["diagram text"])
add("C23","Matching decoder predicts what a likeliest explanation of the events predicts",
 "For every memory experiment of distance at least 3 (the repository's honeycomb and surface code experiments, other circuits with matchable errors, several observables included) and every history of physical faults of any number and place, the observable flips the matching decoder predicts are those of a likeliest set of error components of the model circuit explaining the detection events: components (the parts errors are decomposed into) count as independent, equal ones combined to the probability that an odd number of them occurs, loops included. Equally likely explanations may be resolved either way. The prediction depends on the model circuit's strengths, not on those of the sampled circuit.",
 ["fault_sequences","inputs","configurations"],"all experiments, noise strengths, model circuits and fault histories",
 "Tests check graphs of a few hand-made models and that some samples decode mostly well; a wrong weight or a wrongly combined parallel edge changes only the answers to rare combinations of faults.",
 [DE],[("combination of parallel edges and weights",DE+":detector_error_model_to_nx_graph"),("loops, shifts and decomposed errors",DE+":iter_flatten_model"),("matching",DE+":decode_using_pymatching")],(),["returned success count for runs with injected faults"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(p)+"\n" for p in P))
