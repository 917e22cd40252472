#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
U = "src/SALib/util/__init__.py"; P = "src/SALib/util/problem.py"; SO = "src/SALib/analyze/sobol.py"
SAM = ["src/SALib/sample/%s.py" % s for s in ("latin", "sobol", "saltelli", "fast_sampler", "finite_diff", "ff", "morris/morris")]
ANA = ["src/SALib/analyze/%s.py" % s for s in ("sobol", "delta", "dgsm", "discrepancy", "enhanced_hdmr", "fast", "ff", "hdmr", "morris", "pawn", "rbd_fast", "rsa")]
R = []
def add(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    R.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": q}, why_tests_cant=why, anchors=a))

add("C01", "Parallel model evaluation gives exactly the serial results",
 "Evaluating a row-wise model in parallel stores the same result array, row for row and column for column, as evaluating it in one call in the same process. This holds for any requested number of processes, any number of available processors, any order and timing in which workers finish, single or multiple outputs, extra model arguments, and with or without the optional progress-bar package.",
 ["schedules", "inputs", "configurations"],
 "every worker schedule, process count (more workers than rows included), processor count, sample size, output shape, extra arguments, and pool back end",
 "The tests run one model with 2 processes on the schedule the OS happens to give, where chunks finish in order; they cannot pick completion orders, cpu counts, empty chunks or the other back end.",
 [P], [("evaluate_parallel: split into chunks, ordered map, join", P), ("_collect_results: rows put back in chunk order", P)],
 [("samples/results", "the input rows and the outputs paired with them", P)], ["ProblemSpec.results"])
add("C02", "Parallel multi-output analysis gives the serial indices for each output",
 "Analysing several model outputs in parallel gives, for every output name, the same sensitivity indices as analysing that output serially with the same settings. This holds for every analysis method, any number of processes and processors and any completion order; no output's indices are lost, swapped or computed from another output's data.",
 ["schedules", "inputs", "configurations"],
 "every analyser, output count, process and processor count, worker schedule and pool back end",
 "The tests compare one or two analysers on one OS-given schedule, where results arrive in submission order.",
 [P] + ANA, [("analyze_parallel: ordered map over output columns", P), ("assignment by output name", P)], None, ["ProblemSpec.analysis"])
add("C03", "Sobol' analysis on several processors gives the single-processor indices",
 "Sobol' sensitivity analysis run on several processors returns the same first-, second- and total-order indices and confidence intervals (kept resamples included) as the same seeded analysis run on one processor. The number of processors and the order in which workers finish never show in the result.",
 ["schedules", "inputs", "configurations"],
 "every processor request and count, worker schedule, parameter/group count, second order on or off, resample count, kept resamples, degenerate output",
 "The only test of it uses one problem on one schedule and compares without kept resamples or degenerate data.",
 [SO], [("create_task_list / sobol_parallel / Si_list_to_dict", SO)], None, ["the returned index table"])
add("C04", "A failure in a parallel worker is reported, never turned into results",
 "When parallel evaluation or analysis cannot complete (a model or analysis raises in a worker, a result cannot be sent back, a worker returns the wrong number of rows, the worker pool cannot be created), the call raises instead of returning, within a bounded number of steps and with its worker pool released. The problem's samples, results and analysis are afterwards exactly as before the call, and repeating the call without the fault succeeds with the right results.",
 ["fault_sequences", "schedules"],
 "every fault kind, which task(s) it strikes, every worker schedule, and repeated fault/recovery sequences",
 "No test makes a worker fail; doing so at a chosen task and completion order needs control of the pool.",
 [P, SO], [("pool context managers, eager collection of ordered results, assignment after collection", P), ("pool use in the parallel Sobol' analysis", SO)], None, ["exception raised", "ProblemSpec.samples/results/analysis", "pools left open"])
add("C05", "Evaluation over a cluster gives the serial results or a clear failure",
 "Evaluating a model distributed over any number of servers and processes stores exactly the results of serial evaluation, with the caller's extra model arguments applied, whatever order the servers answer in. If a server or task fails, the call raises, the stored results stay as they were, the job servers are released, and a later retry succeeds.",
 ["schedules", "fault_sequences", "configurations"],
 "every server list (including none), process count, answer order, task failure and server-creation failure",
 "The one test needs a running parallel-python server, uses localhost and a model without extra arguments.",
 [P], [("evaluate_distributed: split, map, collect", P)], None, ["ProblemSpec.results"])
add("C06", "A problem never pairs results or indices with other samples",
 "After any sequence of setting, sampling, evaluating and analysing steps on a problem, successful or failed, stored results always belong row for row to the stored samples and the stored analysis to the stored results and samples. Changing the samples discards results and analysis, changing the results discards the analysis, and results whose row or column count does not fit are refused, when they are set or at the latest when they are analysed, without changing what was stored.",
 ["histories", "fault_sequences"],
 "every sequence of public operations on one problem, with failing models, samplers and analyses in between",
 "The tests each follow one short, successful call chain.",
 [P], [("samples/results setters and clearing in sample()", P)], [("_samples,_results,_analysis", "the three stages that must agree", P)], ["ProblemSpec.samples/results/analysis/to_df"])
add("C07", "An interrupted or failed step leaves nothing half-done and can be retried",
 "If sampling, evaluation or analysis is cut short while it computes (the user interrupts it, memory runs out, the model fails), the problem definition, the caller's arrays and any stored samples, results and analysis are either as before the step or as after its completion, never in between. Running the same seeded step again afterwards gives the result it would have given had the interruption never happened.",
 ["crash_points", "inputs"],
 "every line of library code at which the interruption can land, for every sampler, analyser and problem step",
 "The tests never interrupt a call; there are thousands of points where one can land.",
 [P, U] + SAM + ANA, [("results computed before being assigned", P), ("problem definition updated only when complete", "src/SALib/sample/ff.py")], None, ["problem dict, input arrays, ProblemSpec.samples/results/analysis"])
add("C08", "Seeded sampling is reproducible",
 "Every sampler called with the same problem, settings and seed returns the same sample, whatever ran before it in the process, whatever the state of the global random generator, the clock, the processor count or the hash seed, and from Python or from the command line. Zero and large seeds count as seeds, and different seeds give different samples wherever the method draws at random.",
 ["inputs", "histories", "configurations"],
 "every sampler, option, seed value, preceding call history, global random state, clock, hash seed and processor count",
 "The tests draw a seeded sample twice for a few samplers and one seed, in one process with nothing in between.",
 [U] + SAM, [("handle_seed and per-call generators", U)], None, ["returned sample array"])
add("C09", "Seeded analysis is reproducible",
 "Every analysis method called with the same data, settings and seed returns the same indices and confidence intervals, whatever ran before it in the process and whatever the state of the global random generator, the clock, the processor count or the hash seed. Zero and large seeds count as seeds, and the seed is honoured from the command line too.",
 ["inputs", "histories", "configurations"],
 "every analyser, option, seed value, preceding call history, global random state, clock, hash seed and processor count",
 "The tests compare a few analyses against expected values for one seed with nothing in between.",
 [U] + ANA, [("seed handling at the top of each analyze()", "src/SALib/analyze/*.py")], None, ["returned index table"])
add("C10", "Concurrent callers do not influence each other's seeded results",
 "When several threads of one program sample and analyse at the same time, each on its own problem and data and with its own seed, every one of them gets the result it would have got running alone. A seeded call also leaves the program's global random generator as it found it.",
 ["schedules", "inputs"],
 "every interleaving, at any line of library code, of any two to four seeded sampling or analysis calls",
 "The tests are single-threaded.",
 [U] + SAM + ANA, [("per-call random generators instead of the global one", "src/SALib/**")], None, ["returned arrays and index tables", "numpy.random.get_state()"])
add("C11", "Command-line sampling writes the whole sample or fails visibly",
 "The sampling command writes a file that holds every row and column of the sample the equivalent Python call with the same options returns, to the requested precision and with the requested delimiter. If the disk is full, a write is cut short, an I/O error occurs or the process is interrupted, the command does not report success, and running it again once the fault is gone replaces whatever was left behind with the complete file.",
 ["fault_sequences", "inputs", "crash_points"],
 "every sampler command, option set, write-call at which a disk fault or interrupt strikes, and leftover file content",
 "The CLI tests run one good invocation per command on a healthy disk and check the row count or a few values.",
 ["src/SALib/scripts/salib.py", "src/SALib/sample/common_args.py"] + SAM, [("run_cli: read problem, sample, write", "src/SALib/sample/common_args.py")], None, ["output file", "exit status / exception"])
add("C12", "Command-line analysis prints the indices of the files it was given, or fails",
 "The analysis command prints exactly the index table that the equivalent Python call with the same options gives for the same parameter, input and output files, for every method, output column and delimiter. If a file cannot be read completely or the result cannot be written out, the command does not report success and prints no table computed from partial data.",
 ["fault_sequences", "inputs"],
 "every analysis command and option set, every read- or write-call at which an I/O fault strikes",
 "The CLI tests run one good invocation per command and compare to a fixed table.",
 ["src/SALib/scripts/salib.py", "src/SALib/analyze/common_args.py"] + ANA, [("run_cli: read problem and data, analyse, print", "src/SALib/analyze/common_args.py")], None, ["standard output", "exit status / exception"])
add("C13", "Incomplete model outputs are refused, and a resumed run is as if uninterrupted",
 "An analysis given outputs that cannot be the complete results of its sample, because a model run stopped part way and the number of outputs fits no complete design or differs from the number of input rows it is given, raises an error instead of returning indices. Once the run is resumed and the missing outputs are added, the analysis equals that of a run that was never interrupted.",
 ["crash_points", "inputs"],
 "every row at which the model run can stop, every sampler/analyser pair, problem size and grouping, and any number of crash/resume cycles",
 "The tests feed complete outputs, or one wrong length for one or two methods.",
 ANA, [("length checks at the top of each analyze()", "src/SALib/analyze/*.py")], None, ["exception or returned index table"])
add("C14", "A parameter file is read whole or not at all",
 "Reading a parameter file gives the complete problem definition that the file holds, however the operating system splits the reads. If a read fails the caller gets an error, never a problem with missing or altered parameters, and a later read of the intact file gives the full definition.",
 ["fault_sequences", "inputs"],
 "every file size, delimiter, chunking of reads, interrupted call and read error position",
 "The tests read small healthy files, which arrive in a single read.",
 [U], [("read_param_file: sniff then read from the start", U)], None, ["returned problem dict"])
add("C15", "Earlier calls leave no trace that changes later ones",
 "Sampling and analysis calls do not modify the caller's arrays, parameter names or bounds, and nothing an earlier call did, nor the caller overwriting an array or table returned earlier, changes what a later seeded call returns. Looking at a result (printing it, making its table or plot, using its emulator) changes neither the result nor the problem, except for the entries in which an emulator leaves its prediction. The only documented exception is the fractional-factorial sampler, which pads the problem with dummy parameters, once.",
 ["histories", "inputs"],
 "every sequence of sampling and analysis calls sharing problem dictionaries, problem objects and arrays",
 "The tests build a fresh problem for each case and make one or two calls on it.",
 [P, U] + SAM + ANA, [("inputs copied before scaling, normalising or extending", "src/SALib/**"), ("dummy parameters added once", "src/SALib/sample/ff.py")], None, ["caller's dict, lists and arrays", "later results"])
add("C16", "A failed save of intermediate bootstrap data never changes the analysis",
 "When the moment-independent (delta) analysis is asked to save its bootstrap draws to a file, the analysis it returns is the same as without saving, whether the save works, fails at any point or the format library is missing. When the save works, the saved table holds exactly the kept draws of every parameter, and when it fails the user is warned (identical warnings may be shown once).",
 ["fault_sequences", "inputs"],
 "every save outcome (success, missing library, disk full, permission or other I/O error), option set and seed",
 "No test exercises a failing save.",
 ["src/SALib/analyze/delta.py"], [("bootstrap_savedf", "src/SALib/analyze/delta.py")], None, ["returned index table", "saved table", "warnings"])

add("C17", "A saved or copied problem carries on exactly like the original",
 "A problem that is pickled, copied or deep-copied at any point of its history of sampling, evaluating and analysing can be restored, in this process or another, and holds the same definition, samples, results and analysis with working tables and methods. Whatever is done with it next gives what the uninterrupted history gives, whatever model was evaluated, and neither a deep copy nor a restored problem shares anything with the original: using one never shows in the other. The same holds for the analysis results alone.",
 ["histories", "crash_points"],
 "every history of steps, every point at which it is saved, copied or restored, in this process or a restarted one, and every continuation with the copy, the original or both",
 "The only test copies a fresh problem once; no test pickles or restores anything.",
 [P, "src/SALib/util/results.py"] + ANA, [("methods attached per object", P), ("methods attached per analysis", "src/SALib/util/results.py"), ("to_df / plot / emulate attached to results", "src/SALib/analyze/**")], None, ["copied and restored problems and results", "the original"])
add("C18", "A call leaves the process around it as it found it",
 "However a sampling, evaluation, analysis, conversion, file reading or command line call ends - normally, with an exception from the model, the disk, a worker or bad data, or by an interrupt or memory failure part way - the settings of the program it runs in are unchanged: warning filters and their format, NumPy, pandas, plotting and logging settings, signal handlers, standard streams, working directory, environment, open files, threads and, for calls given a seed, the global random generators.",
 ["crash_points", "fault_sequences", "histories"],
 "every such call, however it ends, and every prior setting of the program (an interrupt inside clean-up code itself is excluded)",
 "Tests look at returned values, never at the state of the process afterwards, and do not interrupt calls.",
 [P, U, "src/SALib/scripts/salib.py"] + SAM + ANA, [("warnings caught only inside a block", "src/SALib/analyze/**"), ("files opened in with blocks", U), ("pools closed on failure", P)], None, ["process-wide settings and resources"])

add("C19", "Sampling continued in batches or from a saved generator is seamless",
 "A Sobol', Saltelli or finite-difference design can be drawn in batches: skipping the points drawn so far and drawing on with the same seed gives, batch after batch, exactly the rows one larger call would have given, in whatever process or way (function, problem object, command line) each batch is drawn and however often a lost one is redrawn. Likewise a random generator passed as seed is all a series of sampling or analysis calls depends on: saved and restored at any point, here or in another process, it replays and continues the series exactly, and each call leaves it in the same state.",
 ["histories", "crash_points", "configurations"],
 "every split of a design into batches, every batch order of loss and restart, every kind of generator and checkpoint, and any other calls in between",
 "No test draws a design in parts or saves a generator between calls.",
 ["src/SALib/sample/sobol.py", "src/SALib/sample/saltelli.py", "src/SALib/sample/finite_diff.py", "src/SALib/sample/sobol_sequence.py", "src/SALib/util/util_funcs.py"] + SAM[:1], [("skip_values", "src/SALib/sample/sobol.py"), ("handle_seed spawns from the caller's generator", "src/SALib/util/util_funcs.py")], None, ["returned samples and indices", "the generator's state"])

add("C20", "Threads may share one problem, its data and its results",
 "When several threads of one program use the very same problem, input and output arrays or analysis result at the same time - analysing columns of the outputs, drawing further samples, making tables of a result, or running chains on problem objects built from the shared definition - each gets, with its seed, what it would get alone. The shared problem, arrays and result are afterwards as they were before (fractional-factorial sampling may have padded the problem with dummy parameters).",
 ["schedules", "inputs"],
 "every set of threads and calls on shared data, and every interleaving of their steps",
 "No test uses more than one thread.",
 [P, U, "src/SALib/util/results.py"] + SAM + ANA, [("inputs copied before scaling or normalising", "src/SALib/analyze/**"), ("problem definition only read", "src/SALib/util/__init__.py")], None, ["results of each thread", "the shared problem, arrays and result"])
add("C21", "Parallel work is done exactly once, by no more workers than allowed",
 "Parallel and cluster evaluation passes every sample to the model exactly once and never an empty set of samples, and parallel analysis analyses every output exactly once; neither is done more than once even if the call fails. No more workers run than were requested or than the machine has processors or, for an analysis with a number given, than there are outputs (on a cluster: the requested processes per server; the Sobol' analysis runs as many as requested). A call uses one pool (the Sobol' analysis one per output), which is gone when the call ends.",
 ["schedules", "fault_sequences", "configurations"],
 "every number of samples, outputs, requested processes, processors and servers, every schedule and failure",
 "Tests run two or so processes on the machine at hand and look only at the results.",
 [P, "src/SALib/analyze/sobol.py"], [("evaluate_parallel / analyze_parallel / evaluate_distributed", P), ("parallel bootstrap", "src/SALib/analyze/sobol.py")], None, ["rows passed to the model", "outputs passed to the analysis", "size and life of worker pools"])

add("C22", "SALib may be used inside the samplers, models and analyses it runs",
 "A sampler, model or analysis given to a problem object may itself use SALib - seeded calls of the same or other methods, whole nested studies on other problem objects, calls that fail and are handled - before or after its own work, to any depth and whether it runs in the caller's process, in pool workers or on cluster servers. Nested work gives what it gives on its own, and the outer study ends with the samples, results and analysis it would have without it.",
 ["histories", "schedules"],
 "every nesting of sampling, evaluation and analysis calls, every place in the outer study and every kind of evaluation",
 "No test uses SALib from within a model or an analysis.",
 [P, U, "src/SALib/util/results.py"] + SAM + ANA, [("functions called by the problem object", P), ("no state kept between calls", "src/SALib/util/util_funcs.py")], None, ["results of nested calls", "samples, results and analysis of the outer study"])

# pure-function guarantees: listed for breadth, not claimed
add("N01", "Samples have the structure their method defines",
 "Latin hypercube samples hit each stratum once, radial and Saltelli samples change exactly the coordinates they should, Morris trajectories move one group per step, and every value lies in its bounds.",
 ["inputs"], "every problem, size and seed", "Tests sample a handful of problems.", SAM, [("sampler code", "src/SALib/sample")])
add("N02", "Samples follow the declared distributions",
 "Scaling a unit sample maps each column through the inverse distribution the problem declares for it, within its bounds, and leaves the order of values unchanged.",
 ["inputs"], "every distribution and parameter", "Tests sample a handful of distributions.", [U], [("scale_samples", U)])
add("N03", "Indices estimate the sensitivity measures they name",
 "Each analysis converges to the analytic index of its method as the sample grows, and is invariant to relabelling parameters and to shifting the output where the measure is.",
 ["inputs"], "every model and sample size", "Tests check a few benchmark functions.", ANA, [("estimators", "src/SALib/analyze")])
add("N04", "Grouped parameters are treated as one factor",
 "Sampling and analysing a problem with groups moves the members of a group together and reports one set of indices per group, in group order.",
 ["inputs"], "every grouping", "Tests use a few groupings.", [U] + ANA, [("compute_groups_matrix / extract_group_names", U)])
add("N05", "Tables and plots show the computed indices",
 "Converting an analysis to data frames or plots keeps every index, confidence interval and parameter or group name paired as computed.",
 ["inputs"], "every analysis result", "Tests check a few shapes.", ["src/SALib/util/results.py", "src/SALib/plotting/bar.py"], [("to_df methods", "src/SALib/analyze")])
add("N06", "Bundled test functions compute their published definitions",
 "Each bundled test function returns, for every row of its input, the value of its published formula.",
 ["inputs"], "every input matrix", "Tests check a few points.", ["src/SALib/test_functions/Ishigami.py"], [("test functions", "src/SALib/test_functions")])
add("N07", "Parameter files mean what their format says",
 "A parameter file's columns for bounds, groups and distributions are interpreted by the documented rules for any delimiter and any number of columns.",
 ["inputs"], "every well-formed file", "Tests use a few files.", [U], [("read_param_file", U)])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for r in R:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r) + "\n")
