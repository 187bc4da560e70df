#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=hook)))


prop("C01", "A model's result depends only on the dataset and the options",
     "Whenever a subjective model run ends, its result (or its error) is the one the same dataset and options give in a fresh "
     "process, "
     "whatever ran before, is running in other threads, was interrupted or failed half-way, was plotted, was requested in the "
     "same call, or has happened to the global random generators, the clock or the progress output. "
     "A result that was returned, or kept by a model object, is not changed by any later run.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "every sequence and interleaving of model runs over several datasets, readers and options, with interruptions, "
     "clock jumps and output failures anywhere",
     "the tests run each model once on one dataset from a clean start; they never interleave, interrupt or repeat runs",
     ["sureal/subjective_model.py", "sureal/pc_subjective_model.py", "sureal/experimental.py", "sureal/routine.py",
      "sureal/dataset_reader.py"],
     [("models keep their working state in local arrays and derive a fresh options dict", "subjective_model.py _run_modeling"),
      ("each reader rebuilds its score array", "dataset_reader.py opinion_score_3darray")],
     [("model_result", "last result of a model object", "subjective_model.py run_modeling")],
     ["return value of run_modeling / run_subjective_models", "model.model_result", "to_aggregated_dataset"])

prop("C02", "Loading a dataset file gives exactly what that file says now",
     "Loading a dataset file, by any entry point, gives a dataset holding exactly what the file contains at that moment, "
     "independent of other files loaded before or at the same time (same file name in another directory, a file named like "
     "a library module, an earlier version of the same file, a relative path used from another directory). "
     "Loading never changes a dataset that was loaded earlier, never disturbs the importing program's modules, and a file "
     "that cannot be read completely raises an error instead of giving part of a dataset.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "every history of creating, rewriting, replacing, loading and filtering dataset files from one or more threads, with "
     "read errors, short reads and interruptions at any point",
     "the tests load a fixed set of distinct files once each; they never rewrite a file, reuse a name or fail a read",
     ["sureal/tools/misc.py", "sureal/subjective_model.py", "sureal/routine.py"],
     [("import_python_file / import_json_file execute or parse the file", "tools/misc.py"),
      ("_import_dataset_and_filter filters the freshly loaded dataset", "subjective_model.py")],
     [("sys.modules", "process-wide module table a load must not disturb", "tools/misc.py import_python_file")],
     ["attributes of the returned dataset", "datasets returned earlier", "sys.modules"])

prop("C03", "Operations never alter the datasets, readers, scores or options given to them",
     "Reading scores, running models, converting a dataset (aggregated, per-subject, paired-comparison, combined, "
     "dictionary style) and exporting leave the datasets, readers, score lists and option values they were given exactly as "
     "they were, also when the operation fails or is interrupted at any point, and also while other threads use the same "
     "dataset. What a caller later does to the videos and scores of a converted dataset (unless the source already had the "
     "requested form and is itself returned), or to a score array it was given, does not reach the source dataset or any "
     "other result.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "every sequence and interleaving of operations sharing one or more datasets and readers, with interruption or failure "
     "at any line",
     "the tests check return values on a fresh dataset and hardly ever look at the inputs afterwards or run two operations on "
     "the same dataset",
     ["sureal/dataset_reader.py", "sureal/subjective_model.py", "sureal/routine.py"],
     [("conversions deep-copy ref_videos and dis_videos", "dataset_reader.py to_*_dataset"),
      ("models copy kwargs before editing them", "subjective_model.py _run_modeling")],
     [], ["the caller's dataset, input_dict, score arrays and kwargs before and after"])

prop("C04", "The directory result cache is correct across crashes, faults and processes",
     "A call to a function cached in a directory returns a value the function really computed for exactly those arguments (told "
     "apart by their printed form; values in the form JSON gives them), or raises; this holds for any number of processes and threads sharing the directory and after a crash, full disk or I/O "
     "error at any instant. Once a call has returned a value, later calls with the same arguments, in this or any later "
     "process, return a computed value without computing it again; a call whose computation or whose saving failed is not "
     "remembered as a success, and no crash or fault makes later calls fail.",
     ["crash_points", "fault_sequences", "schedules", "histories"],
     "every interleaving of caller processes and threads, every crash or I/O fault point, every sequence of calls",
     "the tests never exercise the directory cache with a fault, a crash or a second process",
     ["sureal/tools/decorator.py", "sureal/routine.py"],
     [("persist_to_dir keys an entry by function name and arguments", "tools/decorator.py"),
      ("_get_sample_stats_wrapper_persistent", "routine.py")],
     [("one file per entry", "durable cache state", "tools/decorator.py persist_to_dir")],
     ["return values of cached calls", "number of computations", "cache directory after a crash"])

prop("C05", "The single-file result cache is correct across crashes, faults and restarts",
     "A call to a function cached in a single file returns a value the function really computed for exactly those arguments "
     "(told apart by their printed form; values in the form JSON gives them), or raises, with any number of processes and threads using the file and after a crash, full disk or I/O error at any "
     "instant, which must never leave a file that stops the next program from starting. Within one process, and across "
     "restarts when one process at a time uses the file, a value that was returned is returned again without computing it "
     "again, in particular after later calls with other arguments were saved or failed to be saved; a call whose computation or whose saving failed does not stop other calls from working.",
     ["crash_points", "fault_sequences", "schedules", "histories"],
     "every interleaving of threads and processes, every crash or I/O fault point, every sequence of calls and restarts",
     "the tests never call the single-file cache at all",
     ["sureal/tools/decorator.py"],
     [("persist_to_file loads the file when the function is decorated and saves it after each new result", "tools/decorator.py")],
     [("cache file", "durable JSON map from call to result", "tools/decorator.py persist_to_file")],
     ["return values of cached calls", "cache file after a crash", "start-up of the next process"])

prop("C06", "An exported dataset file is always complete and loads back as exported",
     "When an export of a dataset of plain data (aggregated, per-subject, paired-comparison, combined, dictionary style, synthetic) returns, "
     "the file loads back as a dataset equal to the exported one, including missing or undefined scores. "
     "At every instant, for concurrent readers and exporters and after a crash, full disk or I/O error at any point, the path "
     "holds either what it held before or a complete export, and an export that could not be written raises an error.",
     ["crash_points", "fault_sequences", "schedules", "inputs"],
     "every dataset and export kind, every crash or I/O fault point, every interleaving of exporters and readers of a path",
     "the tests export two or three datasets with complete scores and never interrupt or fail a write",
     ["sureal/dataset_reader.py", "sureal/subjective_model.py", "sureal/routine.py"],
     [("write_out_dataset prints every attribute as a Python literal", "dataset_reader.py"),
      ("to_*_dataset_file", "dataset_reader.py")],
     [("exported file", "durable dataset", "dataset_reader.py write_out_dataset")],
     ["content of the exported file at every step", "dataset loaded back"])

prop("C07", "A command-line run reports success only if all its outputs are complete",
     "When the command-line tool (or its deprecated predecessor) exits with status 0, its JSON output and every requested "
     "plot are complete and are those of the given dataset and models; any failure to produce them gives a non-zero status. "
     "At every instant, with concurrent runs into one directory and after a crash, full disk or I/O error at any point, the "
     "JSON result file holds either what it held before or the complete result of one run.",
     ["crash_points", "fault_sequences", "schedules", "inputs"],
     "every command line, every crash or I/O fault point on files, directories and standard output, every interleaving of "
     "runs into one directory",
     "the tests run the command line once without faults and look at a few numbers of one output file",
     ["sureal/__main__.py", "sureal/cmd_deprecated.py", "sureal/config.py", "sureal/routine.py"],
     [("main writes output.json / sureal.json and then the plots", "__main__.py, cmd_deprecated.py"),
      ("DisplayConfig.show saves every open figure", "config.py")],
     [("output.json, sureal.json, N.png", "artifacts of a run", "output directory")],
     ["exit status", "output directory at every step", "standard output"])

prop("C08", "The parallel map returns every result in order, once, or raises",
     "Mapping a function over any iterable with worker processes returns the list of function values in argument order, having "
     "called the function exactly once per argument and never run more workers at a time than allowed. "
     "If a worker fails, is killed, or cannot be started, the call raises instead of returning, and it always ends once the "
     "workers have ended.",
     ["schedules", "fault_sequences", "inputs", "configurations"],
     "every worker start and finish order, duration, failure, kill and start error; every iterable and limit",
     "the tests map four items with workers that all succeed, on whatever schedule the machine happens to produce",
     ["sureal/tools/misc.py", "sureal/tools/stats.py"],
     [("parallel_map polls worker processes and collects from a shared dict by index", "tools/misc.py"),
      ("vectorized_convolution_of_two_logistics maps over argument tuples", "tools/stats.py")],
     [("return_dict", "results by argument index", "tools/misc.py parallel_map"),
      ("active_procs / waiting_procs", "worker bookkeeping", "tools/misc.py parallel_map")],
     ["return value or exception", "worker start and end events", "function call log"])

prop("C09", "A memoised value belongs to its object and arguments",
     "A memoised function, method or property returns what its function returns for exactly that object and those arguments. "
     "Once a call has returned, later calls with the same object and equal arguments reuse the value without computing it again, "
     "for any mix of objects, arguments and threads; a computation that raised is not "
     "remembered, and arguments that cannot serve as a key are simply computed. "
     "In particular every paired-comparison reader reports its own dataset's score tensor, whatever other readers exist or "
     "existed and whatever callers did to tensors they were given.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "every history of creating and dropping objects and calling memoised functions from several threads, with failing calls",
     "the tests build one paired-comparison reader at a time and read its scores once",
     ["sureal/tools/decorator.py", "sureal/dataset_reader.py"],
     [("memoized keys its table by the full argument tuple including the object", "tools/decorator.py"),
      ("PairedCompDatasetReader.opinion_score_3darray", "dataset_reader.py")],
     [("cache", "table from arguments to value", "tools/decorator.py memoized")],
     ["returned values", "number of computations"])

prop("C10", "Seeded randomness is reproducible and private",
     "An operation that is given a random seed (synthetic or missing-data scores, sampled paired comparisons, bootstrap "
     "intervals, subject subsampling) gives the same result every time for that seed and input, whatever the state of the "
     "global random generators and whatever other threads draw from them meanwhile. "
     "Such an operation leaves the caller's global random generators as it found them, and an operation without a seed is "
     "reproduced by seeding those generators first.",
     ["schedules", "histories", "inputs"],
     "every interleaving with other users of the generators, every prior generator state, every seed",
     "the tests fix the global seed at the start and run in one thread",
     ["sureal/dataset_reader.py", "sureal/experimental.py", "sureal/routine.py"],
     [("the seed in input_dict / sampling_seed / random_seed / bootstrap index", "dataset_reader.py, experimental.py, routine.py")],
     [("global numpy and random generator state", "ambient, shared with the caller and other threads", "numpy.random, random")],
     ["returned scores and datasets", "generator state before and after"])

prop("C11", "The same inputs give byte-identical artifacts in every interpreter run",
     "Converting a score table, running the command-line tools and exporting datasets produce byte-for-byte the same files and "
     "printed output for the same input in every launch of the interpreter, independent of string-hash seed, environment, "
     "start time, process id and current directory.",
     ["configurations", "inputs", "schedules"],
     "every hash seed, time, time zone, working directory and process id of a launch",
     "the tests run in one interpreter with whatever hash seed it drew and compare numbers, not bytes",
     ["resource/util/mos_to_sureal.py", "sureal/__main__.py", "sureal/cmd_deprecated.py", "sureal/dataset_reader.py",
      "sureal/routine.py"],
     [("output order follows the input order or a sort", "mos_to_sureal.py convert_file, dataset_reader.py write_out_dataset, "
       "routine.py format_output_of_run_subjective_models")],
     [], ["bytes of stdout and of every file written"])

prop("C12", "Measured run times are elapsed time",
     "The timer, and the run time reported by the synthetic validation, equal the time that really elapsed between start and "
     "end of the timed work: never negative, unaffected by steps of the wall clock, by other timers in the same or other "
     "threads, or by an exception in the timed work.",
     ["schedules", "fault_sequences", "histories"],
     "every pattern of delays, wall-clock steps, nested and concurrent timers",
     "the tests never measure a run time under a clock step and cannot control the clock",
     ["sureal/tools/misc.py", "sureal/routine.py"],
     [("Timer reads the performance counter", "tools/misc.py Timer"),
      ("measure_runtime times each model separately", "routine.py validate_with_synthetic_dataset")],
     [("start, end, interval", "timer fields", "tools/misc.py Timer")],
     ["Timer.interval", "result['runtime']"])

prop("C13", "Running an external command succeeds only if the command did",
     "Running an external command returns success only after the command has ended with status 0; a non-zero status, death by "
     "signal, failure to start, or expiry of a given time limit raises, whatever and however much the command printed. "
     "The command is started exactly once, and the process that was started is not left running when the call has ended.",
     ["fault_sequences", "schedules", "inputs"],
     "every exit status, signal, start failure, duration, time limit and output",
     "the tests run no failing, killed or slow command",
     ["sureal/tools/misc.py"],
     [("run_process checks the exit status through subprocess", "tools/misc.py run_process")],
     [], ["return value or exception", "child start and end events"])

prop("C14", "Operations leave the process they run in as they found it",
     "When a load, conversion, export, model run, plot, metric, cached call, timer, call of a function marked deprecated or command-line run has ended, whether it "
     "returned or failed, the process is as it was: working directory, environment, module search path and modules already "
     "loaded, warning filters, numpy error handling and print options, plot settings, standard streams, signal handlers, file "
     "mode mask and other interpreter settings are unchanged, the global random generators have not moved unless the operation "
     "draws without a seed, and neither open files nor temporary files, nor figures nobody asked for, are left behind.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "every history of operations in one or more threads, from every initial process state, with bad input, warnings turned "
     "into errors and I/O failures at any point",
     "the tests look at results only, run every operation from the default process state and never make one fail half-way",
     ["sureal/tools/misc.py", "sureal/tools/decorator.py", "sureal/dataset_reader.py", "sureal/subjective_model.py", "sureal/routine.py",
      "sureal/config.py", "sureal/__main__.py", "sureal/cmd_deprecated.py", "sureal/perf_metric.py"],
     [("import_python_file executes a file without registering it", "tools/misc.py"),
      ("atomic_write removes its temporary file on failure", "tools/misc.py"),
      ("seeded generators instead of the global ones", "dataset_reader.py, subjective_model.py")],
     [("process state", "settings shared with the importing program", "os, sys, warnings, numpy, matplotlib")],
     ["process state before and after each operation", "directory listing"])

# ---- pure functions of their input: not claimed --------------------------------------------------
prop("C20", "Mean opinion scores and their confidence intervals are arithmetically right",
     "The MOS model reports the mean of the available scores of each video, their sample deviation and the 95% interval "
     "derived from it, ignoring missing scores.",
     ["inputs"], "every score matrix", "the tests compare a few entries for fixed datasets",
     ["sureal/subjective_model.py"], [("_get_mos_and_stats", "subjective_model.py")])
prop("C21", "Estimators are equivariant to video and subject order and to score shifts",
     "Permuting videos or subjects permutes the estimates of every model accordingly, and adding a constant to all scores "
     "shifts the quality estimates by that constant.",
     ["inputs"], "every dataset and permutation", "the tests run each dataset in one order",
     ["sureal/subjective_model.py"], [("_run_modeling", "subjective_model.py")])
prop("C22", "Subject rejection follows the BT.500 / P.913 rules",
     "A subject is rejected exactly when the recommendation's kurtosis-based counts exceed its thresholds, and never are all "
     "subjects rejected.",
     ["inputs"], "every score matrix", "the tests check one dataset",
     ["sureal/subjective_model.py"], [("_get_opinion_score_3darray_with_preprocessing", "subjective_model.py")])
prop("C23", "Maximum-likelihood solvers stop at a stationary point",
     "The iterative solvers stop at a point where the likelihood cannot be improved locally, or at their iteration limit.",
     ["inputs"], "every dataset", "the tests check fixed datasets",
     ["sureal/subjective_model.py", "sureal/pc_subjective_model.py"], [("_run_modeling", "subjective_model.py")])
prop("C24", "Paired-comparison models recover the order the votes imply",
     "Bradley-Terry and Thurstone scores rank a video above another when all comparisons favour it.",
     ["inputs"], "every vote tensor", "the tests check one dataset",
     ["sureal/pc_subjective_model.py"], [("_run_modeling", "pc_subjective_model.py")])
prop("C25", "Performance metrics equal their definitions",
     "PCC, SRCC, KENDALL, RMSE, AUC and resolving-power metrics equal their textbook definitions.",
     ["inputs"], "every pair of score vectors", "the tests check a few vectors",
     ["sureal/perf_metric.py"], [("_evaluate", "perf_metric.py")])
prop("C26", "Dataset conversions keep every vote",
     "Converting to paired comparison, per-subject or combined form accounts for every vote of the source exactly once.",
     ["inputs"], "every dataset", "the tests count a few fields",
     ["sureal/dataset_reader.py"], [("to_pc_dataset, to_persubject_dataset, to_combined_overlap_dataset", "dataset_reader.py")])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
