"""Writes /verif/properties.jsonl (kept as code so that it stays readable)."""
import json, pathlib
P = []
def add(id, title, statement, over, qtext, why, files, mechanism, state=(), observe_at=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=list(observe_at), hook_needed=hook)))

add("P01", "A failed estimator run becomes an explicit failure record, never a number",
 "Benchmarking an estimator on a saved sample yields a record. If the estimator raises an ordinary error at any point (including a failing external program) the record says success=False, has NaN for the estimate and the time and carries the error text and the external program's captured output; if it returns, the record says success=True and carries exactly the reported estimate and extra information; both kinds carry the run's estimator id, task id, seed, caller-supplied information and true number of samples. User interrupts and process-exit requests are never swallowed or turned into records.",
 ["fault_sequences", "crash_points", "histories"],
 "for every exception raised at any point of any estimator (built-in, wrapped function, external program), every mixture of failing and succeeding runs, and every caller-supplied information dictionary",
 "tests run two or three estimators that succeed or raise one fixed exception; they never fail an estimator half-way, make an external process die by signal, or interrupt a run",
 ["src/bmi/benchmark/result.py", "src/bmi/estimators/external/external_estimator.py", "src/bmi/interface.py"],
 [("try/except around the estimation", "src/bmi/benchmark/result.py:run_estimator"), ("exit status check of the child process", "src/bmi/estimators/external/external_estimator.py:_run_command_and_read_mi")],
 observe_at=["RunResult returned by run_estimator", "exceptions escaping run_estimator"])

add("P02", "Run records never leak into one another",
 "The record of a run depends only on that run's own estimator outcome and arguments: information or errors of one run never show up in the record of another, whatever estimators, information dictionaries and sample files the runs share and however earlier runs ended. A returned record never changes because of later runs or because the caller reuses its dictionary, and the caller's dictionary is left exactly as it was passed.",
 ["histories", "fault_sequences"],
 "for every sequence of succeeding, failing and interrupted runs that share estimators, dictionaries, sample files and task ids",
 "every test makes a single run with fresh arguments, so nothing can leak from an earlier one",
 ["src/bmi/benchmark/result.py", "src/bmi/interface.py"],
 [("per-run additional_information dictionary", "src/bmi/benchmark/result.py:run_estimator")],
 observe_at=["RunResult of every run of a history, re-read at the end of the history", "the caller's dictionary"])

add("P03", "Recorded run time is elapsed monotonic time of the estimation",
 "If the estimator does not report its own time, the record of a successful run holds the time that elapsed on a monotonic clock during the estimation alone, excluding the time to read the sample, and jumps of the wall clock do not affect it. If the estimator reports its time, including zero, exactly that is recorded. The stopwatch the package offers obeys the same rule: check returns the monotonic time since the last reset, and only a reset moves its origin.",
 ["schedules", "fault_sequences", "histories"],
 "for every duration of reading and estimating, every wall-clock step forwards or backwards at any point of the run, and every sequence of stopwatch operations on any number of stopwatches",
 "tests sleep for a few real milliseconds with a steady clock and a loose tolerance",
 ["src/bmi/benchmark/result.py", "src/bmi/benchmark/utils/timer.py", "src/bmi/interface.py"],
 [("Timer based on perf_counter", "src/bmi/benchmark/utils/timer.py"), ("timer started after the sample was read", "src/bmi/benchmark/result.py:run_estimator")],
 observe_at=["RunResult.time_in_seconds", "Timer.check", "Timer.check_and_reset"])

add("P04", "A saved sample reads back unchanged or an error is raised",
 "For every number of points, pair of dimensions and numeric dtype, a sample whose saving returned normally reads back with the same values (to about 1e-12 relative), shapes, row order, column order and X/Y split, whatever the file held before, and the dimensions read from the file agree. If storage fails during saving or loading (disk full, I/O error at any byte, short writes, error while closing), an error is raised: saving never reports success for an incomplete file, loading never returns part of a sample. Saving again after a failed or killed attempt fully repairs the file.",
 ["inputs", "fault_sequences", "crash_points", "histories"],
 "for every sample shape and dtype, every storage fault at any byte or at close, a kill at any write, and every leftover file content",
 "tests save one or two small samples to a healthy disk into a fresh directory",
 ["src/bmi/utils.py", "src/bmi/benchmark/task.py"],
 [("CSV with X<i>/Y<i> header", "src/bmi/utils.py:save_sample"), ("column split by name", "src/bmi/utils.py:read_sample")],
 observe_at=["arrays returned by read_sample", "dims returned by read_sample_dims", "exceptions of save_sample / Task.save_sample / read_sample"])

add("P05", "Result and metadata files hold exactly the record that was dumped",
 "After dumping a run record or task metadata returns normally, the file loads with a plain safe YAML loader to the same content: numbers (NaN and infinities included), strings of any characters, nested lists and dictionaries unchanged, NumPy scalars and arrays as plain numbers and lists, paths as strings, enumerations as their values, whatever the file held before. If storage fails at any byte or while closing, dumping raises instead of reporting success, and dumping again afterwards yields a correct file.",
 ["inputs", "fault_sequences", "crash_points"],
 "for every additional-information dictionary of supported values, every storage fault at any byte or at close, a kill at any write and every leftover file content",
 "tests dump one or two fixed dictionaries to a healthy disk",
 ["src/bmi/benchmark/result.py", "src/bmi/benchmark/task.py", "src/bmi/benchmark/utils/dict_dumper.py"],
 [("DictDumper conversions", "src/bmi/benchmark/utils/dict_dumper.py"), ("RunResult.dump", "src/bmi/benchmark/result.py"), ("Task.save_metadata", "src/bmi/benchmark/task.py")],
 observe_at=["YAML file content", "exceptions of dump / save_metadata"])

add("P06", "An external estimator returns the program's exact answer or fails cleanly",
 "An estimator run by an external program hands it the complete sample with the right dimensions and the configured options, and returns exactly the number that the program printed. If the program is missing, exits with an error, is killed by a signal or prints anything that is not a number, an error is raised that shows the program's (decodable) output; no number is ever made up. Afterwards, on success, failure or interrupt alike, no temporary file and no running child process is left behind, and a sample file passed in is unchanged.",
 ["fault_sequences", "schedules", "crash_points", "inputs"],
 "for every sample, estimator configuration, child process outcome (including partial output), interrupt point and interleaving of several estimations",
 "R and Julia are not even available to the tests here; where they are, the tests see only well-behaved programs on one sample",
 ["src/bmi/estimators/external/external_estimator.py", "src/bmi/estimators/external/r_estimators.py", "src/bmi/estimators/external/julia_estimators.py", "external/rmi.R", "external/mi_estimator.jl"],
 [("check_output with exit status check and output parsing", "src/bmi/estimators/external/external_estimator.py:_run_command_and_read_mi"), ("temporary file context manager", "src/bmi/estimators/external/external_estimator.py:estimate_with_info"), ("command construction", "src/bmi/estimators/external/r_estimators.py")],
 observe_at=["argv and file seen by the child process", "estimate / estimate_with_info / run_estimator", "temporary directory", "list of live children"])

add("P07", "Concurrent workers do not interfere",
 "When several threads of one process sample, save, read, estimate and record results at the same time, sharing task objects but each using its own estimator objects and output files, every thread obtains exactly what it would have obtained alone, for every interleaving. A worker that fails or is interrupted does not affect the others.",
 ["schedules", "fault_sequences"],
 "for every interleaving of the workers' steps and every failure of one worker at any point",
 "the tests are strictly sequential",
 ["src/bmi/benchmark/task.py", "src/bmi/benchmark/result.py", "src/bmi/samplers/_tfp/_wrapper.py", "src/bmi/estimators/ksg.py", "src/bmi/estimators/external/external_estimator.py", "src/bmi/utils.py"],
 [("no module level mutable state; lazily computed values are published by a single assignment", "src/bmi/samplers/_tfp/_wrapper.py"), ("unique temporary files", "src/bmi/estimators/external/external_estimator.py")],
 observe_at=["values returned to each thread", "files written by each thread"])

add("P08", "Sampling is a pure function of task, sample size and seed",
 "The sample of a task or sampler for a given size and seed is always the same: it does not depend on what was sampled, estimated or failed before, on the state of global random generators, on the thread or process it runs in, or on hash randomisation, and integer seeds and the equivalent random keys are interchangeable where both are accepted. Different seeds give different samples, and the sample has the requested number of points and the declared dimensions.",
 ["histories", "schedules", "configurations", "crash_points"],
 "for every benchmark task and sampler, every size and seed, every preceding history including aborted calls, every interleaving of concurrent samplings and every process restart",
 "tests draw each sampler once or twice in one process in one fixed order and mostly look at shapes and moments",
 ["src/bmi/samplers", "src/bmi/benchmark/task.py", "src/bmi/benchmark/tasks", "src/bmi/transforms"],
 [("explicit keys derived from the seed argument", "src/bmi/samplers/base.py:cast_to_rng"), ("random_state passed to SciPy and scikit-learn", "src/bmi/samplers/_split_student_t.py")],
 observe_at=["arrays returned by Task.sample and the samplers' sample"])

add("P09", "A task never changes during its life",
 "The true mutual information, dimensions, identity, parameters and distribution of a task or sampler are the same at every moment of its life. No history of sampling, reading metadata, saving, deriving transformed tasks, failing or interrupted calls or concurrent readers changes them, and neither does editing the arrays or dictionaries that were passed in or handed out.",
 ["histories", "crash_points", "schedules"],
 "for every benchmark task and sampler family, every history of operations, every interrupt point inside one, and every edit of passed or returned mutable objects",
 "tests build a fresh task per test, read it once and never modify what they passed or got",
 ["src/bmi/benchmark/task.py", "src/bmi/benchmark/tasks", "src/bmi/samplers", "src/bmi/benchmark/task_list.py"],
 [("defensive copies of arguments", "src/bmi/samplers/_splitmultinormal.py"), ("metadata built on request", "src/bmi/benchmark/task.py"), ("Monte Carlo value computed once with a fixed seed", "src/bmi/samplers/_tfp/_wrapper.py")],
 state=[("lazily estimated mutual information", "cached Monte Carlo ground truth", "src/bmi/samplers/_tfp/_wrapper.py")],
 observe_at=["Task.mutual_information / metadata / params / sample", "ISampler.mutual_information / sample"])

add("P10", "Estimators are repeatable and independent of their history",
 "For the same data and configuration an estimator returns the same estimate every time: reusing one estimator object for other data, other calls or failed and interrupted calls before, a fresh object and a fresh process all give the same value, which does not depend on global random state. Its declared parameters do not change by use, and estimating through the short interface, through the one with information, or from a saved sample agrees. (The Bayesian mixture estimator, whose random key deliberately advances with every call, is excluded.)",
 ["histories", "crash_points", "fault_sequences", "configurations"],
 "for every estimator and configuration, every data set, every preceding history of calls on the same object (including calls that raised or were interrupted at any point) and every process restart",
 "tests call each estimator once on fresh objects",
 ["src/bmi/estimators"],
 [("state rebuilt by every fit", "src/bmi/estimators/ksg.py"), ("key re-derived from the seed at each call", "src/bmi/estimators/neural/_estimators.py"), ("no state kept", "src/bmi/estimators/_histogram.py")],
 observe_at=["estimate", "estimate_with_info", "parameters"])

add("P11", "Estimators and savers never modify the caller's data",
 "Estimating, benchmarking or saving leaves the arrays the caller passed in exactly as they were, byte for byte, for every array kind (any dtype, memory layout, view, read-only or list input), also when the call fails or is interrupted half-way. Neither input that aliases the other nor data shared by several calls is ever written to.",
 ["inputs", "crash_points", "fault_sequences"],
 "for every estimator and saving function, every dtype, layout and aliasing of the inputs and every point at which the call may fail or be interrupted",
 "tests use fresh float64 arrays that nobody looks at afterwards",
 ["src/bmi/utils.py", "src/bmi/estimators"],
 [("copy before in-place standardisation", "src/bmi/utils.py:ProductSpace")],
 observe_at=["bytes of the caller's arrays after the call"])

add("P12", "Neighbour-ensemble predictions always belong to one completed fit",
 "The predictions read from a fitted nearest-neighbour ensemble estimator are always those of one completed fit, one per configured neighbourhood, never a mixture. A fit that fails or is rejected changes nothing: before any completed fit reading predictions raises the not-fitted error, afterwards it keeps returning the previous fit's values. An interrupt at any point of a fit leaves the previous predictions or, if everything was already computed, the new ones in full; so does a concurrent reader see. Dictionaries handed out earlier are never altered.",
 ["crash_points", "histories", "schedules", "fault_sequences"],
 "for every sequence of fits, reads and estimates on one object, with a failure or interrupt at any point of any fit and reads from another thread in between",
 "tests fit once and read once",
 ["src/bmi/estimators/ksg.py", "src/bmi/estimators/base.py"],
 [("predictions published at the end of fit", "src/bmi/estimators/ksg.py:KSGEnsembleFirstEstimator.fit"), ("fitted flag", "src/bmi/estimators/ksg.py:get_predictions")],
 state=[("predictions per neighbourhood", "result of the last completed fit", "src/bmi/estimators/ksg.py")],
 observe_at=["get_predictions"])

add("P13", "Chunking and parallel workers do not affect neighbour estimates",
 "The estimate of the nearest-neighbour ensemble estimator does not depend on the chunk size, the number of parallel jobs, or the order in which parallel jobs run, and equals that of the slow reference variant; only rounding in the last digits may differ. A parallel job that fails makes the fit fail rather than yield a number.",
 ["schedules", "configurations", "fault_sequences", "inputs"],
 "for every data set without ties, chunk size (also larger than or not dividing the number of points), job count, job execution order and job failure",
 "tests use the default chunk size with one job on a few data sets and the real scheduler picks the order",
 ["src/bmi/estimators/ksg.py", "src/bmi/utils.py"],
 [("chunked accumulation of digamma contributions", "src/bmi/estimators/ksg.py"), ("chunker", "src/bmi/utils.py:chunker")],
 observe_at=["estimate / get_predictions of the fast and slow estimators"])

add("P14", "Neural training follows its declared protocol",
 "Training takes one optimisation step at a time, evaluates on the test data after exactly every configured number of steps with the critic of that moment, and ends at the step limit or as soon as two evaluations in a row failed to improve on the best so far (the first evaluation always counts as the best so far, and any number improves on NaN). The reported estimate is the largest test value seen; it is NaN only if there was no evaluation or all were NaN. The reported number of steps, test history and the flag that early stopping was not triggered describe what took place. NaN or infinite values at any step do not crash training. A batch larger than the training set yields NaN with an explicit flag.",
 ["histories", "fault_sequences", "configurations"],
 "for every sequence of training and test values (including NaN and infinities), every step limit, test interval, split and batch size, and both training loops",
 "tests train on a few easy data sets where values grow smoothly, and only look at the final number",
 ["src/bmi/estimators/neural/_basic_training.py", "src/bmi/estimators/neural/_mine_estimator.py", "src/bmi/estimators/neural/_training_log.py", "src/bmi/estimators/neural/_estimators.py"],
 [("training loop", "src/bmi/estimators/neural/_basic_training.py:basic_training"), ("training loop of MINE", "src/bmi/estimators/neural/_mine_estimator.py:mine_training"), ("best value and patience", "src/bmi/estimators/neural/_training_log.py")],
 state=[("best test value", "maximum so far", "src/bmi/estimators/neural/_training_log.py"), ("logs since best", "patience counter", "src/bmi/estimators/neural/_training_log.py")],
 observe_at=["EstimateResult of the neural estimators", "sequence of train and test evaluations"])

add("P15", "Neural estimators train on the training split only, with intact pairs",
 "The training and test parts partition the data: together they hold every point exactly once, with each x still paired with its own y, in the configured proportion (without a split both parts are the whole data). Gradient batches have the configured size, are drawn without repetition from the training part with pairing intact, and never contain a test point; test evaluations use exactly the test part. Data are standardised only when configured, and then as a whole before splitting.",
 ["histories", "inputs", "configurations"],
 "for every data set, seed, split fraction, batch size and training step",
 "tests never look at which points are used; a leak only makes estimates look better",
 ["src/bmi/estimators/neural/_estimators.py", "src/bmi/estimators/neural/_basic_training.py", "src/bmi/estimators/neural/_mine_estimator.py", "src/bmi/utils.py"],
 [("train_test_split", "src/bmi/estimators/neural/_estimators.py"), ("get_batch", "src/bmi/estimators/neural/_basic_training.py"), ("paired and unpaired sampling", "src/bmi/estimators/neural/_mine_estimator.py")],
 observe_at=["points the critic and the objective are evaluated on at each step"])

add("P16", "A trained critic is published only by a completed training",
 "The critic a neural estimator exposes is the one at the end of its last completed training, and nothing before the first. A training that fails, or that is refused because the batch is too large, leaves the exposed critic as it was; an interrupt at any point leaves that critic or, once the training itself was over, the new one, never a half-trained one. A later training on the same object gives the same estimate and critic as on a fresh one.",
 ["crash_points", "histories", "fault_sequences"],
 "for every sequence of trainings on one object with an error or interrupt at any point of any of them",
 "tests read the critic once after one successful training",
 ["src/bmi/estimators/neural/_estimators.py", "src/bmi/estimators/neural/_mine_estimator.py"],
 [("assignment after training returned", "src/bmi/estimators/neural/_estimators.py:estimate_with_info")],
 state=[("trained critic", "critic at the end of the last completed training", "src/bmi/estimators/neural/_estimators.py")],
 observe_at=["trained_critic", "estimate"])

add("P17", "The benchmark pipeline converges to one results table",
 "However the jobs of a benchmark workflow are ordered, run in parallel, killed, failed by storage or resumed, once it completes the results table holds exactly one row per configured combination of estimator, task, sample size and seed, with the estimate, ground truth and identity that an undisturbed run gives (only run times may differ, and a failure inside an estimation may legitimately be recorded as a failed run). Every row was computed from the sample of its own task, size and seed, and no job changes the outputs of another.",
 ["schedules", "crash_points", "fault_sequences", "histories", "configurations"],
 "for every job order and degree of parallelism, every kill or storage fault at any point of any job followed by a resume, and every configuration of estimators, tasks, sizes and non-negative seeds whose identifiers are plain file names",
 "no test runs the workflows at all",
 ["workflows/benchmark/_common_benchmark_rules.smk", "workflows/benchmark/demo/config.py", "workflows/projects/Beyond_Normal/_core_rules.smk", "workflows/projects/Mixtures/_benchmark_rules.smk", "src/bmi/benchmark"],
 [("one output file per job, named by its parameters", "workflows/benchmark/_common_benchmark_rules.smk"), ("Snakemake deletes outputs of unfinished jobs", "external")],
 observe_at=["results.csv", "tasks/*.csv", "results/*.yaml"])

add("P18", "Failures survive aggregation and never distort the tables",
 "A failed run stays visible after aggregation: reading the results table back returns for every run the same success flag, estimate, parameters and additional information that its record holds, whatever characters an error text contains, and one failed run never prevents the others from being aggregated. The benchmark and convergence tables are computed from the runs of the selected sample size only, ignore failed runs in means and never count them as converged.",
 ["fault_sequences", "inputs", "histories"],
 "for every mixture of failed and successful runs, every error text and program output, and every selection of sample size",
 "no test covers the workflow helpers",
 ["workflows/benchmark/_utils.py", "workflows/benchmark/_common_benchmark_rules.smk", "workflows/projects/Beyond_Normal/_core_rules.smk", "workflows/projects/Mixtures/_benchmark_rules.smk", "workflows/projects/Mixtures/v2_results_table.smk"],
 [("dictionary columns parsed with a safe loader", "workflows/benchmark/_utils.py:read_results"), ("sample size filter", "workflows/benchmark/_utils.py:create_benchmark_table")],
 observe_at=["DataFrame returned by read_results", "values of the tables"])

add("P19", "A Bayesian mixture fit is all-or-nothing and uses its declared settings",
 "The posterior accessors of the Gaussian-mixture estimator always describe the last completed fit: its draws together with the dimensions of its data; a fit that fails or is interrupted leaves them describing the previous one, and before any fit they raise. Every declared setting (components, sparsity, warm-up, draws, thinning to distinct draws, standardisation) takes effect in the fit, and two objects with the same key and call history give the same values.",
 ["crash_points", "histories", "configurations", "fault_sequences"],
 "for every sequence of fits and reads on one object with data of different dimensions, and a failure or interrupt at any point of any fit",
 "no test runs this estimator at all (it is slow); at best one would look at one finite number",
 ["src/bmi/estimators/external/gmm.py"],
 [("state assigned after MCMC finished", "src/bmi/estimators/external/gmm.py:run_mcmc")],
 state=[("last MCMC run and data dimensions", "describes the posterior", "src/bmi/estimators/external/gmm.py")],
 observe_at=["get_bmm_distribution", "get_sample_mi", "estimate"])

add("P20", "A call leaves the process that hosts it undisturbed and does not depend on how it is set up",
 "After any call of an estimator, sampler, task or file function, whether it succeeds, is rejected, fails on a disk or program error or is interrupted at any point, the process is as it was: global random generators, NumPy error handling and print options, warning filters, JAX, pandas, scikit-learn, logging and YAML settings, environment, working directory, import path, signal handlers, limits, standard streams (nothing printed unless verbose), open files, threads and temporary files, and no file appears that was not asked for. The global generator, working directory, environment, signal handlers and streams are not changed even temporarily while the call runs. Values and written files are the same whatever these settings are.",
 ["crash_points", "fault_sequences", "histories", "configurations"],
 "for every sequence of calls under every process settings, with an interrupt at any point or a disk or program failure in any of them",
 "tests run under default settings and look at returned values only; a setting left behind or changed for a moment shows up in unrelated code",
 ["src/bmi/estimators", "src/bmi/samplers", "src/bmi/utils.py", "src/bmi/benchmark"],
 [("temporary file released in every case", "src/bmi/estimators/external/external_estimator.py:ExternalEstimator.estimate_with_info"), ("own generators seeded by the caller", "src/bmi/samplers"), ("no process-wide settings", "src/bmi/estimators")],
 observe_at=["settings, files, threads and streams of the process before, during and after each call"])

add("P21", "The study workflows converge to the figures and tables their parts define",
 "Each workflow shipped under workflows/projects has a complete, acyclic and unambiguous job graph; every job succeeds when it is given only the inputs it declares, changes none of them and writes only the outputs it declares. However the jobs are ordered, run in parallel, killed, failed by storage or resumed, the data files and figures of the completed workflow hold what direct computation gives: every sample comes from its own distribution or task with its own size and seed, every estimate from its own sample and estimator, every aggregate from exactly the seeds or draws it stands for, and every plotted series, label and reference line from its own data; configured tasks and estimators have the parameters under which they are listed.",
 ["schedules", "crash_points", "fault_sequences", "configurations"],
 "for every job order and degree of parallelism, every kill or storage fault at any point of any job followed by a resume, and every setting of sizes, seeds and numbers of draws; rules with a script section and tasks on which every run of every estimator failed are excluded",
 "no test runs the workflows at all",
 ["workflows/projects/Mixtures", "workflows/projects/Beyond_Normal", "src/bmi"],
 [("jobs exchange data only through declared files", "workflows/projects/Mixtures/outliers.smk"), ("files named by task, size and seed", "workflows/projects/Beyond_Normal/_core_rules.smk")],
 observe_at=["generated data files", "content of the axes of each figure"])

# --- pure functions: not decidable by simulation with fault injection
add("P30", "Ground-truth mutual information values are correct",
 "For every sampler with a closed form, the reported mutual information equals the mathematical mutual information of the distribution it samples from, and it is non-negative and unchanged under the diffeomorphisms the package offers.",
 ["inputs"], "for every parameter setting of every sampler", "tests compare a few parameter values",
 ["src/bmi/samplers"], [("closed formulas", "src/bmi/samplers/_splitmultinormal.py")], observe_at=["ISampler.mutual_information"])
add("P31", "Numerical correctness of the estimators' formulas",
 "On given data each estimator returns the value that its published formula defines (histogram, kernel density, canonical correlation, nearest neighbour, variational bounds), and the memory-saving form of a variational bound equals the plain one.",
 ["inputs"], "for every data set and hyperparameter", "tests compare with a few reference values",
 ["src/bmi/estimators"], [("formulas", "src/bmi/estimators/_histogram.py")], observe_at=["estimate"])
add("P32", "Transforms and matrix helpers satisfy their algebraic contracts",
 "The transforms are injective with the documented inverses or isometry properties, and the covariance constructions yield positive-definite matrices with the documented structure.",
 ["inputs"], "for every parameter and point", "tests check samples of points",
 ["src/bmi/transforms", "src/bmi/samplers/_matrix_utils.py"], [("formulas", "src/bmi/transforms/_invert_cdf.py")], observe_at=["returned arrays"])
add("P33", "Bend-and-mix pointwise mutual information is consistent",
 "The pointwise mutual information of mixtures, products and transformed distributions equals log p(x,y) - log p(x) - log p(y) of the joint and marginal densities the construction defines.",
 ["inputs"], "for every construction and point", "tests check a few mixtures",
 ["src/bmi/samplers/_tfp/_core.py"], [("formulas", "src/bmi/samplers/_tfp/_core.py:JointDistribution.pmi")], observe_at=["JointDistribution.pmi"])
(pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
