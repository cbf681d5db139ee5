"""Further properties (executed by meta.py, which injects P, TECH, NOTE, NA, EQ, REL)."""
SMF = "sureal/subjective_model.py"
DRF = "sureal/dataset_reader.py"
ANY = "for every dataset: any number of stimuli, subjects and repetitions, any votes, any pattern of votes not cast"
SHP = "for all votes, in dataset shapes covering list, tuple and dictionary style, single and repeated votes, missing subjects, unordered ids"
GOLD = "The tests compare a few outputs on a handful of fixed datasets with recorded numbers; they do not quantify over vote tables, sizes, missing-vote patterns or ties."

P("C06", "Votes are read from the dataset exactly as written",
  "A reader presents, for every stimulus in file order and every subject, exactly the votes written for them: each vote in its own repetition, subjects in positional order for list-style datasets and in sorted name order for dictionary-style ones, votes not cast marked missing, repetitions padded with missing; a stimulus is a reference if and only if its path is the path of the reference of its own content. The mean opinion scores computed from a dataset are those of the votes written in it.",
  ["inputs"], ANY + "; list, tuple and dictionary style", "The tests read fixed dataset files of two layouts; they do not quantify over vote containers, id orders, raggedness or absent subjects.", [DRF],
  [("vote array", DRF + ":RawDatasetReader.opinion_score_3darray"), ("subject order", DRF + ":RawDatasetReader._get_list_observers"), ("reference marks", DRF + ":RawDatasetReader.disvideo_is_refvideo")],
  ["opinion_score_3darray and num_observers of a reader", "result of run_modeling"])
P("C15", "Centring the subject biases moves only scores and biases",
  "With the zero-mean bias option (on by default) the biases of the estimators with a bias term sum to zero; relative to the option off, every score is larger by the mean bias, every bias smaller by it, and every other output is unchanged.",
  ["inputs", "configurations"], ANY, GOLD + " No test relates the two settings.", [SMF], [("bias centring", SMF + ":_run_modeling of each estimator with a bias term")], ["result of run_modeling"])
P("C16", "Final normalisation and transform touch only the scores",
  "With normalize_final the reported scores are the unnormalised scores minus their mean over their population standard deviation; with transform_final they are p2 x^2 + p1 x + p0 of them (absent coefficients zero), after normalisation when both are given; every other reported quantity is what it is without these options.",
  ["inputs", "configurations"], ANY + ", any coefficients", GOLD, [SMF], [("post-processing", SMF + ":SubjectiveModel._postprocess_model_result")], ["result of run_modeling with normalize_final / transform_final"])
P("C20", "The aggregated export carries exactly the source's stimuli and the given scores",
  "Exporting scores to an aggregated dataset yields every public field of the source dataset and every stimulus in order with its own fields and its own score (and deviation if given) and without raw votes; given lists of content ids or asset ids, exactly the stimuli in them remain; a quality resolution or resampling type is recorded if and only if given.",
  ["inputs", "configurations"], SHP + "; any sizes for the homogeneous shapes; all combinations of the listed options", "One test exports one dataset and compares a few fields.", [DRF],
  [("aggregated export", DRF + ":RawDatasetReader.to_aggregated_dataset")], ["the dataset returned by to_aggregated_dataset"])
P("C21", "Per-subject and dictionary-style exports preserve every vote",
  "The per-subject export has one entry per stimulus and cast vote, in stimulus then subject order, each with the stimulus's own fields and that vote; the dictionary-style export has the same stimuli and the same votes, subject i of a list-style dataset named after the dataset and i, and leaves a dictionary-style dataset's content as it is.",
  ["inputs"], SHP, "One test each, on one dataset with no missing votes.", [DRF], [("per-subject export", DRF + ":RawDatasetReader.to_persubject_dataset"), ("dictionary style", DRF + ":RawDatasetReader.to_dictionary_style_dataset")],
  ["the returned dataset"])
P("C22", "Combining two datasets keeps every vote of the common stimuli",
  "The overlap of two datasets has one entry per pair of stimuli with the same path, in the first dataset's order; a subject of both has its votes of the first then those of the second, every other subject its own votes unchanged; contents are renumbered consecutively in order of appearance, consistently between stimuli and references.",
  ["inputs"], SHP + ", in pairs", "One test combines two datasets without common subjects' repetitions or tuples of votes.", [DRF], [("combination", DRF + ":RawDatasetReader.to_combined_overlap_dataset"), ("content renumbering", DRF + ":RawDatasetReader.to_combined_overlap_dataset")],
  ["the returned dataset"])
P("C23", "Conversion to paired comparisons records each subject's own preferences",
  "For every subject and every pair of stimuli it voted on (of one content unless asked otherwise) the paired-comparison dataset holds exactly one result: a win of the stimulus the subject scored higher, half a win each (or one win, by coin toss, if asked) on ties; never a pair of contents not to be compared, of a stimulus with itself or of a stimulus the subject did not vote on. Given per-stimulus scores, rates or noise levels apply to the stimulus at that position; rate 0 records nothing, rate 1 everything.",
  ["inputs", "configurations", "schedules"], SHP + ", all listed options, any outcome of the random draws", "The tests convert one dataset and compare a few sums, for one outcome of the draws.", [DRF], [("conversion", DRF + ":RawDatasetReader.to_pc_dataset")],
  ["the dataset returned by to_pc_dataset"])
for _i in ("C06", "C20", "C21", "C22", "C23"):
    TECH[_i] = EQ
for _i in ("C15", "C16"):
    TECH[_i] = REL
P("C17", "Callers' datasets, options and arrays are left as they were",
  "Running a model, reading votes, and every export or conversion leave the dataset they are given, its stimuli, votes and references, and every list, array and option dictionary passed in exactly as they were, so that one dataset can be read, modelled and exported any number of times.",
  ["inputs", "histories"], SHP + "; every model, every export, all listed options", "No test looks at its input after the call.", [SMF, DRF],
  [("preprocessing on copies", SMF + ":SubjectiveModel._get_opinion_score_3darray_with_preprocessing"), ("exports on copies", DRF + ":RawDatasetReader.to_*_dataset"), ("post-processing", SMF + ":SubjectiveModel._postprocess_model_result")],
  ["the dataset and arguments after the call"])
P("C18", "Same votes and options, same result, whatever ran before",
  "The result of a model, the votes read and every deterministic export depend on the votes and options only: not on the clock, an entropy source, the iteration order of hash sets, earlier calls on the same model or reader, other options used before, or other datasets processed before; a seeded conversion or simulation repeats exactly.",
  ["inputs", "histories", "schedules"], SHP + "; every model; histories of up to three calls with differing options", "Each test makes one call on a fresh object in one process with one hash seed.", [SMF, DRF],
  [("no state carried between calls", SMF + ":SubjectiveModel.run_modeling"), ("sorted subject names", DRF + ":RawDatasetReader._get_list_observers"), ("seeding", DRF + ":RawDatasetReader.to_pc_dataset")],
  ["result of repeated and reordered calls"])
P("C19", "Iterative estimators always stop at their iteration cap",
  "Every iterative estimator leaves its loop after at most its declared number of iterations (1000 for the alternating projection, 5000 for the legacy, 10000 for the gradient estimators), whatever the votes, missing votes or thresholds and whether or not it converges.",
  ["inputs"], ANY + ", including those on which the iteration diverges or produces undefined numbers", "All test datasets converge long before the caps.", [SMF],
  [("iteration caps", SMF + ":SubjectMLEModelProjectionSolver, LegacyMaximumLikelihoodEstimationModel, MaximumLikelihoodEstimationModel")], ["return of run_modeling"])
P("C26", "Simulated, selected and corrupted votes follow their declared rules",
  "A simulating reader gives each vote as quality plus subject bias, content bias and the declared noise, the same for the same seed; a selecting reader gives exactly the selected subjects' or stimuli's votes; a corrupting or dropping reader changes only votes of the selected subjects or drawn votes, and those exactly as declared (shuffled, flipped, set to the minimum, middle, maximum or one constant, replaced within the scale, or missing), none at probability 0 and all at 1. A dataset written from such a reader reads back as the same votes.",
  ["inputs", "schedules"], SHP + ", any outcome of the random draws, probabilities in [0,1]", "The tests compare single sums for one seed each.", [DRF],
  [("simulation", DRF + ":SyntheticRawDatasetReader.opinion_score_3darray"), ("dropping", DRF + ":MissingDataRawDatasetReader"), ("selection", DRF + ":SelectSubjectRawDatasetReader, SelectDisVideoRawDatasetReader"), ("corruption", DRF + ":CorruptSubjectRawDatasetReader, CorruptDataRawDatasetReader"), ("write back", DRF + ":MockedRawDatasetReader.to_dataset")],
  ["opinion_score_3darray and to_dataset of the reader"])
TECH["C17"] = "abstract interpretation with a symbolic heap: comparison of the input part of the heap before and after the analysed call"
TECH["C18"] = "dependence (non-interference) analysis on value graphs: two worlds differing in clock, entropy and hash order; two histories"
TECH["C19"] = "loop analysis on the value graph: data-independent counter and unconditional exit"
TECH["C26"] = EQ + "; relational invariants for the corrupting readers"
P("C25", "Invalid datasets and conflicting options are refused, not silently processed",
  "A dataset with a stimulus without votes entry, with votes of the wrong kind or number of subjects, of an unknown or negative content, or (paired comparisons) with an undefined result or asset; a combination of options that would apply a step twice or contradicts itself, or an unknown method name; differential scoring without a reference score or without exactly one reference stimulus; the wrong number of scores for an export, or an export before modelling: each ends in an exception, never in a result.",
  ["inputs", "configurations"], "for all votes, every model and reader, each kind of invalid dataset, argument or option combination listed", "The tests try a handful of invalid inputs; most checks are never exercised.", [SMF, DRF],
  [("dataset checks", DRF + ":RawDatasetReader._assert_dataset, PairedCompDatasetReader._assert_dataset"), ("option checks", SMF + ":SubjectiveModel._get_opinion_score_3darray_with_preprocessing and run_modeling overrides"), ("argument checks", DRF + ":RawDatasetReader.to_pc_dataset, to_aggregated_dataset, _assert_input_dict of the simulating readers")],
  ["outcome of the call"])
TECH["C25"] = "exceptional-exit analysis by abstract interpretation: every path on the invalid input must end in an exception"
P("C24", "Paired comparisons are read faithfully and scored by their model",
  "A paired-comparison reader gives, for every subject (in sorted order of names) and ordered pair of stimulus positions, exactly the result written for them, its complement for the reversed pair, and missing where none was written. Bradley-Terry and Thurstone estimates, deviations and confidence intervals are those of their stated update and information matrix; both Bradley-Terry solvers give the same scores, reversing every result reverses the scores, and reading is unaffected by modelling or by other datasets.",
  ["inputs", "histories"], "for all results (any wins, ties included) in dataset shapes covering partial designs, unordered asset ids and unordered subject names; structures where every stimulus won and lost", "The tests score three fixed datasets once; none relates solvers, orders or histories.", [DRF, "sureal/pc_subjective_model.py"],
  [("reading", DRF + ":PairedCompDatasetReader.opinion_score_3darray"), ("scoring", "sureal/pc_subjective_model.py:resolve_model of each model")], ["opinion_score_3darray of the reader", "result of run_modeling"])
TECH["C24"] = EQ + "; relations between solvers and between mirrored datasets"
ROF, PMF = "sureal/routine.py", "sureal/perf_metric.py"
P("C27", "The combined report holds exactly what each model reports",
  "Running several models on a dataset file returns for each model, in the order asked, exactly the results that model gives for that file, with the stimulus names and the reconstruction statistics of its own estimates. The formatted report and the file the command line writes hold each of these numbers under its own stimulus, subject or content and its own model's name, none lost, duplicated or moved; asking for plots changes none of them.",
  ["inputs", "configurations"], SHP + "; .py and .json files, every model, combinations of models, plotting on or off, all command line options", "The tests run the routine on two files and check a few numbers; no test reads the report.", [ROF, "sureal/__main__.py"],
  [("running the models", ROF + ":run_subjective_models"), ("report", ROF + ":format_output_of_run_subjective_models"), ("command line", "sureal/__main__.py:main")], ["return of run_subjective_models", "text written by the command line"])
TECH["C27"] = EQ
P("C28", "The standalone demonstration programs follow the same procedure",
  "Each standalone program (P.910, P.913, BT.500) reads the table of votes as written, missing cells as missing, and on any table computes the alternating-projection estimates: start, update, stopping test, cap of 1000 rounds, scores, biases and inconsistencies of the recommendation, and for every stimulus the deviation of its own residues. The table given is not modified.",
  ["inputs"], "for every table: any number of stimuli, subjects (and repetitions), any votes, any pattern of votes not cast", "The demonstration programs are run on one table each.", ["itut_p910_demo/demo_p910.py", "itut_p913_demo/demo.py", "itur_bt500_demo/demo_bt500.py"],
  [("procedure", "run_alternating_projection of each program"), ("table", "read_csv_into_2darray / read_csv_into_3darray of each program")], ["return of run_alternating_projection", "return of the table reader"])
TECH["C28"] = EQ + "; loop analysis for the cap"
P("C29", "Prediction metrics compare truth and prediction as defined",
  "RMSE, Pearson, Spearman (average ranks on ties) and Kendall (tau-b) scores are those of their definitions on the per-stimulus truth and prediction, where raw votes count by their mean; with the logistic mapping requested, of truth and mapped prediction, otherwise of the numbers as given; aggregation over several results is the declared one. Truth and prediction of different lengths are refused and neither is modified.",
  ["inputs", "configurations"], "for all numbers, ties included, truth as scores, raw votes or a mix, in lists, tuples or arrays, with and without the mapping", "The tests evaluate each metric on two or three fixed vectors.", [PMF],
  [("metrics", PMF + ":RmsePerfMetric, PccPerfMetric, SrccPerfMetric, KendallPerfMetric"), ("preprocessing", PMF + ":RawScorePerfMetric, AggrScorePerfMetric")], ["result of evaluate"])
TECH["C29"] = EQ
P("C30", "Helpers do what they declare for every input, order and history",
  "Weighted means use exactly the values present and their own weights; densities, counts, positions and grouping helpers are those of their definitions; the parallel map returns what the plain map would, in the same order, whichever process finishes first and however many may run; a cached call returns what the call itself would, across functions, arguments, objects and later processes. None modifies its arguments.",
  ["inputs", "schedules", "histories"], "for all values and missing patterns; any order in which processes finish; histories of calls on several functions and objects sharing a cache", "The tests call each helper on one or two fixed arguments; none covers another finishing order or a second process.", ["sureal/tools/stats.py", "sureal/tools/misc.py", "sureal/tools/decorator.py"],
  [("statistics", "sureal/tools/stats.py"), ("parallel map", "sureal/tools/misc.py:parallel_map"), ("caches", "sureal/tools/decorator.py:memoized, persist_to_file, persist_to_dir")], ["return of the helper"])
TECH["C30"] = EQ + "; sampled process finishing orders in the abstract semantics"

# ---- stated, not claimed: out of reach of static analysis here
P("N01", "The iterative estimators reach a maximum of the likelihood",
  "On every dataset the scores and subject parameters returned by the maximum-likelihood estimators are a (local) maximum of the likelihood of the votes, up to the declared threshold.",
  ["inputs"], ANY, GOLD, [SMF], [("Newton and alternating iterations", SMF + ":MaximumLikelihoodEstimationModel._run_modeling")], ["result of run_modeling"])
P("N02", "Reported intervals cover the truth at their nominal rate",
  "On data generated by the declared vote model, the reported 95% intervals contain the true parameters in 95% of the experiments.",
  ["inputs"], "for every true parameter vector", "The tests print coverage on a few simulated experiments.", [SMF], [("intervals", SMF + ":MaximumLikelihoodEstimationModel"), ("coverage", "sureal/routine.py:validate_with_synthetic_dataset")], ["result of run_modeling"])
P("N03", "Results are stable under floating-point rounding",
  "Results differ from those of exact arithmetic by a small multiple of the machine precision.",
  ["inputs"], ANY, GOLD, [SMF], [("arithmetic", SMF)], ["result of run_modeling"])
P("N04", "The paired-comparison solvers terminate and agree",
  "On every connected comparison matrix the Bradley-Terry and Thurstone solvers terminate, at the same estimate up to their thresholds.",
  ["inputs"], "for every connected comparison matrix", "The tests solve a handful of matrices.", ["sureal/pc_subjective_model.py"], [("solver loops", "sureal/pc_subjective_model.py:BradleyTerryMlePairedCompSubjectiveModel.resolve_model")], ["result of run_modeling"])
P("N05", "Plots show what was computed",
  "Every figure drawn by the routines shows each reported value at its own place with its own label.",
  ["inputs"], ANY, "The tests only check that drawing does not fail.", ["sureal/routine.py"], [("drawing", "sureal/routine.py:visualize_pc_dataset, run_subjective_models")], ["the axes"])
NA += [
    ("N01", "quantifies over the limit of a data-dependent non-linear iteration; the updates themselves are decided by C11 and C12 and the caps by C19, but no static argument in reach bounds where Newton steps end up"),
    ("N02", "a probability over experiments, not a fact about the source; that the intervals are the declared functions of the estimate is decided by C14"),
    ("N03", "rounding error of data-dependent sums and iterations; the analyser computes over the reals on purpose"),
    ("N04", "convergence of a multiplicative/Newton iteration without a cap: depends on run-time data; the updates, the likelihood and their symmetries are decided by C24"),
    ("N05", "the observable is an image; the data handed to the drawing code come from the results decided by C27"),
]
