"""Writes properties.jsonl (single source for ids/titles/statements)."""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})


prop("P01", "Each variation moves only the requested parameter; returning restores all",
     "Starting from the fiducial values, varying a free parameter by a given step changes that parameter alone, to the fiducial displaced by that step (relative to the fiducial, or absolutely when the fiducial is zero), and in a flat universe also the matter / dark-energy partner so that they keep summing to one. Varying a fixed parameter, or an inconsistent flat configuration, is refused. Returning to the fiducial restores every parameter exactly, so what a variation is computed with never depends on earlier variations, and writing the parameter set to disk and reading it back loses nothing.",
     ["histories", "configurations"],
     "all parameter sets, displacement tables, flatness/free-parameter configurations, and all sequences of variations, restorations and write/read-backs",
     "Tests displace single parameters or loop once over one shipped parameter set; they never check the other parameters, histories of several variations, or the loop that feeds the spectra.",
     ["seyfert/cosmology/parameter.py", "seyfert/main/cl_core.py"],
     [("displacement, flatness coupling and reset", "PhysicalParametersCollection.updatePhysicalParametersForDvarStep"),
      ("step table", "PhysicalParametersCollection.loadStemDisplacements"),
      ("vary-compute-reset loop", "cl_core.compute_cls_variations")],
     [("current values", "value of every parameter used by the next computation", "PhysicalParameter.current_value")],
     ["PhysicalParametersCollection public API", "arguments reaching the spectra computation"])

prop("P02", "A job directory's name and its (parameter, step) determine each other",
     "Every (parameter, step) pair of a run gets its own job directory, and the name of that directory alone gives back exactly that parameter and step for every step of the configured stencil and every parameter, including ones whose names share a prefix. The stages that work in, list or look up job directories use exactly the variation the directory stands for: listings by parameter contain all and only that parameter's steps, in step order, and lookups by parameter and step return that directory's file.",
     ["inputs", "configurations"],
     "all parameter names, all steps of stencils of any length, all sets of job directories present",
     "No test touches the job-directory naming or the workspace lookups.",
     ["seyfert/utils/filesystem_utils.py", "seyfert/utils/workspace.py", "seyfert/derivatives/cl_derivative.py", "bin/compute_pmm", "bin/compute_cls"],
     [("name from pair", "filesystem_utils.get_cosmology_jobdir_name"),
      ("pair from name", "filesystem_utils.get_dvar_step_from_cosmology_jobdir_name"),
      ("lookups", "WorkSpace.getPowerSpectrumFile and friends, collect* methods")],
     [("job directories", "one directory per parameter and step under each stage directory", "WorkSpace")],
     ["directory names on disk", "WorkSpace public API", "what compute_pmm and compute_cls vary"])

prop("P03", "Forecast stages run in dependency order, complete, once, and stop at failure",
     "For every selection of stages, execution mode and job outcome, a forecast prepares one job per needed (parameter, step) and parameter, runs the selected stages in the order power spectra, angular spectra, derivatives, Fisher, each stage only after every job of the previous one has succeeded (in batch mode: unless the configured maximum waiting time ran out), and computes densities before and covariance inputs after the angular stage. A failing job stops the forecast before any later stage starts; with execution disabled everything is prepared and nothing is executed or evaluated.",
     ["configurations", "fault_sequences", "schedules"],
     "all subsets of stages, all execution modes, all free-parameter sets and derivative methods, a failure at any job",
     "No test runs the forecast driver; it takes hours and a cluster.",
     ["seyfert/main/task_runners.py"],
     [("stage loop", "ForecastRunner.run"), ("job set of a stage", "TaskRunner.createJobDirStructure implementations"),
      ("failure detection", "TaskRunner.executeCommand"), ("batch barrier", "TaskRunner.submitBatchJobs")],
     [("stage progress", "which jobs have been executed, which stage products exist", "ForecastRunner")],
     ["commands handed to the shell / batch system", "directories and scripts on disk"])

prop("P04", "A batch stage is over only when all its own jobs finished; failures surface",
     "Whatever the order in which the batch system reports states, waiting for a set of jobs returns only after every job of that set has been reported finished successfully (or the configured maximum waiting time ran out), and a job reported as exited with an error is reported as an error. Jobs that are pending, running, suspended, or not (yet) listed keep the wait going; jobs of other runs never influence it, and the identifier returned by a submission is the one the batch system assigned to it.",
     ["schedules", "fault_sequences"],
     "all sequences of status listings of the batch system, all sets of own and foreign jobs",
     "There is no batch system in the tests, and nothing simulates one.",
     ["seyfert/main/bsub_utils.py"],
     [("polling loop", "BsubInterface.waitForJobsToComplete"), ("listing parser", "BsubInterface job table parsing"),
      ("submission", "BsubInterface.submitJob")],
     [("job table", "last reported state of every waited-for job", "BsubInterface")],
     ["return or exception of the wait", "commands sent to the batch system"])

prop("P05", "A run directory records its inputs and never alters external results",
     "A forecast always works in its own new directory, in which the inputs it used (forecast and stage configurations, parameters) are copied and indexed, and the input data used is recorded, so that reading the run back gives the same configuration. Results of other runs are used by reference only: no operation of a run creates, changes or removes anything in an external directory or in another run's directory, and absent stages are resolved to exactly the external directory given for them.",
     ["histories", "configurations"],
     "all combinations of present and external stages, repeated and restarted runs, relative and absolute locations",
     "No test creates a run directory.",
     ["seyfert/utils/workspace.py", "seyfert/main/task_runners.py", "bin/job_submitter"],
     [("run directory creation", "ForecastRunner.createRundir / prepareWorkspace"), ("input record", "WorkSpace.createInputFilesDir"),
      ("references", "WorkSpace.symlinkToExternalDirs / createSymlink")],
     [("file tree", "the run's directory and the external directories", "WorkSpace")],
     ["file tree before and after"])

prop("P06", "An interrupted run, restarted, ends with the results of an uninterrupted one",
     "If an in-process forecast (run_seyfert), or the Fisher stage of a submitted one, is stopped at any point and started again on the same run directory, it completes and its stage products and Fisher matrices are those of a run that was never interrupted: products already complete are reused and not recomputed, and incomplete ones are neither taken for complete nor block the restart.",
     ["crash_points", "histories"],
     "a stop before or after every write of every stage, any number of times, for every set of parameters and Fisher combinations",
     "Tests never interrupt anything; the caching of stage products is not tested at all.",
     ["seyfert/main/seyfert_core.py", "seyfert/main/fisher_core.py", "seyfert/main/task_runners.py"],
     [("stage caching", "run_seyfert driver in seyfert_core"), ("skip of existing matrices", "fisher_core.compute_and_save_fishers")],
     [("products on disk", "densities, fiducial spectra, derivatives, covariance inputs, Fisher matrices", "WorkSpace")],
     ["files on disk", "which computations are executed"])

prop("P07", "Existing results are replaced only when replacement was requested",
     "Writing a Fisher matrix, a collection of them, a table or plot ranges derived from them, or the final results of a run to a place that already holds one either refuses (and then changes nothing), or leaves the existing result untouched when told to skip, or replaces it completely when told to overwrite; it never silently replaces, mixes or appends. Re-running the Fisher stage or the final results without asking for overwriting keeps the existing results (the final results as a whole), and with overwriting leaves only new ones, also when the run is driven through the batch system.",
     ["histories", "configurations"],
     "all sequences of writes with all combinations of overwrite/skip switches over all result kinds, starting from any existing content",
     "Tests cover one overwrite and one skip of a single Fisher file; tables, result collections and the stage-level switches are untested.",
     ["seyfert/fisher/fisher_matrix.py", "seyfert/fisher/final_results_core.py", "seyfert/utils/table_utils.py", "seyfert/file_io/hdf5_io.py", "seyfert/main/task_runners.py"],
     [("file-level policy", "FisherMatrix.writeToFile"), ("collection-level policy", "final_results_core.saveFishersToDisk"),
      ("table policy", "table_utils"), ("stage-level policy", "FisherTaskRunner.clearOutput, ForecastRunner.evaluateFinalResults")],
     [("result files", "content of every result location", "file system")],
     ["files on disk", "raised errors"])

prop("P08", "Status reports reflect job outcomes exactly",
     "The report on a run (and its summary) tells of every job directory of every stage of that run exactly once, from the logs of the latest batch execution of the job: 'not executed' when there are none, 'failure' when the error log has content or the batch system ended the job, and 'success' only when its output is there and neither shows a failure. A stage is reported successful only if it has jobs and all of them are, failed if any job failed; the same for a run and its stages; linked external stages are not attributed to the run. Numbers of jobs, core dumps, job numbers, execution hosts, execution times (of any length) and output sizes are those of the logs and files, a batch run ends with its report written, and so it is with the runs that report_batch_jobs points out as incomplete and with the table of resources of the Fisher jobs.",
     ["histories", "fault_sequences"],
     "all sequences of executions and outcomes of all jobs over all stages, including partial and repeated executions",
     "Nothing tests the reports.",
     ["seyfert/main/report_maker.py", "bin/do_jobs_report", "bin/job_submitter", "bin/report_batch_jobs", "seyfert/main/bsub_utils.py"],
     [("job status", "JobReport"), ("stage status", "TaskReportMaker"), ("run status", "RunReportMaker"), ("names of the batch logs", "BsubInterface.submitJob"), ("resources", "BsubInterface.getResourceUsageTable")],
     [("job artefacts", "log and output files of every job directory", "file system")],
     ["report and summary files", "printed summary", "log messages"])

prop("P09", "A multi-run launches each configured combination exactly once, faithfully",
     "Orchestrating a set of configurations launches exactly one forecast per combination of the forecast, Fisher and angular configurations and power spectra found (or one per run directory listed, with that run's own configurations and input data), each with its own run identifier, by increasing number of spectroscopic bins. What reaches the launched program is precisely the configuration files, directories, input data, switches (on or off) and resources that were asked for, those of an ini file overriding them. Requests that are incomplete or ambiguous (no task, no execution mode, several configurations where one is used, no power spectra to compute angular coefficients from) are refused and launch nothing. The same holds for run_seyfert and evaluate_final_results, directly or as batch jobs, and the run directories listed at the end include all those made.",
     ["configurations", "inputs"],
     "all sets of configuration files, run labels, execution modes, resource settings and switches",
     "The orchestrator and the command builders have no tests.",
     ["seyfert/main/orchestration.py", "seyfert/config/cmd_line.py", "seyfert/main/seyfert_core.py", "bin/orchestrate_run", "bin/job_submitter", "bin/run_seyfert", "bin/evaluate_final_results"],
     [("cartesian product and run ids", "orchestration"), ("command building", "build_seyfert_cmd"), ("option parsing", "cmd_line")],
     [], ["commands launched", "options as parsed by the launched programs"])

prop("P10", "A probe-pair quantity is the same whichever way round the pair is named",
     "Every dictionary of spectra keyed by a pair of probes answers a request for (A,B) and for (B,A) with the same stored quantity, transposed when the order is reversed, never stores both, and a write through either order is seen through both. Long, short and alias spellings of a probe or a probe pair name the same thing, convert into each other without loss, and anything that is not such a spelling is rejected.",
     ["histories", "inputs"],
     "all sequences of stores, reads, deletions and membership tests under all spellings and orders of all probe pairs",
     "Tests look at a handful of fixed keys and a single store/read; histories mixing orders and spellings are not explored.",
     ["seyfert/utils/shortcuts.py", "seyfert/base_structs/cl_dict.py", "seyfert/base_structs/generic_dict.py"],
     [("key normal form", "ClKey"), ("transposing lookup", "ClDict / TupleSmartDict / SmartKeyDict")],
     [("mapping", "stored arrays by unordered pair", "ClDict, SmartKeyDict")],
     ["mapping API"])

prop("P11", "A data vector, its names and its Fisher matrix identify each other",
     "Each of the written forms of a data vector (long, short, brief, file name) can be read back into the same data vector, different data vectors have different names, and two data vectors are equal exactly when they contain the same spectra in the same order. The data vectors selected for a forecast are all distinct and start with the single-probe ones.",
     ["inputs"],
     "all sequences of distinct probe-pair spectra over the supported probes, in all written forms",
     "Tests check lists of known examples one form at a time.",
     ["seyfert/fisher/datavector.py", "seyfert/fisher/fisher_utils.py", "seyfert/utils/shortcuts.py"],
     [("naming", "ClDataVector string conversions"), ("equality", "ClDataVector.__eq__"), ("selection", "fisher_utils.load_selected_data_vectors")],
     [], ["ClDataVector API"])

prop("P12", "Each probe pair is used on exactly the multipoles its two probes share",
     "The multipoles assigned to a pair of probes are those allowed for both probes, in increasing order with their own widths, independent of the order in which the pair or the probes are given; the multipoles on which a probe is used alone are exactly its allowed ones that no shared range covers. Grids given by limits and by file meet wherever they denote the same multipole; probes that disagree about the width of a shared one, or share none, are refused. Changing one probe's range changes only the pairs that involve it.",
     ["configurations", "histories"],
     "all multipole grids and ranges of all probes, all probe subsets, all edits of the ranges",
     "Tests intersect two literal arrays; no configuration-level combination is exercised.",
     ["seyfert/config/forecast_config.py", "seyfert/utils/array_utils.py", "seyfert/fisher/fisher_evaluator.py"],
     [("range of a pair", "ForecastConfig.getMultipoleArraysForProbeComb"), ("set operations", "array_utils"),
      ("exclusive ranges", "fisher evaluator")],
     [], ["ForecastConfig API"])

prop("P13", "A combined Fisher matrix counts every multipole of every probe exactly once",
     "The Fisher matrix of a data vector is the sum over the multipoles common to all its spectra of the joint contribution, plus, for every probe whose own spectrum belongs to it, that probe's own contribution from the multipoles outside the common range. It is symmetric, is labelled by exactly the free parameters relevant for the data vector, does not depend on the order in which parameters or probes are listed, and a combination that needs single-probe results fails loudly when they are missing; so does one whose derivatives share other multipoles than its covariance.",
     ["configurations", "inputs", "histories"],
     "all data vectors, multipole layouts, free-parameter sets and orders of computation",
     "The evaluator has no tests.",
     ["seyfert/fisher/fisher_evaluator.py", "seyfert/main/fisher_core.py"],
     [("joint contribution", "FisherEvaluator"), ("exclusive single-probe contribution", "FisherEvaluator / auto_f_ells file"),
      ("parameter selection", "FisherEvaluator")],
     [], ["Fisher matrices returned and written"])

prop("P14", "Covariance blocks hold each spectrum pair at its place, with its own indices",
     "In the covariance of a data vector, the block for spectra (A,B) and (C,D) at each multipole combines exactly the observed spectra (A,C), (B,D), (A,D), (B,C) of the right tomographic bins, with noise only on equal probes, scaled by that multipole's number of modes; the stacking of bins is the same in the covariance and in the derivatives. The matrix is symmetric, is defined on exactly the multipoles shared by all the spectra involved, and swapping the probes inside a spectrum only permutes its entries.",
     ["inputs", "configurations"],
     "all data vectors, numbers of bins, multipole masks and spectra contents",
     "Only the elementary vectorisation identities are tested, on square matrices.",
     ["seyfert/fisher/delta_cl.py", "seyfert/fisher/fisher_evaluator.py", "seyfert/fisher/fisher_utils.py", "seyfert/fisher/linalg_tools.py"],
     [("observed spectra", "delta_cl"), ("block layout", "fisher_evaluator / linalg_tools"), ("masking", "fisher_utils.buildXCBlockMatrixForProbes")],
     [], ["covariance arrays"])

prop("P15", "Fisher algebra acts on parameters by name and leaves its operands alone",
     "Adding or subtracting Fisher matrices aligns them by parameter name and treats absent parameters as zero; fixing removes exactly the named parameters, marginalising gives the inverse of the sub-block of the inverse, restricting or reordering only selects. These operations commute where mathematics says so, never depend on the order in which parameters are listed, keep labels and parameter sets consistent with the entries, refuse unknown names, and never modify an operand other than the matrix they are told to change; errors, figure of merit and correlations are always those of the matrix as it is now.",
     ["histories", "inputs"],
     "all sequences of algebraic operations over all small Fisher matrices with overlapping parameter sets in any order",
     "Each operation is tested once on one fixture; sequences, aliasing and order-dependence are not.",
     ["seyfert/fisher/fisher_matrix.py"],
     [("aligned sum", "FisherMatrix.__add__/__sub__"), ("fix, marginalise, select", "FisherMatrix methods")],
     [("matrix", "parameter names, cosmological/nuisance sets and entries", "FisherMatrix")],
     ["FisherMatrix API"])

prop("P16", "Final results contain exactly the requested combinations, derived as written",
     "The final results hold every input Fisher matrix and every a-posteriori combination whose operands are all available, each computed left to right exactly as its name reads, under exactly the requested fixing and marginalisation, without altering the inputs. Combinations with a missing operand are left out, none is invented, and what is saved and read back is the same set of matrices under the same names.",
     ["configurations", "histories"],
     "all sets of available matrices, combination lists, and fixing / marginalisation requests",
     "Tests evaluate a few shipped combinations on fixtures.",
     ["seyfert/fisher/final_results_core.py", "seyfert/fisher/fisher_analysis.py", "seyfert/fisher/fisher_results.py"],
     [("combination evaluation", "final_results_core"), ("marginalisation and fixing", "fisher_analysis")],
     [("collection", "matrices by name", "FisherAnalysis")],
     ["returned analyses", "files written"])

prop("P17", "The step-fit derivative keeps only the symmetric central range that is linear",
     "The numerical derivative of each spectrum element is the slope of a straight line through the samples of the widest central range of steps for which the fit is within the stated relative tolerance, shrinking both ends together; exact for linear dependence, zero for constant, odd under a sign change of the data, unaffected by other elements computed along with it, and the same whether elements are processed one by one or together. Samples and parameter values are matched by step; spectra that do not involve a nuisance parameter's probe have zero derivative, and an incomplete set of variations is refused. Where a bias is one value per bin or per interval of redshift, the analytic derivative is the spectrum, or the part of its integral inside that interval, divided by the bias, once for each of its two probes that has that bias.",
     ["inputs"],
     "all sample values on all stencils, in any batch",
     "Tests use smooth positive functions only, and never compare the two implementations on data needing several shrinkings.",
     ["seyfert/derivatives/differentiator.py", "seyfert/derivatives/cl_derivative.py"],
     [("shrinking fit", "Differentiator (vectorised and scalar SteM)"), ("collection of samples by step", "ClDerivativeCollector")],
     [], ["derivative values"])

prop("P18", "Configuration edits are validated, independent, and applied exactly as asked",
     "Editing a forecast configuration accepts exactly the documented options, changes only what the options name, and produces a file that reads back as the edited configuration; different option sets yield different file names, equal ones the same, in whatever order the options are given. Editors affect neither each other nor the shipped configuration, and are not affected by later changes of the caller's options. Two configurations compare equal exactly when they describe the same forecast: sky, noise, flatness, parameters and how they are varied, and for every probe present its multipoles, input files, settings and nuisance parameters. Stage configurations read back as they were edited, and the flag of a pair of probes is found whichever way the pair is named.",
     ["configurations", "histories"],
     "all option combinations and sequences of edits, all pairs of configurations",
     "Tests load the shipped stage configurations once; the editor and the comparison are untested.",
     ["seyfert/config/forecast_config.py", "seyfert/config/main_config.py", "seyfert/config/probe_config.py"],
     [("editor", "ForecastConfigEditor"), ("comparison", "ForecastConfig.__eq__"), ("stage configurations", "main_config")],
     [("configuration", "the JSON content being edited", "ForecastConfigEditor")],
     ["written files", "raised errors"])

prop("P19", "What is saved can be loaded back unchanged, wherever it is rooted in the file",
     "Every object the pipeline persists (spectra, densities, kernels, biases, weight functions, cosmologies, covariance pieces, derivatives, Fisher matrices) is read back equal to what was written, with the same keys, labels and arrays, also when several objects share one file under different roots and in any order of writes and reads. A save to a place that already holds such an object is refused and leaves what is stored as it was; opening for writing never destroys a file that exists, reading never changes it, no file is left open, and comparing two objects tells exactly whether their contents agree.",
     ["histories", "inputs"],
     "all sequences of save/load operations over shared files and roots, all probe sets and array shapes",
     "Tests save and load each kind once in a fresh file.",
     ["seyfert/file_io/hdf5_io.py", "seyfert/cosmology/c_ells.py", "seyfert/cosmology/redshift_density.py", "seyfert/derivatives/cl_derivative.py", "seyfert/fisher/fisher_matrix.py", "seyfert/fisher/delta_cl.py"],
     [("file modes and roots", "AbstractH5FileIO"), ("object mappings", "H5* classes")],
     [("file content", "groups and datasets per root", "HDF5 file")],
     ["loaded objects", "file bytes"])

prop("P20", "Collected results are those of the forecasts they are listed for",
     "The tables and analyses collected from a directory of finished forecasts contain, for every forecast found there by name and only those, every Fisher matrix of the chosen cosmology and treatment exactly once, with that forecast's own errors and options. Selecting by options, restricting to some matrices, and replacing the hybrid matrices (those with GCsp(Pk)) by their 4-bin equivalents with the same other options return exactly the rows and matrices asked for and change nothing else; a replacement with no unique equivalent is refused. Figures of merit are compared with the reference each row is given. A table written replaces another only when asked.",
     ["histories", "inputs"],
     "all directories of finished forecasts with their names and options, all sequences of selections, restrictions and replacements",
     "Tests collect nothing: the collector, the directory explorer and the table helpers have no test with more than one forecast.",
     ["seyfert/fisher/results_collector.py", "seyfert/utils/dir_explorer.py", "seyfert/fisher/fisher_analysis.py", "seyfert/notebook_helpers/table_helpers.py"],
     [("reading of directory names", "DirectoryExplorer"), ("collection, selection and replacement", "ResultsCollector"), ("tables", "table_helpers")],
     [("collected rows", "forecast, options, matrix, errors", "ResultsCollector, pandas tables")],
     ["directories of forecasts", "tables and analyses"])

prop("P21", "Every element of a spectrum is made of its own bins, parameters and multipole",
     "An element of an angular power spectrum is the integral, by the configured method, of the weights of its two bins and the power spectrum at its multipole: a weight is made of the density of its own bin, the bias in force there (its own parameter's current value), and the functions of redshift of the cosmology given; the cut for voids and the treatment of off-diagonal spectroscopic elements act on their spectra only. Changing a parameter, switch, cosmology or method changes exactly the elements it enters, in any sequence of evaluations with the same objects, and the spectra of all displacements of a parameter are each those of that displacement. The objects counted in a bin, or shared by two bins, are those whose redshifts lie there.",
     ["inputs", "histories"],
     "all probe sets, bins, densities, biases, grids, methods of integration, and sequences of changes and evaluations",
     "Tests compare a few stored spectra of one configuration within a tolerance; no other set of probes, order, number of bins or sequence of changes is computed.",
     ["seyfert/main/cl_core.py", "seyfert/cosmology/c_ells.py", "seyfert/cosmology/weight_functions.py", "seyfert/cosmology/kernel_functions.py", "seyfert/cosmology/bias.py", "seyfert/cosmology/redshift_density.py", "seyfert/numeric/integration.py"],
     [("evaluation", "cl_core.compute_cls, AngularCoefficientsCollector"), ("weights", "WeightFunction"), ("integration", "CompositeNewtonCotesIntegrator, AngularCoefficient.computeClIntegral"), ("densities by bin", "RedshiftDensity")],
     [("objects kept between evaluations", "configuration, parameters, densities", "cl_core callers")],
     ["spectra and weight functions", "numbers of objects"])

prop("P22", "A stored power spectrum is that of the cosmology it is stored with",
     "Whatever the parameter varied and the step, the Boltzmann solver is asked for exactly the cosmology of that variation: the current value of every parameter, converted consistently (the densities of baryons, cold matter, neutrinos, dark energy and curvature add up; flat stays flat), with all its other settings as the configuration and its reference settings file give them, that file being unchanged; with CAMB the amplitude is the one giving the sigma8 asked for. The file left by the job holds that cosmology, the linear and non-linear spectra the solver gave on the whole redshift grid in order, however many requests were needed, and the growth, expansion rate and distances of the same cosmology. Inconsistent or unsupported cosmologies are refused and leave no spectrum; the shipped configuration works with either code.",
     ["inputs", "histories"],
     "all cosmologies, flat or not, all variations, reference settings, redshift grids and both solvers",
     "Tests run no solver: neither is installed with them in a usable configuration, and they compare stored background functions of one cosmology.",
     ["seyfert/cosmology/boltzmann_solver.py", "seyfert/cosmology/cosmology.py", "seyfert/cosmology/power_spectrum.py", "bin/compute_pmm"],
     [("conversion of parameters", "computeCAMBCosmologicalBasis, computeCLASSCosmologicalBasis"), ("settings file and tuning", "CAMBBoltzmannSolver"), ("background", "Cosmology")],
     [("job directory", "settings file and p_mm.h5", "compute_pmm")],
     ["requests to the solver", "p_mm.h5"])

prop("P23", "Imported results of others are the numbers their files hold",
     "Converting the power spectra or angular spectra of another group yields, for every table found, the file of the cosmology its name states and no other: power spectra without factors of h, those of the cosmology of the table itself, at all redshifts but today; angular spectra and derivatives with every number at the pair of bins its column states, symmetric where the two probes are the same, the probe with more bins first. The parameters used for the conversion are left at their fiducial values. A Fisher matrix read from a table has every entry under the two parameters of its row and column, by our names, whatever their order. The change of parameters from biases to biases times sigma8, with sigma8 or the biases then removed, is the congruence with the Jacobian at the fiducial values and does not alter the matrix given; errors of several codes, and their differences in percent from the mean and the median, are those of the matrices read.",
     ["inputs"],
     "all tables, cosmologies, orders of columns, sets of parameters and numbers of biases",
     "No test imports anything but one shipped Fisher matrix.",
     ["seyfert/file_io/ext_input.py", "seyfert/utils/ist_comparison.py", "seyfert/fisher/fisher_matrix.py"],
     [("reading of tables", "ISTInputReader"), ("change of parameters, errors", "ist_comparison")],
     [("parameters", "current values during a conversion", "ISTInputReader.pars")],
     ["converted files", "matrices read"])

prop("P24", "Plots and results of an analysis show the matrices they name",
     "In a triangular plot every panel shows, for every matrix asked for, in the order asked, and every confidence level configured, the Gaussian of its marginalised error or the ellipse of the marginalised covariance of the two parameters of the panel, centred on the fiducial values, and nothing above the diagonal; a matrix has one colour in all panels and the legend, whatever the subset drawn; axes, ticks and labels are those of the panel's parameters, over the ranges in force: those computed for the parameters chosen (the mean half-width at 99 per cent over all matrices), or those of a file, which replace them; a missing file changes nothing; ranges are written when asked and an existing file is kept unless overwriting is asked. Any parameters can be plotted, one included. A plot of correlations shows the correlations of its matrix, by name. For every cosmology present in a results configuration and no other, the results are those of the sums listed, the parameters outside it fixed and nuisances marginalised (or fixed), the errors, relative errors, figures of merit, correlations and plots agreeing with one another; reading the results back gives the same tables and matrices; a cosmology with parameters that were not free is refused.",
     ["inputs", "histories"],
     "all matrices, fiducial values, confidence levels, subsets and orders of parameters and matrices, ranges, and sequences of choosing, configuring, loading, saving and drawing; all sets of cosmologies",
     "No test draws a plot or collects the results of several cosmologies.",
     ["seyfert/fisher/fisher_plot.py", "seyfert/fisher/fisher_analysis.py", "seyfert/fisher/fisher_results.py", "seyfert/notebook_helpers/contours.py", "seyfert/plot_utils", "seyfert/utils/tex_utils.py"],
     [("marks of a panel", "FisherAnalysis.computeEllipseInfoDictForObsAndCL, computeGaussianInfoDictForObsAndCL"), ("plots", "FisherPlotter"), ("cosmologies", "FisherResultsCollector")],
     [("plotter", "parameters, ranges, configuration", "FisherPlotter")],
     ["figures", "result directories"])

prop("P25", "A configuration saved by the window says what the window shows",
     "Whatever sequence of edits led there, the configuration saved by the window loads as a forecast configuration in which every parameter, displacement, probe and setting has the value its field shows: a field that cannot be edited has no say (a file of multipoles or the numbers, not both), absent probes are absent, biases and intrinsic alignments are free as their boxes say and belong to the probe as spectra name it, and parameters which the window does not show keep their usual values. An edit changes its own part of the configuration only. The configuration can be run as it is. The file has the name given and one suffix, with the time only if wanted; a text that is no number or truth value is refused and leaves no file; saving again follows later edits.",
     ["inputs", "histories"],
     "all sequences of edits of all fields and saves, all spellings of numbers, all names of files",
     "No test opens the window or loads a configuration made with it.",
     ["seyfert/gui/interface_window.py", "seyfert/file_io/json_io.py", "seyfert/config/forecast_config.py", "seyfert/config/probe_config.py"],
     [("reading of the fields", "GUIFileInterface"), ("saving", "ConfigGUIWindow.dumpToJSONAndExit"), ("loading", "ForecastConfig, ProbeConfig")],
     [("window", "fields, and which can be edited", "Ui_SeyfertConfigGUI")],
     ["configuration files", "loaded configurations"])

prop("P26", "Comparisons and figures are of corresponding elements",
     "The percentage difference of two results is that of their corresponding elements (of tables, by row and column name; different tables are refused), whatever the signs and the order in which the two are taken, and zero only where they agree. The mean, scatter, size and table of the differences of two spectra follow from them, elements repeated by symmetry left out; differences beyond a chosen limit are left out of what is shown and written from then on, in whatever order limits are chosen. Comparing two runs compares all that both have, under its own name, and reports a matrix or error table as agreeing if and only if every element, also negative ones, agrees within the limit for its kind; a comparison written can be read back. A figure of spectra, errors or gains shows, in the place of each element, matrix and number of bins, that one's numbers, for any number of bins, and drawing changes no result. Runs of a folder are found by their names, each with its number of bins.",
     ["inputs", "histories"],
     "all arrays, tables, labels and their orders, sets of jobs and matrices of two runs, sequences of limits, drawings and writes, selections of elements",
     "The one test compares positive arrays which are multiples of each other; no test compares tables or runs, or draws spectra.",
     ["seyfert/numeric/general.py", "seyfert/utils/comparison_utils.py", "seyfert/utils/run_loader.py", "seyfert/plot_utils/cl_plot.py", "seyfert/cosmology/c_ells.py", "seyfert/notebook_helpers/barplots.py", "seyfert/notebook_helpers/fom_gain_plots.py", "seyfert/notebook_helpers/load_helpers.py"],
     [("difference of elements", "numeric.general.pad"), ("differences of spectra", "ClDiff"), ("differences of runs", "ComparisonMetrics"), ("figures", "cl_plot, grid_plot, ErrorBarPlotter, single_plot_fom_gain")],
     [("differences", "tables, with what was left out", "ClDiff.metrics"), ("comparison of runs", "differences by quantity and job", "ComparisonMetrics.metrics")],
     ["figures", "messages", "files of a comparison"])

prop("P27", "Printed tables say what the tables hold",
     "A table written in LaTeX has one line for every row and one column for every column of the table, in their order, under its symbol: each number rounded to the decimals of its kind and with its own sign, gains marked as such, losses as such, no change as a dash, names of matrices in full with the symbols of their probes, rows grouped by the number of bins they belong to. The file holds the text returned, and the table is not changed. The line of a single row holds its number of bins, if it has one, its name, its figure of merit, the relative gain with its sign if there is a reference, and all its errors. Different names have different symbols, and symbols of probes and parameters can be read back.",
     ["inputs"],
     "all tables, names of matrices and parameters, numbers of either sign, references",
     "Nothing that is printed is tested.",
     ["seyfert/notebook_helpers/table_helpers.py", "seyfert/utils/tex_utils.py"],
     [("tables", "write_latex_table, TeXTranslator.transformRawTeXTable"), ("rows", "get_latex_row"), ("symbols", "TeXTranslator")],
     [], ["text of tables and files"])

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p) + "\n" for p in P))
    print(len(P))
