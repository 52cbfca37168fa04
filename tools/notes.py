NA = {}
NOTES = {
"P01": ("TLA+ model (Params) checked with TLC; all its transitions replayed in the real collection; recorded histories validated by TLC",
        "Exhaustive for 3 parameters, 2-3 displacements, all flatness/free configurations; randomised recorded histories for larger sets, and the in-process variation loop with stubbed spectra. Dyadic values make float arithmetic exact."),
"P02": ("TLA+ model (JobDirs over Params) checked with TLC; all its transitions replayed on a real workspace; recorded directory histories and real job-program runs validated by TLC",
        "Exhaustive for 2 prefix-sharing parameters and one step pair; randomised recorded histories for up to 5 parameters and stencils up to 12; bin/compute_pmm and bin/compute_cls run for real with stubbed Boltzmann solver and Limber integrals."),
"P03": ("TLA+ model (Pipeline) checked with TLC; its scenarios replayed as real forecasts with stand-in job programs; recorded program histories validated by TLC",
        "Exhaustive for all stage selections, execution modes and single failing jobs of a two-parameter forecast; random histories for more parameters, failures and delays. The job programs are stand-ins; the runner, task runners, job programs' scheduling and bin/job_submitter are real."),
"P04": ("TLA+ model (Batch) checked with TLC, safety and liveness; all its transitions replayed against a stand-in bjobs/bsub; recorded listings validated by TLC",
        "Exhaustive for two own jobs and one foreign job over all listing states; random histories for more jobs. Time and the batch system are stand-ins; parsing and waiting code is real."),
"P05": ("TLA+ model (RunDirs) checked with TLC; all its scenarios replayed as real run_seyfert/job_submitter runs on scratch directories; recorded runs validated by TLC",
        "Exhaustive for all linked/computed combinations of the external directories and stages; random input sets and run histories. Physics is stubbed; directory handling, recording and linking code is real."),
"P06": ("TLA+ model (Restart) checked with TLC, safety and completion; its crash scenarios and kills at every primitive file operation replayed in the real driver; recorded attempts validated by TLC",
        "All crash scenarios with up to two kills of the model; kills at sampled (quick) or all (thorough) file operations of the real in-process forecast and of the batch and interactive Fisher stages, judged by comparing products with an uninterrupted run. Physics is stubbed; HDF5/pickle/directory writes are real (pandas' HDFStore is a stand-in: pytables is not installed)."),
"P10": ("TLA+ model (ProbeKeys) checked with TLC; all its transitions replayed in the six real dictionary classes; recorded histories and conversions validated by TLC",
        "Exhaustive for two probes and two values over stores, deletions and updates in every class, read back in every order and spelling after each; random histories over all four probes; all spellings of all pairs, and mutated ones, through the conversions."),
"P11": ("TLA+ model (DataVectors over ProbeKeys) checked with TLC; every data vector of the model rebuilt in the real class from every written form; recorded histories, selections and Fisher-stage runs validated by TLC",
        "Exhaustive for all sequences of up to two (thorough: three) distinct spectra of three probes in all written forms, pairwise compared; random histories up to 16 spectra over four probes; random selection files, the shipped selection, and the real Fisher stage with stubbed matrix elements."),
"P15": ("TLA+ model (FisherAlgebra over exact rationals) checked with TLC; its transitions replayed on real matrices; recorded operation histories, errors, figures of merit and correlations validated by TLC",
        "Exhaustive for all sequences of two (thorough: three) operations on three overlapping matrices; random histories of up to 12 operations on matrices of up to 5 parameters with small rational entries (exact oracle)."),
"P16": ("TLA+ model (FinalResults over FisherAlgebra) checked with TLC, safety and termination; its scenarios replayed as real final results; recorded final-results runs, read-backs and sums validated by TLC",
        "Exhaustive for three matrices (all subsets), lists of up to two of seven combinations, both cosmologies and all treatments; replay of a sample (quick) or 1200 (thorough) of these; random runs of create_final_results with random matrices, combination files, fiducials; all written matrices and tables compared with exact rationals."),
"P17": ("TLA+ model (Stem, exact integer least squares) checked with TLC, safety and termination; its elements replayed through both implementations; recorded derivatives validated by TLC",
        "Exhaustive for 5-step elements of 4 offsets x 3 slopes x 4^5 deviations and 7-step elements, replayed in random batches (sampled in quick); batches of two for independence; random stencils of 3-15 steps through the scalar and vectorised code, the in-process derivative stage, bin/compute_derivatives on scratch directories, and analytic derivatives of constant biases."),
"P12": ("TLC model (Multipoles.tla) of grids, pairs and joint/alone ranges; every edit of every reachable configuration replayed on real ForecastConfig and FisherEvaluator; recorded random configurations validated",
        "grids are sets of (centre, width) in half units, so logarithmic grids are checked for whole ratios only; rounding noise up to 1e-13 relative is injected; a file naming one multipole twice with different widths is outside the model"),
"P14": ("TLC model (Covariance.tla) of spectra, noise, observed spectra, stacking and covariance; every action of the model replayed on real DeltaClCollection / ClCovarianceMatrix, and recorded random runs validated element by element",
        "values are whole numbers chosen so that floating point is exact; shot noise comes from a stand-in weight function; at most 4 probes with 3 bins each and 6 spectra in a data vector"),
"P13": ("TLC model (Combined.tla) of joint and single-probe contributions with exact rationals and of the Fisher stage as a state machine; every transition replayed on the real stage (files read back), and recorded random runs validated element by element",
        "HDFStore stand-in; small integer spectra so that exact rationals fit 32 bits; at most 3 probes with up to 2 bins and 6 spectra per data vector"),
"P18": ("TLC models of an editing workshop (Editor.tla: option dictionaries, editors, files) and of comparisons of forecasts (ForecastsMC.tla); walks through every operation and all one- and two-edit pairs replayed on the real editor and ForecastConfig; recorded random histories validated",
        "option values outside the documented ones are a fixed list of wrong types and ranges; forecasts are compared when loaded with parameters, same probe order, equal files under equal names"),
"P07": ("TLC model (Overwrite.tla) of result places and write policies; walks through every operation and outcome replayed on the real writers, stage, final results and launcher; recorded random histories validated against the specification",
        "the computation of a matrix is a numbered stand-in; commands and batch submissions run in the checking process; products of single jobs (derivatives, shot noise) are computed anew in place and not covered"),
"P19": ("TLC model (Store.tla) of files, roots and objects made of parts; every transition replayed on the real HDF5 classes for real kinds of objects; recorded random histories of saves, loads, picks, openings and comparisons validated",
        "one family of objects under each root; in-memory stand-in for file locking of h5py only where needed; parameter descriptions are not persisted; weight functions may lack arrays"),
"P09": ("TLC model (Orchestrate.tla) of requests, the runs they stand for and the nested launch loops; requests of the model laid out in files and given to the real programs in process; recorded launches (what the launched programs read) validated against the specification",
        "launched programs are run up to the forecast itself; paths and labels have no characters special to the shell; directories of earlier requests under the same identifiers may be listed again"),
"P08": ("TLC model (Report.tla) of job executions and what reports say of them; histories of the model replayed through the real submission and report code with a stand-in batch system; reports read back from random histories validated against the specification",
        "logs are those of LSF; the jobs of the Fisher stage have no job directories and are told of by the table of resources only; jobs executed interactively leave no batch logs"),
"P20": ("TLC model (Collection.tla) of directories of forecasts, what names say, tables and replacements; every transition replayed on the real table helpers, all readings of names on the real explorer; recorded random histories of collections, selections, restrictions and replacements over real forecast directories validated",
        "The model covers all tables of up to 2 (quick) or 4 rows over two values of each option; recorded histories collect real directories with nested runs, other directories, several cosmologies and treatments. Matrices of the recorded histories are diagonal so that errors identify them; the collected forecasts differ in their options."),
"P21": ("TLC model (Spectra.tla) of spectra in exact rationals, with parameters, switches and methods turned one at a time; every transition evaluated by the real code, number by number; recorded random histories of evaluations and changes in worlds of short fractions validated by TLC exactly, as residues modulo two primes",
        "The model covers all four probes with two biases and up to nine methods of integration; recorded histories vary probe sets and orders, grids, bins (up to 11), densities, biases, cosmologies, methods and switches, reuse the same configuration, parameters and densities, and include all displacements of a parameter. Outside: convolution of densities with the instrument response, the vdn void bias, the flagship bias, the luminosity dependence of alignments (numerical functions without short values)."),
"P22": ("TLC on Solver.tla (conversion, tuning, piecewise evaluation); every job of the model put to both real solvers and to the cosmology; requests and files of real compute_pmm jobs validated against SolverTrace.tla",
        "Bounded: 7 cosmologies, all parameters, 5 displacements; up to 6 redshifts in the model, 310 in recorded jobs. CAMB and CLASS themselves are replaced by stand-ins which record what they are asked; growth by integration is compared to 1e-6."),
"P23": ("TLC on Import.tla (order of conversions, column layouts, changes of parameters); all layouts and changes of parameters of the model put to the real readers; recorded imports of generated folders validated against ImportTrace.tla",
        "Bounded: tables of up to 4 redshifts and 3 wavenumbers, 10 x 10, 4 x 4 and 10 x 4 bins, up to 11 biases. Tables of spectra are assumed to list redshifts decreasing, as those of the IST do."),
"P24": ("TLC on Contours.tla (panels, colours, ranges, files of ranges, orders); pictures and actions of the model drawn by the real plotter and read off the figure; recorded sessions, and collections of results for several cosmologies with exact Fisher algebra, validated against ContoursTrace.tla",
        "Bounded: up to four matrices and four parameters in a plot; the figure is read from its artists (marks, axes, legend), not from pixels."),
"P25": ("TLC on Window.tla (fields, which can be edited, the configuration they mean); sequences of edits of the model performed on the real window (off screen), saved and loaded; recorded uses validated against WindowTrace.tla",
        "Bounded: sequences of 3 (thorough 4) edits of some fields in the model, up to 30 edits of any field and several saves in recorded uses; Qt itself is trusted to draw what its fields hold."),
"P26": ("TLC on Compare.tla (differences, limits and files of two spectra; limits of the verdict about two runs); the model's tables replayed in the real ClDiff; recorded comparisons of arrays, tables, spectra and runs, and what figures hold, validated against CompareTrace.tla",
        "Bounded: spectra of up to 2x3 elements with small whole numbers in the model; recorded ones up to 3x3x3, exact rationals. Reading run directories of older versions (RunLoader) is left out: runs are given as loaded."),
"P27": ("TLC on Printed.tla (what is printed can be read back, signs, different symbols of different names); the model's tables printed by the real code; recorded LaTeX tables, rows and symbols validated against PrintedTrace.tla",
        "Bounded: tables of two rows in the model; recorded ones up to nine rows and eight columns. Numbers half-way between two printed decimals are left out."),
}
