"""Budgets and descriptions of the checks."""
SPECS = {
    "C01": dict(
        level="exploration", quick=900, thorough=12000,
        rule="A run is 2-4 threads, each building, fitting and querying its own estimators, under an "
             "explicit list of preemptions chosen from the threads' solo traces; it is non-trivial if "
             "at least one preemption fired; distinct = distinct sequence of (from, to, code line) "
             "switches and classes."),
}
SPECS["C02"] = dict(
    level="exploration", quick=900, thorough=12000,
    rule="One fitted model is queried by 1-3 simulated threads in random orders with repeated and failing "
         "queries; every answer is compared with the same query asked first in a pristine process, and "
         "row-wise queries are re-delivered split, permuted and duplicated; distinct = query orders, "
         "switch sites and batch boundaries.")
SPECS["C03"] = dict(
    level="exploration", quick=1100, thorough=12000,
    rule="Library calls (constructors, fits, queries, plots, loaders) run to completion, are interrupted at "
         "a chosen line, run beside an application thread drawing from the global generators, or beside each other in two threads; the full "
         "process-wide state is compared around every call; distinct = call sequence and fault points.")
SPECS["C04"] = dict(
    level="exploration", quick=700, thorough=10000,
    rule="Each seeded or deterministic subject runs in a pristine process and again with different entropy, "
         "global generator state, clock, thread, call history and (for a part) a new interpreter with "
         "another hash seed; distinct = operation sequence and executed step counts.")
SPECS["C05"] = dict(
    level="exploration", quick=260, thorough=4000,
    rule="stahel_donoho, FastMCD, FastLTS and S-regression with many more draws than possible starts on "
         "small data, seeded and unseeded, alone or interleaved in two threads, against all directions / "
         "all starts / all h-subsets enumerated by a reference model; data are chosen among candidates so "
         "that few starts reach the best value; distinct = estimator, seeds and data.",
    assumptions=["the number of draws is >= 9 times the number of possible starts, so missing one by "
                 "chance has probability below 1e-3 per run even if a single start reaches the optimum"])
SPECS["C06"] = dict(
    level="exploration", quick=2200, thorough=16000,
    rule="One FastMCD or DetMCD fit under ordinary or adversarial draws (constant, few, contaminated or "
         "nearly equal starts), judged by a reference concentration step and reference post-processing; "
         "non-trivial if the raw solution is non-singular; distinct = parameters, data and draw mode.",
    assumptions=["solutions with a numerically singular covariance are only checked for termination"])
SPECS["C07"] = dict(
    level="exploration", quick=1100, thorough=16000,
    rule="One FastLTS (raw and reweighted) or MM fit under ordinary or adversarial draws, judged by a "
         "reference least-squares / weighted least-squares solution and documented scale formulas; "
         "distinct = parameters, data and draw mode.",
    assumptions=["exact-fit data (zero scale) are excluded from the equation checks"])
SPECS["C08"] = dict(
    level="fault_enumeration", quick=1900, thorough=20000,
    rule="One fit (or function call) during which chosen linear-algebra or allocation calls, counted over "
         "the whole call tree, raise LinAlgError or MemoryError (one, several or all from a point on); "
         "non-trivial if a fault fired; distinct = class, failed functions and positions.",
    assumptions=["faults are raised on entry of numpy.linalg / scipy.linalg functions (also when called by "
                 "scikit-learn and statsmodels on behalf of robpy) and of array functions that robpy calls "
                 "itself"])
SPECS["C09"] = dict(
    level="exploration", quick=1100, thorough=16000,
    rule="One construct / fit / query / plot call is interrupted 1-3 times at a chosen executed line, "
         "library call, user callback, log record or drawing call (in part of the runs while another "
         "thread fits its own object), then repeated on the same object and compared with an uninterrupted "
         "run; other and new objects are compared too; non-trivial if an exception fired; distinct = class, "
         "operation, code line and exception.")
SPECS["C10"] = dict(
    level="exploration", quick=1200, thorough=20000,
    rule="An object lives through a random history (fits on other data of any shape, spoiled data, "
         "queries, plots, injected failures inside calls, other parameters set before) and is then fitted; "
         "its attributes, answers, errors and parameters are compared with a fresh object in a pristine "
         "process; non-trivial if the history contains a fit; distinct = class, history and final data.")
SPECS["C11"] = dict(
    level="exploration", quick=800, thorough=9000,
    rule="An object is pickled (protocols 2-5), deep-copied or cloned at a random point of a random life "
         "(unfitted, fitted, refitted, after failed or interrupted calls, while another thread queries it), "
         "the process is dropped and the blob restored in a pristine one; attributes and later queries, "
         "plots and refits are compared; then original and copy overwrite each other; distinct = class, "
         "way of saving, life and later calls.")
SPECS["C12"] = dict(
    level="exploration", quick=1500, thorough=20000,
    rule="A history of 1-5 loader calls (1-2 threads) whose file accesses go through a raw layer with short "
         "reads, failing opens/reads/closes, another locale encoding and working directory; every result is "
         "compared cell by cell with an independent reading of the files and then overwritten by the caller; "
         "non-trivial if a file was opened; distinct = calls, faults, chunking, encoding and directory.")
SPECS["C13"] = dict(
    level="exploration", quick=1200, thorough=16000,
    rule="Construct / fit / queries under random verbosity, logging configuration (also changed by another "
         "thread at chosen statements), failing or missing output streams, broken handlers, a jumping "
         "clock, plotting back ends, styles and open figures; results are compared with the default "
         "settings, records with the full log, figures with and without returned data; non-trivial if a "
         "setting differs from the default; distinct = calls, settings and reconfigurations.")
SPECS["C14"] = dict(
    level="exploration", quick=2500, thorough=40000, stop_after=2,
    rule="Construct / fit / queries / plots or a function call on degenerate finite data (26 patterns: ties, "
         "duplicates, symmetry, collinearity, extreme scales, ...), partly under adversarial draws or with "
         "one numerical function failing from some call on, each call under a step budget that is a fixed "
         "multiple of its configured work; distinct = calls, data, draws and faults.",
    assumptions=["the budget counts executed lines of robpy; third-party code is trusted to terminate"])
SPECS["C15"] = dict(
    level="exploration", quick=1400, thorough=20000,
    rule="Construct / fit / queries with every kind of input (arrays, strided and read-only views, frames, "
         "other dtypes, sub-estimators, callbacks); another thread compares the inputs with their original "
         "at chosen statements, or the call is interrupted or hit by a library failure; after every call "
         "the caller overwrites inputs and results and all later answers are compared with a run without "
         "overwriting; distinct = calls, data, mode and points.")
SPECS["C16"] = dict(
    level="exploration", quick=900, thorough=12000,
    rule="Clean records in which a share (below the documented breakdown) is replaced by gross values "
         "(cluster, point mass, line, two clusters, scattered, one coordinate; with or without leverage; 30 to "
         "1e6 times the clean spread), arriving first, last, evenly spread or at random; the fit with the "
         "default number of starts must stay within a fixed multiple of the clean records' noise; "
         "non-trivial if a record was corrupted; distinct = estimator, parameters, data and faults.",
    assumptions=["for FastMCD a deviation is excused if the reported subset has a smaller determinant than the "
                 "best clean one found by concentration, i.e. the criterion itself prefers it"])
SPECS["C17"] = dict(
    level="exploration", quick=900, thorough=20000,
    rule="A table of correlated records is delivered with lost (missing, for DDC also infinite) cells, "
         "bursts and whole records, and isolated gross corruptions; DDC or CellMCD is fitted and (DDC) "
         "scores further damaged records; containment is checked cell by cell, CellMCD's predictions against "
         "a reference conditional expectation, estimates against the fault-free fit; non-trivial if a cell "
         "was damaged; distinct = data, parameters and faults.")
SPECS["C18"] = dict(
    level="exploration", quick=1500, thorough=24000,
    rule="The same records are delivered again in another order of arrival (random, reversed, rotated, "
         "sorted, outliers last) to an estimator or function without a random component, or with other row "
         "labels (duplicated, unsorted, text, dates, multi-level) to any estimator that takes frames; results "
         "are compared record by record; differences that rounding-sized noise on the data causes as well are "
         "set aside; distinct = operations, order or labels and executed step counts.")
