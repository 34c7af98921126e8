"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})

p("C01","Results do not depend on thread count or thread interleaving",
  "For a given configuration every computed quantity (2PCF, multipoles, redshift-averaged multipoles, both covariances, Fourier-Bessel integrals) is the same number (up to floating-point rounding) whatever number of worker threads computes it, however those threads are scheduled, and whatever the contents of freshly allocated memory. No two worker threads touch the same datum in conflict without synchronisation.",
  ["schedules","configurations"],
  "every interleaving of the worker threads of each parallel loop, every thread count, every configuration and every initial content of heap and stack memory",
  "The tests run one uncontrolled schedule per run, compare with a loose tolerance and never vary the thread count; a race that fires once in 1e4 schedules passes them.",
  ["src/corrfunc.c","src/multipoles.c","src/average_multipoles.c","src/covariance.c","src/integrals.c","src/twofast.c","src/functions.c","src/signal.c"],
  [("each loop iteration writes only its own result element","src/corrfunc.c, src/multipoles.c, src/average_multipoles.c, src/covariance.c, src/integrals.c parallel for loops"),("omp critical around FFT planning","src/twofast.c")],
  [("result arrays","shared output, one element per iteration","coffe_*_array_t.array")],
  ["compute_*_bulk, integral() of the Python class","CLI output files"])

p("C02","Bulk results are the complete ordered grid and do not depend on the batch",
  "A bulk computation returns exactly one element per point of the Cartesian product of the requested coordinates, in a fixed nested order and labelled with its own coordinates. The value at a point does not depend on which other separations, angles, multipoles, redshifts or bins were requested in the same batch, nor on their order, and equals what the single-point call gives for that point (for the infrared-divergent potential terms: up to the resolution of the internal interpolation tables, whose range follows the batch).",
  ["inputs","schedules"],
  "every batch of coordinates (sizes, orders, several redshift bins with their per-bin survey parameters) and every distribution of its points over worker threads",
  "The tests use one fixed batch per output, with one redshift bin, and compare with stored numbers; they never compare a point across different batches.",
  ["src/corrfunc.c","src/multipoles.c","src/average_multipoles.c","src/covariance.c","python/coffe/coffe.pyx"],
  [("coordinate arrays filled by nested loops, values by flat index","*_init functions"),("per-bin survey parameters indexed by redshift bin","src/covariance.c")],
  None,["compute_*_bulk, compute_corrfunc, compute_multipole"])

p("C03","Results reflect the current settings, not the history of the object",
  "Whatever sequence of settings, computations and failed calls an object went through, any quantity it then returns equals what a freshly created object with the same current settings returns. Changing any setting is reflected in every later result that depends on it.",
  ["histories","fault_sequences"],
  "every sequence of parameter changes, bias and power-spectrum replacements, computations in any order, and failures of the external power-spectrum provider in between",
  "Each test builds an object, sets parameters in one order and computes once; stale caches need compute - change - compute sequences over all (setting, output) pairs.",
  ["python/coffe/coffe.pyx","src/integrals.c","src/background.c","src/common.c"],
  [("each setter drops the cached modules that depend on it","python/coffe/coffe.pyx setters, _free_* methods"),("lazy recomputation guarded by size/flag","compute_* methods")],
  [("cached modules","background, power spectrum, integrals and the five bulk results","cdef members of class Coffe")],
  ["all compute_*, integral, power_spectrum, cross_spectrum and background query methods"])

p("C04","Reading never changes the object",
  "Reading settings, listing the parameters, evaluating biases, saving to a file, or repeating a computation never changes the settings, never discards a user-supplied power spectrum, and leaves every later result unchanged.",
  ["histories"],
  "every history into which any number of read-only operations is inserted at any position",
  "Tests never compare a history with the same history plus extra reads.",
  ["python/coffe/coffe.pyx"],
  [("getters and the parameters listing","python/coffe/coffe.pyx"),("saving","to_file")],
  None,["the Python class's public attributes and compute methods"])

p("C05","A rejected change or failed call leaves the object as it was",
  "If setting a parameter, a bias, a power spectrum or a coordinate list raises an error, or a computation raises an error (including a failure of the external power-spectrum provider), the object keeps its previous settings and previous results: everything it reports and computes afterwards is what it would have been without the failed call.",
  ["histories","fault_sequences"],
  "every history with invalid values, wrong types, inputs failing part-way through conversion or iteration, and provider failures injected at any position",
  "Tests only check that an exception is raised, for a few invalid values, and never use the object afterwards.",
  ["python/coffe/coffe.pyx"],
  [("validation before assignment","setters, set_spline, set_power_spectrum_linear, set_parameters")],
  None,["the Python class's public attributes and compute methods"])

p("C06","Density parameters stay mutually consistent under any sequence of changes",
  "After any sequence of successful or rejected parameter changes, the matter fraction equals cold dark matter plus baryons plus massive neutrinos, all components plus dark energy sum to one, the neutrino fraction corresponds to the current neutrino mass and Hubble parameter, and a parameter just set reads back as the value given while changing one independent parameter changes no other independent one.",
  ["histories"],
  "every order and repetition of changes to the matter, baryon, CDM, radiation, neutrino-mass and Hubble parameters, including rejected ones",
  "Tests change one density parameter at a time on a fresh object with massless neutrinos.",
  ["python/coffe/coffe.pyx"],
  [("rebalancing of the energy budget","_balance_content and the omega_*, h, m_ncdm setters")],
  None,["omega_* and big_omega_* attributes"])

p("C07","Saving and reloading reproduces the object",
  "An object restored from a file it was saved to has the same value for every setting and the same bias functions, and computes the same results (a power spectrum supplied by the user is not part of the file). If a save reports success the file is complete: a full disk or I/O error during the save is reported as an error.",
  ["configurations","histories","fault_sequences"],
  "every reachable configuration of settings and bias tables, saved after any history, with write errors, short writes and full disks at any point of the save",
  "The only test round-trips the default object and compares only the scalar parameter listing.",
  ["python/coffe/coffe.pyx"],
  [("to_file / from_file","python/coffe/coffe.pyx")],
  None,["to_file, from_file, every public attribute"])

p("C08","Loading a configuration is deterministic",
  "Loading the same configuration file always gives the same object (or the same failure), independent of the order of the lines in the file and of the interpreter's hash randomisation.",
  ["schedules","inputs"],
  "every hash seed of the interpreter (which decides the order unordered containers are traversed in), every permutation of the lines of a valid file",
  "The test suite loads two files under one random hash seed per run and never compares runs.",
  ["python/coffe/coffe.pyx"],
  [("options applied one by one","from_file")],
  None,["from_file"])

p("C09","Objects are independent of each other",
  "Any interleaving of operations on several objects, issued by several clients, gives each object exactly the results it would give if it were the only one; creating, failing or destroying one object never affects another.",
  ["schedules","histories"],
  "every interleaving of the call sequences of several clients, each on its own object, including object destruction at any point",
  "No test has two live objects with different settings.",
  ["python/coffe/coffe.pyx","src/common.c","src/background.c","src/functions.c","src/signal.c"],
  [("all state lives in the object's own structures","cdef members of class Coffe")],
  None,["the Python class's public attributes and compute methods"])

p("C10","Calls leave the process-wide state as they found it",
  "Whatever succeeds or fails inside a call, when it returns or raises, the numerical library's process-wide error handling, the floating-point environment, the working directory, locale, signal dispositions, the random generators of the host program, the standard streams and the set of open files are what they were before the call.",
  ["histories","fault_sequences"],
  "every call of the public interface in every object state, with provider failures, numerical failures and unreadable or unwritable files injected",
  "No test looks at process-wide state after a call.",
  ["src/corrfunc.c","src/multipoles.c","src/average_multipoles.c","src/covariance.c","src/integrals.c","src/background.c","python/coffe/coffe.pyx","src/common.c"],
  [("error handler switched off and restored","every *_init and single-point compute function")],
  None,["gsl error handler, fenv, cwd, fd table, locale, numpy and random state before/after a call"])

p("C11","Memory is released exactly once and never used afterwards",
  "Over any history of creating, configuring, computing, reconfiguring, failing and discarding objects, no memory block is released twice, used after release or written outside its bounds, and once the objects are discarded all memory allocated on their behalf has been released.",
  ["histories","fault_sequences"],
  "every history of operations, including rejected changes and failing computations, on any number of objects",
  "Tests never look at memory; a leak per call or a double free on a rare order of calls passes them.",
  ["python/coffe/coffe.pyx","src/common.c","src/background.c","src/integrals.c","src/parser.c","src/corrfunc.c","src/multipoles.c","src/covariance.c"],
  [("coffe_*_free functions and __dealloc__","src/*.c, python/coffe/coffe.pyx")],
  None,["heap"])

p("C12","Running out of memory never produces a wrong result",
  "If any memory request fails at any point of a run of the library or the command-line program, the run either stops with a failure or delivers exactly the results it would have delivered; it never reports success with different, partial or missing results.",
  ["fault_sequences"],
  "every single failing memory request, at any position, in any computation",
  "Memory requests never fail in the tests.",
  ["src/common.c","src/parser.c","src/background.c","src/integrals.c","src/covariance.c","src/output.c","src/twofast.c"],
  [("allocation wrapper","src/common.c coffe_malloc"),("abort of the numerical library on failure","GSL error handler")],
  None,["exit status and output files of the CLI; return values of compute_*"])

p("C13","The program reports success only if every result file is complete",
  "If the command-line program exits with status zero, every result file that configuration calls for exists and holds exactly the complete, correct content; any disk error, full disk, failed open or failed directory creation during the run makes it exit with a non-zero status.",
  ["fault_sequences","configurations"],
  "every I/O fault (error, short write, full disk, refused open, refused directory creation, failure at close) at every output operation of every output type",
  "No test runs the command-line program at all.",
  ["src/output.c","src/main.c","src/common.c"],
  [("output writers","src/output.c, src/common.c write_ncol*"),("exit status","src/main.c")],
  None,["exit status and files below the output path"])

p("C14","An interrupted, repeated or concurrent run leaves the outcome of one clean run",
  "If the command-line program is killed at any point and run again with the same settings (and a fixed output prefix), or is simply run again, the result files end up identical to those of a single clean run. Two runs started at the same time with different prefixes in the same new output directory both succeed with their own complete results.",
  ["crash_points","schedules"],
  "every crash point at an I/O operation (with un-flushed data lost and torn writes), followed by a rerun; every interleaving of two runs' file-system operations",
  "No test runs the command-line program, let alone kills it.",
  ["src/output.c","src/main.c"],
  [("output files and directories are created by the run","src/output.c output_make_path, output_*")],
  None,["files below the output path"])

p("C15","Unreadable or damaged input is never silently replaced or truncated",
  "If a settings file, a bias table or a power spectrum named by the settings cannot be opened or read completely, or holds something which is not a number where one is needed, or a required setting is missing or of the wrong type, the program or the loading call fails; it never finishes successfully with results computed from partial, default or uninitialised data. The one substitution the program makes, its built-in power spectrum for a power-spectrum file that cannot be read, is announced by a warning on standard error and uses nothing of the damaged file.",
  ["fault_sequences","inputs"],
  "every read or open fault at every input operation on every input file, for every input the settings can name; also files without a trailing newline, with blank or comment lines",
  "Tests read a few intact files only.",
  ["src/common.c","src/parser.c","src/main.c","python/coffe/coffe.pyx"],
  [("table readers","src/common.c read_1col, read_2col, coffe_read_ncol"),("settings parser","src/parser.c"),("from_file","python/coffe/coffe.pyx")],
  None,["exit status and results"])

p("C16","Results do not depend on the clock, time zone, locale or environment",
  "The numerical content of every result is independent of the time, time zone, locale, environment variables, working directory, memory layout and how long anything takes; all files of one run of the command-line program that carry the time-stamp prefix carry the same one, even if the clock jumps in between, and it is the moment the run's settings were read.",
  ["schedules","configurations"],
  "every clock value, jump (forwards and backwards) and rate during a run, time zone, locale, and environment",
  "Tests run under one clock and environment and never use the command-line program.",
  ["src/output.c","src/parser.c","src/main.c"],
  [("time stamp taken once at parsing","src/parser.c, src/output.c")],
  None,["file names and contents below the output path"])

p("C17","Numerical results agree with the physical model to the requested precision",
  "Background, integrals, correlation function, multipoles and covariance agree with the linear-theory expressions they implement (2PCF without the narrow-bin limit, wide-angle and relativistic terms) to the requested precision.",
  ["inputs"],"every cosmology, redshift, separation and set of contributions",
  "Tests compare a handful of tabulated benchmarks.",
  ["src/functions.c","src/signal.c","src/background.c","src/integrals.c","src/covariance.c"],
  [("analytic kernels","src/functions.c")])

p("C18","The covariance matrix is symmetric and positive semi-definite",
  "For every valid survey configuration the covariance assembled from the bulk result is symmetric under exchange of the two data points and has no significantly negative eigenvalue.",
  ["inputs"],"every survey configuration and set of separations and multipoles",
  "Tests check a few fixed configurations against stored numbers.",
  ["src/covariance.c"],[("integral over products of Bessel functions","src/covariance.c")])

p("C19","Containers and legacy options behave like their documented values",
  "The result containers expose exactly the coordinates and value they were created with, compare and convert consistently, and every documented legacy configuration option maps to its documented replacement.",
  ["inputs"],"every coordinate value and every legacy option",
  "Tests create a few containers only.",
  ["python/coffe/representation.py","python/coffe/coffe.pyx"],[("container classes","python/coffe/representation.py")])

p("C20","The external power spectrum and multidimensional integration back ends agree",
  "With the optional Boltzmann code and cubature library enabled, results agree with those of the built-in paths within the requested precision, and the optional libraries' resources are released.",
  ["configurations"],"every build configuration with the optional libraries",
  "The optional libraries are not part of the default test build.",
  ["src/parser.c","src/signal.c","src/integrals.c"],[("HAVE_CLASS and HAVE_CUBA branches","src/parser.c, src/signal.c")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
