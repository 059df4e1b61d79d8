"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json
import pathlib

PYX = "python/coffe/coffe.pyx"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": observe, "hook_needed": hook}})


prop("C01", "An answer depends on the current settings only, never on the history",
     "Whatever sequence of setting changes, rejected changes, queries and recomputations an object has been through, "
     "every quantity it returns equals what a brand-new object given the same current settings returns. "
     "Asking for one quantity never changes the answer to another.",
     ["histories", "configurations"],
     "all sequences of calls on one object: every setter (including bulk and bias setters, input spectrum, reset), every "
     "query, in any order, from any configuration",
     "the tests build a new object per case and never change a setting after a result was computed",
     [PYX, "src/integrals.c", "src/background.c", "src/corrfunc.c", "src/multipoles.c", "src/average_multipoles.c", "src/covariance.c"],
     [("cached results are discarded by the setters of what they depend on", f"{PYX}: _free_* calls in every setter"),
      ("results are recomputed when absent", f"{PYX}: compute_*, integral, power_spectrum, background queries")],
     ["the Python API of Coffe"],
     [("cached background, spectrum, integrals and outputs", "last computed results", f"{PYX}: class Coffe")],
     "COFFE_VERIF_EOS_BINS, COFFE_VERIF_RENORMALIZATION_BINS make tables coarser so that thousands of states are affordable")

prop("C02", "What is set is what is read back; a refused value changes nothing",
     "After an accepted assignment the setting reads back exactly the value given, and no other setting moves except the "
     "density parameters tied to it by definition. A refused assignment (wrong type, out of the documented range, unknown "
     "name) raises an exception and leaves every setting as it was. Tables (biases, input spectrum) reproduce their nodes.",
     ["inputs", "histories"],
     "every setting x every value of its domain (valid, boundary, invalid, of any type), and every order of two assignments",
     "the tests set a handful of values once and never read all other settings back",
     [PYX], [("type and range checks before the value is stored", f"{PYX}: _check_parameter, _check_sampling, the setters")],
     ["the properties, set_* methods, set_parameters and the constructor of Coffe"])

prop("C03", "A configuration file round-trips, and every option in it is honoured",
     "Writing an object to a file and loading the file gives an object with the same settings (an input spectrum, which has no place in the file, aside). Every documented option in "
     "a file takes effect as the corresponding assignment would, independently of the order of the lines; deprecated names "
     "act as the options that replace them, and the current name wins.",
     ["inputs", "configurations"],
     "every settings combination, every subset and order of options in a file, every hash seed of the interpreter",
     "one round trip of one object and one file are tested",
     [PYX, "python/coffe/__main__.py"],
     [("reader and writer of the configuration file", f"{PYX}: from_file, to_file, parameters")],
     ["Coffe.from_file, Coffe.to_file"])

prop("C04", "Bulk results are the exact requested grid, and equal the pointwise values",
     "A bulk computation returns one entry per combination of the requested coordinates, in the fixed nesting order of the "
     "coordinates, each labelled with its own coordinates, whatever their number, order or repetition. Each value equals the value "
     "computed for that point alone and does not depend on which other points were requested. The dictionary form of an "
     "entry carries the same numbers.",
     ["inputs", "configurations"],
     "every list of separations, angles, multipoles and redshifts (any length, order, duplicates) for every kind of output",
     "the tests request one fixed ascending grid",
     ["src/corrfunc.c", "src/multipoles.c", "src/average_multipoles.c", "src/covariance.c", PYX, "python/coffe/representation.py"],
     [("flattened loops over the coordinates", "src/corrfunc.c, src/multipoles.c, src/average_multipoles.c, src/covariance.c"),
      ("conversion to Python objects", f"{PYX}: compute_*_bulk; python/coffe/representation.py")],
     ["compute_*_bulk, compute_corrfunc, compute_multipole, representation classes"])

prop("C05", "Results do not depend on the number of threads or on their schedule",
     "Every output is the same for any number of worker threads and any interleaving of them, up to rounding. "
     "No two threads make conflicting unsynchronised accesses that can change a result or corrupt memory.",
     ["schedules"],
     "all numbers of threads and all interleavings of the parallel loops of every output type",
     "the tests run with one free-running schedule and compare loosely",
     ["src/corrfunc.c", "src/multipoles.c", "src/average_multipoles.c", "src/covariance.c", "src/integrals.c", "src/background.c", "src/common.c"],
     [("OpenMP parallel loops with private work areas", "src/*.c: #pragma omp parallel for")],
     ["the C library's outputs"],
     [("shared interpolation accelerators", "cursor of each interpolation table", "src/common.c: coffe_interp_spline")])

prop("C06", "The signal is the sum of its contributions, and linear in each bias",
     "The signal of a set of contributions is the sum over all pairs of them, so turning contributions on and off obeys "
     "inclusion-exclusion; in the cross-correlation mode the pairs of a contribution with itself are left out. "
     "Each term scales linearly with the biases of the population it comes from, and not with those of terms it does not contain.",
     ["configurations", "inputs"],
     "all subsets of the contributions, all output kinds, all bias values, all points",
     "the tests evaluate each contribution alone at a few points",
     ["src/functions.c", "src/signal.c", "src/corrfunc.c", "src/multipoles.c", PYX],
     [("per-pair kernels and their switches", "src/functions.c: functions_nonintegrated, functions_single_integrated, functions_double_integrated, coffe_get_*")],
     ["compute_corrfunc, compute_multipole and the bulk forms"])

prop("C07", "Exchanging the two populations mirrors the signal",
     "Swapping all biases of the first and the second population is the same as viewing the pair from the other end: the "
     "correlation function at angle mu becomes that at -mu, and a multipole of order l changes by (-1)^l. "
     "With identical populations, odd multipoles and the asymmetry in mu vanish.",
     ["configurations", "inputs"],
     "all sets of contributions, all pairs of bias tables, all points, full-sky and flat-sky",
     "the tests use mirrored biases at most once and never swap them",
     ["src/functions.c", "src/signal.c", PYX],
     [("symmetrised pair kernels", "src/functions.c")],
     ["compute_corrfunc, compute_multipole"])

prop("C08", "The covariance is the Gaussian covariance of its definition",
     "Every entry of the covariance is the one defined by Gaussian statistics of the multipoles: the sum of the cosmic-variance, mixed and shot-noise "
     "parts that are switched on, each with the spectra (biases, growth) and number densities of the populations it pairs, both pairings of the four populations, "
     "the sign of odd multipoles, and the volume of its own redshift bin. It is therefore symmetric under exchanging its two (multipole, separation) arguments, scales as the inverse of the sky "
     "fraction, and each redshift bin depends on its own bin's settings only.",
     ["configurations", "inputs"],
     "all settings of the switches, populations, densities, sky fractions, pixel sizes, bins, methods and interpolation",
     "one covariance per method is compared with a stored file",
     ["src/covariance.c", PYX],
     [("assembly of the covariance", "src/covariance.c: coffe_covariance_init")],
     ["compute_covariance_bulk, compute_average_covariance_bulk"])

prop("C09", "Bad input raises an exception; it never ends or wedges the process",
     "No argument value or combination of settings accepted by the Python interface makes the interpreter exit, abort or "
     "crash: the call either returns a result or raises an exception. After an exception the object still answers as one "
     "with the same settings would.",
     ["inputs", "configurations", "histories"],
     "all values and types of every argument, and all combinations of settings, including empty lists, mismatched lengths and points out of range",
     "the tests try a few values that are known to be refused",
     [PYX, "src/common.c", "src/background.c", "src/integrals.c", "src/functions.c", "src/covariance.c", "src/errors.c"],
     [("checks before a computation", f"{PYX}: _check_*"), ("GSL errors", f"{PYX}: gsl_set_error_handler")],
     ["every method of Coffe"])

prop("C10", "Memory safety: no leak, overflow or use after free over an object's life",
     "Over any sequence of calls on any number of objects, from creation to destruction, the library never reads or writes outside live "
     "memory, never frees twice and never uses freed memory, and repeating a sequence of calls does not keep consuming memory.",
     ["histories", "configurations"],
     "all sequences of setters, queries, recomputations and destructions",
     "the tests run without a memory checker and never repeat a computation on one object",
     ["src/*.c", PYX],
     [("matching allocation and release", "coffe_*_init / coffe_*_free, coffe_parse_default_parameters / coffe_parameters_free")],
     ["the library under the address sanitizer and an allocation counter"])

prop("C11", "The energy budget stays consistent",
     "After any sequence of accepted assignments to density parameters, the Hubble constant and the neutrino mass, total matter equals cold "
     "matter plus baryons plus neutrinos, and matter, radiation and dark energy add up to one, with dark energy never negative. A change that would break "
     "this is refused and leaves the budget as it was.",
     ["histories", "inputs"],
     "all sequences of assignments to the density parameters, h and the neutrino mass",
     "two refused values are tested",
     [PYX, "src/parser.c"],
     [("re-balancing after each assignment", f"{PYX}: omega_* setters, _balance_content")],
     ["omega_* and big_omega_* of Coffe"])

prop("C12", "The command-line program writes exactly what was computed",
     "For any valid settings file the command-line program writes one complete table per requested output whose "
     "coordinates and values are those the library computes for the same settings; running it again gives the same files, not longer ones.",
     ["configurations", "inputs"],
     "all output kinds, background columns, grids, contributions and settings files",
     "no test runs either command-line program",
     ["src/main.c", "src/output.c", "src/parser.c", "python/coffe/__main__.py"],
     [("table writers", "src/output.c"), ("settings reader", "src/parser.c: coffe_parser_init")],
     ["the files written"])

prop("C13", "A failed read or write is reported, never passed over",
     "If any file operation of the command-line program fails (opening, reading, writing, flushing, closing, creating a directory), "
     "the program says so and exits with a non-zero status; it never crashes and never reports success with a missing or truncated output.",
     ["fault_sequences", "crash_points"],
     "every file operation of a run, each failing in every way it can",
     "no test makes a file operation fail",
     ["src/output.c", "src/main.c", "src/common.c", "src/utils.c", "src/parser.c"],
     [("checks of the results of file operations", "src/output.c, src/common.c: read_*col, write_*col")],
     ["exit status, standard error and files of the program"])

prop("C14", "Data files are read completely and exactly",
     "Every numeric row of an input data file is read, in order, whatever the comments, blank lines, spacing, line length or missing final newline, "
     "and written tables read back as the numbers written. A malformed file is refused with a message instead of being misread.",
     ["inputs"],
     "all files over an alphabet of line shapes, up to a number of lines, for every kind of column file",
     "one well-formed file is read by the tests",
     ["src/common.c", "src/utils.c", "src/parser.c"],
     [("column readers", "src/common.c: read_1col, read_2col, read_ncol"), ("column writers", "src/common.c: write_ncol")],
     ["read_*col, write_*col"])

prop("C15", "Objects do not influence one another",
     "Any interleaving of calls on several objects gives each object the answers it would give alone, and creating, "
     "using or destroying one leaves the others and the interpreter's global state as they were (the CUBACORES variable, which it sets by design, aside).",
     ["histories", "schedules"],
     "all interleavings of call sequences on two or three objects",
     "the tests never use two live objects",
     [PYX, "src/common.c", "src/background.c"],
     [("all state is held per object", f"{PYX}: class Coffe")],
     ["the Python API of Coffe"])

prop("C16", "Multipoles are the Legendre projections of the correlation function",
     "A multipole of order l is (2l+1)/2 times the integral of the correlation function times the Legendre polynomial over the angle, "
     "at the same redshift and separation, for every set of contributions; a redshift-averaged multipole is the corresponding average of "
     "multipoles over its bin. The choice of integration method does not change a result beyond its precision.",
     ["inputs", "configurations"],
     "all multipoles, points, contributions, integration methods",
     "multipoles are compared with stored tables of the default method at fixed points",
     ["src/multipoles.c", "src/average_multipoles.c", "src/signal.c", "src/functions.c", "src/tanhsinh.c", "src/common.c"],
     [("angular and redshift integrals", "src/signal.c: coffe_integrate")],
     ["compute_multipole, compute_multipoles_bulk, compute_average_multipoles_bulk"])

prop("C17", "Background functions satisfy their defining relations",
     "At every redshift and for every accepted cosmology: the scale factor is 1/(1+z), conformal and physical Hubble rates differ by it, the comoving distance is the integral "
     "of the inverse Hubble rate, the Hubble rate follows from the densities and dark-energy equation of state, and growth factor and growth rate "
     "solve the growth equation with unit growth today.",
     ["inputs", "configurations"],
     "all cosmologies and redshifts",
     "one cosmology is compared with a stored table",
     ["src/background.c", PYX],
     [("background tables", "src/background.c: coffe_background_init")],
     ["hubble_rate, comoving_distance, growth_factor, growth_rate and the others"],
     hook="COFFE_VERIF_EOS_BINS")

prop("C18", "Spectrum integrals equal their definition and are linear in the spectrum",
     "Each Fourier-Bessel integral of the power spectrum equals its defining integral at every separation in range, to the accuracy of the transform. Integrals and all full-sky "
     "signals scale linearly with the linear spectrum; covariances combine its zeroth, first and second powers as defined.",
     ["inputs", "configurations"],
     "all orders, separations and spectra",
     "integrals are compared with a stored table for one spectrum",
     ["src/integrals.c", "src/twofast.c", "src/functions.c", "src/covariance.c"],
     [("FFTLog transforms and the renormalised divergent integral", "src/integrals.c, src/twofast.c")],
     ["integral, compute_*"])

prop("C19", "Every pair of contributions is what linear theory says",
     "The correlation of any two contributions equals the one computed from their definitions: each contribution is a kernel "
     "in the direction of the wavevector and in inverse powers of the wavenumber, with its amplitude (growth, biases, Hubble rate) taken at the redshift and "
     "from the population of the galaxy it belongs to, or integrated along that galaxy's line of sight; this holds in full sky for all 55 pairs, and in the flat-sky modes for the "
     "pairs they change.",
     ["inputs", "configurations"],
     "all pairs of contributions, redshifts, separations, angles, biases and cosmologies",
     "stored tables cover 28 of the pairs with equal populations and mostly constant biases, at the tables' own accuracy; the others were never compared with anything",
     ["src/functions.c", "src/signal.c"],
     [("closed forms of the pair kernels", "src/functions.c: functions_nonintegrated, functions_single_integrated, functions_double_integrated, functions_flatsky_*")],
     ["compute_corrfunc"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
