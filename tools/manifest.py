"""Writes /verif/MANIFEST.json (run by hand when a check is added)."""
import json
import pathlib
import subprocess

V = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/coffe-venv/bin/python"
CHECKS = {
    "C01": ("model_checking", "exhaustive bounded exploration of call histories on the real object against a fresh-object oracle",
            "every single change from 9 configurations with warm caches, every undo, every query/change/query triple over a stated alphabet; oracle: a new object in a fresh process. P(k) comes from a stand-in for CLASS."),
    "C02": ("model_checking", "exhaustive enumeration of assignments and pairs of assignments against a dictionary model",
            "every setting x value alphabet x configurations, and every ordered pair of settings x 3x3 values."),
    "C03": ("model_checking", "exhaustive enumeration of settings, and of subsets and orders of file options, against a dictionary model",
            "every setting alone and together, every option and pair of options in every order, several hash seeds."),
    "C04": ("exploration", "exhaustive enumeration of request grids over a small coordinate alphabet against one-point oracles",
            "every product of coordinate lists up to 2 entries per axis and up to 3 (thorough: 4) on one axis, for every kind of output; every contribution on smaller grids."),
    "C05": ("model_checking", "controlled scheduler: dynamic partial-order reduction by recorded accesses, exhaustive orders of threads, and preemption at every contested access",
            "12 configurations that enter every parallel loop; every access of every iteration recorded with the locks held, on a run-time of the check's own (one baton, teams up to 300); all orders of teams up to 4, stated orders to 8; inside GSL, FFTW and cuba the objects they are handed are tracked, not their memory."),
    "C06": ("exploration", "exhaustive enumeration of the subsets of contributions (2^10 x modes x outputs) and of bias tables, against the sum of pair terms",
            "all 1024 subsets in full sky, a stated family in the flat-sky modes, times cross-correlation mode; every pair x every bias table. Monte Carlo integrals are replaced by a fixed cubature."),
    "C07": ("exploration", "exhaustive enumeration of pairs of contributions x bias tables that differ x points, against the object with exchanged populations",
            "all 55 pairs x every subset of the kinds of bias that differ x modes, all triples and larger sets, cross-correlation mode. Monte Carlo integrals are replaced by a fixed symmetric cubature."),
    "C08": ("exploration", "exhaustive enumeration of population quadruples, switches and methods against an independent evaluation of the definition",
            "all 256 quadruples of populations x sets of multipoles, all combinations of parts, binning, density/RSD, outputs and methods; every entry compared with its definition."),
    "C09": ("exploration", "exhaustive enumeration of argument values, settings and pairs of settings on the real object in child processes, with the death of the process as the observed failure",
            "every method x an alphabet of types, signs, range ends and non-finite values on five kinds of object; every setting x edge values, and all ordered pairs of edge settings, followed by every query; after each stage the object must answer as before."),
    "C10": ("model_checking", "exhaustive enumeration of bounded call histories under a sanitizer, under two memory fill patterns, and repeated under an allocation counter",
            "every change and its undoing on every configuration, ordered pairs on two objects with both orders of destruction, products of list lengths 1-2, range ends and refused tables; GSL and FFTW are not instrumented."),
    "C11": ("model_checking", "breadth-first search of a budget model, every transition replayed on the real object",
            "all states within 5 assignments over a 34-assignment alphabet; all unmerged sequences of 3; all orders of up to 3 options by 4 routes."),
    "C15": ("model_checking", "exhaustive enumeration of the interleavings of call sequences on two and three objects against the runs alone",
            "call granularity (the library holds the interpreter lock); every pair of 6 programs; neighbours differing in any one setting; nested use."),
    "C16": ("exploration", "exhaustive enumeration of pairs of contributions, modes, multipoles and integration methods, against the defining integrals over the correlation function",
            "all 55 pairs in full sky and those the flat-sky modes change; multipoles to 6, averages to 4. Monte Carlo integrals are replaced by a fixed cubature, and compared with it in a separate part."),
    "C17": ("exploration", "exhaustive enumeration of a product of cosmologies and of single settings, against independent quadrature and growth integration",
            "densities x equations of state x neutrino masses x integrators, and every other setting alone; at the nodes of the background table and between them. The build has no hooks."),
    "C18": ("exploration", "exhaustive enumeration of orders, spectra, separations and pairs of contributions against direct sums and against combinations of spectra",
            "every order x spectrum x sampling x separation against the defining integral; all 55 pairs x modes x combinations of two spectra; every set of covariance parts. Near the ends of the range of the periodic transform the tolerance is wide."),
    "C19": ("exploration", "exhaustive enumeration of the pairs of contributions over a grid of points against an independent linear-theory model",
            "all 55 pairs in full sky and the pairs of the flat-sky modes, on a grid of redshifts, separations and angles with different tables for each population."),
}
TODO = {p: "the check is not built yet" for p in ("C%02d" % i for i in range(1, 20)) if p not in CHECKS}
commits = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H %s"], text=True).splitlines()
man = {
    "version": 1,
    "setup_cmd": f"{PY} tools/setup.py",
    "hooks": {"guard": "COFFE_VERIF_EOS_BINS, COFFE_VERIF_RENORMALIZATION_BINS",
              "enable": "lib/build.py compiles the sources with -DCOFFE_VERIF_EOS_BINS=256 -DCOFFE_VERIF_RENORMALIZATION_BINS=12",
              "source_commits": [c.split()[0] for c in commits if " hook: " in c]},
    "checks": [{"property": p, "quick_cmd": f"{PY} checks/{p.lower()}.py", "thorough_cmd": f"{PY} checks/{p.lower()}.py",
                "technique": t, "level": l, "level_note": n} for p, (l, t, n) in CHECKS.items()],
    "not_applicable": [{"property": p, "reason": r} for p, r in TODO.items()],
}
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
