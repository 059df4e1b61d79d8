"""Builds the code under test from /repo's current working tree, outside /repo.

Everything goes to a content-addressed scratch directory, so two checks that
run in one sandbox share a build, and a change in /repo always gives a new one.
"""
import concurrent.futures as cf
import hashlib
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
VERIF = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/coffe-venv/bin/python"
CYTHON = "/opt/coffe-venv/bin/cython"
CACHE = pathlib.Path(os.environ.get("VERIF_CACHE", str(VERIF / ".build")))

LIBS = ["-lgsl", "-lgslcblas", "-lfftw3", "-lconfig", "-lm"]
LIB_SOURCES = (
    "common covariance utils twobessel errors parser twofast integrals background "
    "functions tanhsinh signal corrfunc multipoles average_multipoles"
).split()


class BuildError(RuntimeError):
    pass


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(" ".join(map(str, cmd)) + "\n" + r.stdout[-4000:])
    return r.stdout


def lib_sources():
    """The library's C sources, as /repo's CMakeLists.txt names them (new files included)."""
    import re
    text = (REPO / "CMakeLists.txt").read_text()
    m = re.search(r"set\(COFFE_LIB_SOURCES(.*?)\)", text, re.S)
    names = re.findall(r"/([A-Za-z0-9_]+\.c)", m.group(1)) if m else []
    return [REPO / "src" / n for n in names] or [REPO / "src" / (n + ".c") for n in LIB_SOURCES]


def tree_hash(extra=()):
    h = hashlib.sha256()
    files = sorted((REPO / "src").glob("*")) + sorted((REPO / "python/coffe").glob("*"))
    files += [REPO / "CMakeLists.txt"] + sorted((VERIF / "stub").glob("*")) + [pathlib.Path(__file__)]
    for f in files:
        if f.is_file() and not f.name.endswith(".pyc"):
            h.update(str(f.name).encode() + b"\0" + f.read_bytes() + b"\0")
    for e in extra:
        h.update(str(e).encode() + b"\0")
    return h.hexdigest()[:20]


def _paths():
    out = subprocess.check_output(
        [PY, "-c", "import sysconfig as s;print(s.get_paths()['include']);print(s.get_config_var('EXT_SUFFIX'))"],
        text=True).split()
    return out[0], out[1]


# flavour -> (compiler, flags for the C library, flags for linking); see EXTRA too
HOOKS = ["-DCOFFE_VERIF_EOS_BINS=256", "-DCOFFE_VERIF_RENORMALIZATION_BINS=12"]
COARSE = HOOKS[:1] + ["-DCOFFE_VERIF_RENORMALIZATION_BINS=6"]
EXTRA = {"quad": ["quad_stub.c"], "race": ["race_rt.c"]}      # stand-ins linked in besides the one for CLASS
# calls that change something behind a pointer, which stub/race_rt.c records
WRAPPED = ("malloc calloc realloc free memcpy memmove memset gsl_integration_workspace_alloc gsl_integration_workspace_free gsl_monte_plain_alloc "
           "gsl_monte_miser_alloc gsl_monte_vegas_alloc gsl_monte_plain_free gsl_monte_miser_free gsl_monte_vegas_free gsl_rng_alloc gsl_rng_free "
           "fftw_malloc fftw_free gsl_interp_accel_alloc gsl_interp_accel_free gsl_spline_alloc gsl_spline_free gsl_spline2d_alloc gsl_spline2d_free "
           "gsl_spline_init gsl_spline_eval gsl_spline_eval_deriv gsl_spline2d_eval gsl_integration_qag gsl_monte_plain_integrate "
           "gsl_monte_miser_integrate gsl_monte_vegas_integrate fftw_plan_dft_c2r_1d fftw_plan_dft_r2c_1d fftw_plan_dft_c2r_2d fftw_plan_dft_r2c_2d "
           "fftw_destroy_plan fftw_execute gsl_set_error_handler gsl_set_error_handler_off").split()
FLAVOURS = {
    # as the shipped build: Release + -ffast-math (see CMakeLists.txt, COFFE_MATHOPTS)
    "release": ("gcc", ["-O3", "-DNDEBUG", "-ffast-math", "-fopenmp", *COARSE], ["-fopenmp"]),
    # the same with deterministic cubature in place of Monte Carlo integration
    "quad": ("gcc", ["-O3", "-DNDEBUG", "-ffast-math", "-fopenmp", *HOOKS], ["-fopenmp"]),
    # without the hooks, for what depends on the fine tables
    "plain": ("gcc", ["-O3", "-DNDEBUG", "-ffast-math", "-fopenmp"], ["-fopenmp"]),
    # every parallel region and every access to memory goes to stub/race_rt.c
    "race": ("gcc", ["-O1", "-g", "-DNDEBUG", "-ffast-math", "-fopenmp", "-fsanitize=thread", *COARSE],
             ["-Wl,-Bsymbolic", "-lpthread", *["-Wl,--wrap=" + w for w in WRAPPED]]),
    # smaller workspaces of the integrator, for checks of memory, which would mostly fill and map them
    "small": ("gcc", ["-O3", "-DNDEBUG", "-ffast-math", "-fopenmp", "-DCOFFE_MAX_INTSPACE=2000", *COARSE], ["-fopenmp"]),
    "asan": ("gcc", ["-O1", "-g", "-fopenmp", "-fsanitize=address,bounds", "-DCOFFE_MAX_INTSPACE=2000",
                      "-fno-sanitize-recover=bounds", "-fno-omit-frame-pointer", *COARSE],
             ["-fopenmp", "-fsanitize=address,bounds"]),
}


def build(kind, flavour="release"):
    """kind: 'python' (package directory with the extension) or 'cli' (the coffe-cli binary) or
    'lib' (a shared library of the C sources).  Returns the path of what was built."""
    key = tree_hash((kind, flavour, FLAVOURS[flavour], EXTRA.get(flavour)))
    dest = CACHE / f"{kind}-{flavour}-{key}"
    if (dest / ".done").exists():
        return _result(kind, dest)
    CACHE.mkdir(parents=True, exist_ok=True)
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="tmp-", dir=CACHE))
    try:
        _build(kind, flavour, tmp)
        (tmp / ".done").touch()
        try:
            os.rename(tmp, dest)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return _result(kind, dest)


def _result(kind, dest):
    return {"python": dest, "cli": dest / "coffe-cli", "lib": dest / "libcoffe.so"}[kind]


def _build(kind, flavour, tmp):
    cc, cflags, ldflags = FLAVOURS[flavour]
    inc, suffix = _paths()
    base = [cc, "-std=gnu99", "-fPIC", "-w", f"-I{REPO/'src'}", *cflags]
    jobs, objs = [], []
    sources = lib_sources() + [VERIF / "stub" / "class_stub.c"]
    sources += [VERIF / "stub" / n for n in EXTRA.get(flavour, ())]
    if kind == "cli":
        sources += [REPO / "src/main.c", REPO / "src/output.c"]
    for s in sources:
        o = tmp / (s.stem + ".o")
        objs.append(o)
        mine = [f for f in base if f not in ("-fsanitize=thread", "-ffast-math")] if s.name == "race_rt.c" else base
        jobs.append([*mine, '-DPACKAGE_STRING="verif"', "-c", str(s), "-o", str(o)])
    with cf.ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(_run, j) for j in jobs]
        if kind == "python":
            pkg = tmp / "coffe"
            pkg.mkdir()
            for f in (REPO / "python/coffe").glob("*.py"):
                shutil.copy(f, pkg)
            src = tmp / "coffe.c"
            _run([CYTHON, "-3", "-I", str(REPO / "python"), str(REPO / "python/coffe/coffe.pyx"), "-o", str(src)])
            o = tmp / "coffe_wrapper.o"
            objs.append(o)
            wflags = [f for f in cflags if not f.startswith(("-O", "-ffast"))]
            wflags = [f for f in wflags if f not in ("-fopenmp", "-fsanitize=thread")]
            _run([cc, "-O0", "-fPIC", "-w", f"-I{inc}", f"-I{REPO/'src'}", *wflags, "-c", str(src), "-o", str(o)])
            src.unlink()
        for f in futs:
            f.result()
    if kind == "python":
        target = ["-shared", "-o", str(tmp / "coffe" / ("coffe" + suffix))]
    elif kind == "cli":
        target = ["-o", str(tmp / "coffe-cli")]
    else:
        target = ["-shared", "-o", str(tmp / "libcoffe.so")]
    _run([cc, *map(str, objs), *target, *ldflags, *LIBS])
    for o in objs:
        o.unlink()


if __name__ == "__main__":
    for a in sys.argv[1:]:
        kind, _, flav = a.partition(":")
        print(build(kind, flav or "release"))
