"""What every check shares: tier, seed, evidence, violations, known findings."""
import json
import os
import pathlib
import sys
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
EVID = VERIF / "evidence"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
os.environ.setdefault("OMP_NUM_THREADS", "1")


def known_findings(prop):
    """The ids of the findings listed for this property: lines 'finding: property=ID key=KEY text'."""
    out = {}
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith(f"finding: property={prop} "):
                rest = line.split(f"property={prop} ", 1)[1]
                key, _, text = rest.partition(" ")
                out[key.removeprefix("key=")] = text
    return out


class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.coverage = {}
        self.assumptions = []
        self.violations = []          # (key, replay dict)
        self.known = known_findings(prop)
        self.seen_known = {}
        EVID.mkdir(exist_ok=True)
        sys.excepthook = self.crashed

    def crashed(self, kind, value, tb):
        """An exception no check expects: a valid call was refused, or the machinery is broken."""
        sys.__excepthook__(kind, value, tb)
        if kind.__name__ not in ("BuildError", "KeyboardInterrupt"):
            self.violation("unexpected-exception/" + kind.__name__, text=str(value)[-1500:])
            self.coverage = self.coverage or {"evaluations": 0, "distinct_nontrivial": 0, "rule": "stopped by an exception", "samples": []}
            sys.stdout.flush()
            self.finish()
            sys.stdout.flush()

    @property
    def thorough(self):
        return TIER == "thorough"

    def elapsed(self):
        return time.time() - self.t0

    def violation(self, key, **detail):
        """Reports one failure.  key identifies the input, call or history that fails."""
        if key in self.known:
            self.seen_known.setdefault(key, detail)
            return
        self.violations.append((key, detail))

    def finish(self):
        for key, text in self.known.items():
            if key in self.seen_known:
                print(f"KNOWN-FINDING: property={self.prop} {key}: {text}")
        ev = {
            "property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick",
            "seed": SEED, "level": self.level, "coverage": self.coverage,
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        (EVID / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
        if self.violations:
            rd = EVID / "replay"
            rd.mkdir(exist_ok=True)
            shown = {}
            for key, detail in self.violations:
                shown.setdefault(key, detail)
            path = rd / f"{self.prop}.json"
            path.write_text(json.dumps(
                [{"key": k, **d} for k, d in shown.items()], indent=1, default=str) + "\n")
            for key, detail in list(shown.items())[:int(os.environ.get("VERIF_SHOW", "40"))]:
                print(f"  violated: {key}: {json.dumps(detail, default=str)[:600]}")
            print(f"{len(self.violations)} violation(s), {len(shown)} distinct")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"OK property={self.prop} {json.dumps({k: v for k, v in self.coverage.items() if isinstance(v, (int, float, bool))})} wall={ev['wall_s']}s")
        return 0


def close(a, b, rtol=1e-6, atol=0.0):
    if a == b:
        return True
    if isinstance(a, float) and isinstance(b, float):
        if a != a and b != b:
            return True
        return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
    return False


def use_build(flavour="release", kind="python"):
    """Builds the Python package from /repo and puts it on sys.path."""
    import build
    if flavour != "asan":
        import ctypes
        libc = ctypes.CDLL(None)
        libc.mallopt(-3, 1 << 30)      # M_MMAP_THRESHOLD: keep freed memory, most of a run's time
        libc.mallopt(-1, 1 << 30)      # M_TRIM_THRESHOLD: would go into page faults
    path = build.build(kind, flavour)
    if kind == "python":
        sys.path.insert(0, str(path))
    return path
