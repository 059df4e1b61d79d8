"""Builds what the checks need from /repo's working tree (they rebuild it themselves if it changes)."""
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent / "lib"))
import build

for kind, flavour in (("python", "release"), ("python", "quad"), ("python", "plain")):
    print(build.build(kind, flavour))
