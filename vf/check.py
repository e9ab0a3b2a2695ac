#!/usr/bin/env python3
"""Decides one property: check.py ID [--tier quick|thorough] [--seed N]

Exit 0: held on everything that was observed.  Exit 1: a violation was
printed.  Any other exit: no verdict (build or machinery trouble)."""
import argparse
import importlib
import os
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vf import build, env, report  # noqa: E402
from vf.props import CHECKS  # noqa: E402


class Ctx:
    def __init__(self, rep, tier, seed):
        self.rep, self.tier, self.seed = rep, tier, seed
        self.quick = tier == "quick"
        self.builder = build.Builder()

    def n(self, quick, factor=6):
        """A case count for the tier."""
        return quick if self.quick else quick * factor

    def build(self, flavour, programs=(), harnesses=(), lib=True):
        """Starts a build; returns a Flavour."""
        return self.builder.start(flavour, programs, harnesses, lib)

    def qlever(self, flavour="asan"):
        bins = self.build(flavour, ["IndexBuilderMain",
                                    "ServerMain"]).programs()
        self.rep.note("built " + flavour)
        return bins


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    spec = CHECKS[a.prop]
    mod = importlib.import_module("vf." + spec["module"])
    rep = report.Report(a.prop, tier, a.seed, spec["level"], spec["rule"],
                        spec.get("assumptions", ()))
    root = tempfile.mkdtemp(prefix="verif-run-", dir="/tmp")
    os.environ["TMPDIR"] = root
    tempfile.tempdir = root
    try:
        need = getattr(mod, spec["fn"])(Ctx(rep, tier, a.seed)) or {}
        rc = rep.finish(**need)
    except build.BuildError as e:
        rep.note("BUILD ERROR\n%s" % e)
        rc = 1 if rep.reported else 2
        rep.finish()
    finally:
        env._cleanup()
        shutil.rmtree(root, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
