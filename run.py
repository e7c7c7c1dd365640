#!/usr/bin/env python3
"""python3 run.py P03 [quick|thorough]   decide one property
   python3 run.py replay FILE           re-run one recorded violation
   python3 run.py setup                 check that the tools the monitors need are there
   python3 run.py manifest              rewrite MANIFEST.json"""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import runner, specs, build, pyenv


def main():
    a = sys.argv[1:]
    if a[0] == "replay":
        return runner.replay(specs.SPECS, a[1])
    if a[0] == "setup":
        import subprocess
        for t in ("g++", "python3", "valgrind", pyenv.PYTHON):
            subprocess.run([t, "--version"], check=True, stdout=subprocess.DEVNULL)
        build.repo_sources()
        print("ok")
        return 0
    if a[0] == "manifest":
        from lib import manifest
        return manifest.write()
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a[0] not in specs.SPECS:
        print("unknown property " + a[0])
        return 2
    return runner.check(specs.SPECS[a[0]], a[0], tier, seed)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
