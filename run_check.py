#!/usr/bin/env python
"""run_check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--kind K] [--scale X]

Drives the workload of one property against the code in /repo's working tree,
with the monitors of checks/<property>.py deciding.  See lib/hv/core.py."""
import argparse
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def reexec():
    want = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
            "MKL_NUM_THREADS": "1", "MPLBACKEND": "Agg"}
    if any(os.environ.get(k) != v for k, v in want.items()) or "PYTHONPATH" in os.environ:
        env = dict(os.environ, **want)
        env.pop("PYTHONPATH", None)
        os.execve(sys.executable, [sys.executable, os.path.join(HERE, "run_check.py")] + sys.argv[1:], env)


def main():
    reexec()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--kind")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    sys.path.insert(0, os.path.join(HERE, "lib"))
    sys.path.insert(0, HERE)
    from hv import core
    module = importlib.import_module("checks." + a.prop.lower())
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        if hasattr(module, "prepare"):
            module.prepare(r["tier"])
        else:
            core.setup_path()
        if hasattr(module, "imports"):
            module.imports()
        mon = core.Monitor()
        res = core.run_case(module, r["kind"], r["index"], r["seed"], mon, timeout=600)
        print(json.dumps(core.jsonable(mon.case), indent=1, ensure_ascii=False)[:4000])
        print(res)
        return 1 if res and res[0] == "violation" else 0 if res is None else 2
    return core.main(module, a.tier, a.seed, only=a.kind, scale=a.scale)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
