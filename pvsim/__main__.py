import json
import os
import pathlib
import sys

from . import runner


def private_stdout():
    """Engines print on file descriptor 1: keep it for the protocol alone."""
    fd = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.close(null)
    sys.stdout = os.fdopen(fd, "w")


def main(argv):
    cmd, *a = argv
    if cmd in ("worker", "show", "run-one", "minimise", "serve"):
        private_stdout()
    if cmd == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        return runner.check(a[0], tier, seed)
    if cmd == "worker":
        prop, seed, tier, start, stop, step, deadline = a
        runner.worker(prop, int(seed), tier, int(start), int(stop), int(step), float(deadline))
        return 0
    if cmd == "show":
        prop, seed, tier, *idx = a
        mod = runner.load(prop)
        for i in idx:
            print(json.dumps(runner.scenario_of(mod, int(seed), int(i), tier)))
        return 0
    if cmd == "run-one":
        v = runner.run_scenario_file(a[0])
        print("OK" if v is None else "V " + json.dumps(v))
        return 0
    if cmd == "minimise":
        doc = json.loads(pathlib.Path(a[0]).read_text())
        best, n = runner.minimise_inproc(doc, float(a[1]))
        print("M " + json.dumps(best))
        return 0
    if cmd == "replay":
        doc = json.loads(pathlib.Path(a[0]).read_text())
        v = runner._confirm(doc)
        if v is None:
            print(f"{doc['property']}: the violation does not occur")
            return 0
        print(f"VIOLATION property={doc['property']} replay={a[0]}")
        print(f"  {v[0]}: {v[1]}")
        return 1
    if cmd == "serve":
        from . import fresh

        fresh.serve()
        return 0
    if cmd == "manifest":
        from . import manifest

        manifest.write()
        return 0
    raise SystemExit(f"unknown command {cmd}")


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    if "pvsim.fresh" in sys.modules:
        sys.modules["pvsim.fresh"].stop()
    os._exit(code)
