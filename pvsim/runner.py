"""Seeded search over scenarios, minimisation, replay and evidence."""
import collections
import importlib
import json
import os
import pathlib
import queue
import subprocess
import sys
import threading
import time

from . import envinfo
from .core import canon, generic_shrinks

RUN_TIMEOUT = 90  # s without any report from a worker: hung


def load(prop):
    return importlib.import_module(f"pvsim.props.{prop.lower()}")


def meta(prop):
    """Static description of a property's check (parsed without importing the world)."""
    from . import catalog

    return catalog.CHECKS[prop]


# ------------------------------------------------------------------ worker side
def scenario_of(mod, seed, index, tier):
    from .recipes import rng_of

    sc = mod.gen(rng_of(seed, f"{mod.ID}/{index}"), index, tier)
    sc["index"] = index
    return json.loads(json.dumps(sc))


def worker(prop, seed, tier, start, stop, step, deadline):
    mod = load(prop)
    out = sys.stdout
    done = 0
    for index in range(start, stop, step):
        if time.time() > deadline:
            break
        out.write(f"S {index}\n")
        out.flush()
        t = time.perf_counter()
        sc = scenario_of(mod, seed, index, tier)
        res = mod.execute(sc).as_dict()
        res["i"] = index
        res["t"] = time.perf_counter() - t
        if done % 25 == 0 and not res["v"]:
            # determinism: the same scenario again must give the same event log
            again = mod.execute(json.loads(json.dumps(sc))).as_dict()
            res["det"] = again["log"] == res["log"] and (again["v"] is None)
            if again["v"]:
                res["v"] = again["v"]
        if done < 2:
            res["sample"] = sc
        done += 1
        out.write("R " + json.dumps(res) + "\n")
        out.flush()
    out.write("E\n")
    out.flush()


def run_scenario_file(path):
    """Execute a replay file in this process; returns the violation or None."""
    doc = json.loads(pathlib.Path(path).read_text())
    mod = load(doc["property"])
    for sc in doc.get("prefix", []):
        mod.execute(sc)
    return mod.execute(doc["scenario"]).violation


# ------------------------------------------------------------------ parent side
def _spawn(args, hashseed="0", **kw):
    return subprocess.Popen(
        [envinfo.PYTHON, "-B", "-X", "faulthandler", "-m", "pvsim", *map(str, args)],
        env=envinfo.child_env(hashseed), cwd=str(envinfo.VERIF), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw,
    )


def _confirm(doc, timeout=120):
    """Run a scenario in a fresh process. Returns (class, message) or None."""
    envinfo.OUT.mkdir(exist_ok=True)
    path = envinfo.OUT / f"tmp_{os.getpid()}_{time.time_ns()}.json"
    path.write_text(json.dumps(doc))
    try:
        p = _spawn(["run-one", path])
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return ("hang", "the run does not end")
        for line in out.splitlines():
            if line.startswith("V "):
                return tuple(json.loads(line[2:]))
            if line == "OK":
                return None
        if p.returncode < 0:
            return ("crash", f"the process was killed by signal {-p.returncode}")
        raise RuntimeError(f"replay process failed (exit {p.returncode}): {err[-3000:]}")
    finally:
        path.unlink(missing_ok=True)


def _same(a, b):
    return a is not None and b is not None and a[0].split(":")[0] == b[0].split(":")[0]


def minimise_inproc(doc, budget):
    """Greedy minimisation inside one process (used through the `minimise` command)."""
    mod = load(doc["property"])
    target = tuple(doc["violation"])
    best = doc["scenario"]
    end = time.time() + budget
    shrinks = getattr(mod, "shrinks", generic_shrinks)
    tried = set()
    progress = True
    n = 0
    while progress and time.time() < end:
        progress = False
        for cand in shrinks(best):
            if time.time() > end:
                break
            key = canon(cand)
            if key in tried or len(key) > len(canon(best)) + 200:
                continue
            tried.add(key)
            n += 1
            try:
                v = mod.execute(json.loads(key)).violation
            except Exception:
                continue
            if _same(v, target):
                best = json.loads(key)
                progress = True
                break
    return best, n


def _minimise(doc, budget):
    """Minimise in a child process; fall back to the original if anything goes wrong."""
    if doc["violation"][0] in ("crash", "hang") or doc.get("prefix"):
        return _minimise_prefix(doc, budget)
    envinfo.OUT.mkdir(exist_ok=True)
    path = envinfo.OUT / f"tmp_{os.getpid()}_{time.time_ns()}.json"
    path.write_text(json.dumps(doc))
    try:
        p = _spawn(["minimise", path, budget])
        try:
            out, _ = p.communicate(timeout=budget + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return doc
        for line in out.splitlines():
            if line.startswith("M "):
                return {**doc, "scenario": json.loads(line[2:])}
        return doc
    finally:
        path.unlink(missing_ok=True)


def _minimise_prefix(doc, budget):
    """Fresh process per candidate: crashes, hangs and violations that need a history."""
    if doc["violation"][0] == "hang":
        return doc
    end = time.time() + budget
    best = doc
    size = len(best.get("prefix", []))
    while size >= 1 and time.time() < end:
        pre = best.get("prefix", [])
        i = 0
        while i < len(pre) and time.time() < end:
            cand = {**best, "prefix": pre[:i] + pre[i + size:]}
            try:
                v = _confirm(cand)
            except RuntimeError:
                v = None
            if _same(v, doc["violation"]):
                best, pre = cand, cand["prefix"]
            else:
                i += size
        size //= 2
    if not best.get("prefix"):
        mod_shrinks = generic_shrinks
        progress = True
        while progress and time.time() < end:
            progress = False
            for cand_sc in mod_shrinks(best["scenario"]):
                if time.time() > end:
                    break
                cand = {**best, "scenario": cand_sc}
                try:
                    v = _confirm(cand)
                except RuntimeError:
                    v = None
                if _same(v, doc["violation"]):
                    best, progress = cand, True
                    break
    return best


def check(prop, tier, seed):
    t0 = time.time()
    m = meta(prop)
    total = int(os.environ.get("PVSIM_RUNS", m["runs"][tier]))
    budget = float(os.environ.get("PVSIM_BUDGET", m["budget"][tier]))
    deadline = t0 + budget
    nw = max(1, min(int(os.environ.get("PVSIM_WORKERS", os.cpu_count() or 1)), 8, total))
    chunk = m.get("chunk", 120)  # runs per worker process: bounds the history a run can see
    todo = collections.deque()
    base = int(os.environ.get("PVSIM_BASE", 0))
    for a in range(0, total, chunk):
        todo.append((base + a, base + min(a + chunk, total)))
    results, raw_violations, errors = [], [], []
    known, known_hits = load_known(prop), []
    lock = threading.Lock()
    stop = threading.Event()

    def drive(slot):
        while not stop.is_set():
            with lock:
                if not todo or time.time() > deadline:
                    return
                a, b = todo.popleft()
            p = _spawn(["worker", prop, seed, tier, a, b, 1, deadline])
            lines = queue.Queue()
            threading.Thread(target=lambda p=p, q=lines: [q.put(x) for x in p.stdout] + [q.put(None)], daemon=True).start()
            err = []
            et = threading.Thread(target=lambda p=p, e=err: e.append(p.stderr.read()), daemon=True)
            et.start()
            current, ended, hung, seen = None, False, False, []
            while True:
                try:
                    line = lines.get(timeout=RUN_TIMEOUT)
                except queue.Empty:
                    hung = True
                    p.kill()
                    break
                if line is None:
                    break
                if line.startswith("S "):
                    current = int(line[2:])
                elif line.startswith("R "):
                    r = json.loads(line[2:])
                    with lock:
                        results.append(r)
                        if r["v"] and match_known(known, {"violation": r["v"]}):
                            known_hits.append(r["i"])
                        elif r["v"]:
                            raw_violations.append((r["i"], tuple(r["v"]), list(seen)))
                            if len(raw_violations) >= 3:
                                stop.set()
                    seen.append(current)
                    current = None
                    if stop.is_set():
                        p.kill()
                        break
                elif line.startswith("E"):
                    ended = True
            p.wait()
            et.join(5)
            if stop.is_set():
                return
            if hung or (not ended and p.returncode != 0):
                if current is not None and (hung or p.returncode < 0):
                    kind = ("hang", "the run does not end") if hung else ("crash", f"killed by signal {-p.returncode}")
                    with lock:
                        raw_violations.append((current, kind, list(seen)))
                        # go on after the offending run
                        if current + 1 < b:
                            todo.append((current + 1, b))
                        if len(raw_violations) >= 3:
                            stop.set()
                else:
                    with lock:
                        errors.append((err[0] if err else "")[-4000:])
                    stop.set()
                    return

    threads = [threading.Thread(target=drive, args=(i,)) for i in range(nw)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()

    # ---- violations: confirm in a fresh process, minimise, write the replay file
    reported, unreproduced = [], []
    confirm_end = time.time() + 240
    seen_classes = set()
    for index, v, seen in sorted(raw_violations):
        if v[0] in seen_classes or (reported and time.time() > confirm_end):
            continue
        doc = {"property": prop, "seed": seed, "index": index, "tier": tier, "violation": list(v), "prefix": []}
        p = _spawn(["show", prop, seed, tier, index])
        out, err = p.communicate()
        if p.returncode != 0:
            errors.append(err[-3000:])
            continue
        doc["scenario"] = json.loads(out)
        c = _confirm(doc)
        if c is None and seen:
            # needs the runs made before it in the same process
            p = _spawn(["show", prop, seed, tier, *seen])
            out, err = p.communicate()
            doc["prefix"] = [json.loads(x) for x in out.splitlines()]
            c = _confirm(doc)
        if c is None:
            unreproduced.append((index, v))
            continue
        doc["violation"] = list(c)
        small = _minimise(doc, 45 if tier == "quick" else 120)
        c2 = _confirm(small)
        if _same(c2, c):
            small["violation"] = list(c2)
            doc = small
        k = match_known(known, doc)
        if k is not None:
            known_hits.append(index)
            continue
        seen_classes.add(v[0])
        rdir = envinfo.OUT / "replays"
        rdir.mkdir(parents=True, exist_ok=True)
        path = rdir / f"{prop}_{seed}_{index}.json"
        path.write_text(json.dumps(doc, indent=1))
        reported.append((path, doc))

    wall = time.time() - t0
    evidence(prop, tier, seed, m, results, reported, known, wall, total, unreproduced)
    for k in known:
        if k.get("status") == "known":
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for path, doc in reported:
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {doc['violation'][0]}: {doc['violation'][1][:600]}")
    print(f"{prop}: {len(results)} runs in {wall:.1f} s, {len(reported)} violations")
    if reported:
        return 1
    if errors:
        print("harness error:\n" + errors[0], file=sys.stderr)
        return 2
    if unreproduced:
        print(f"harness error: not reproduced in a fresh process: {unreproduced[:2]}", file=sys.stderr)
        return 2
    if len(results) < 0.2 * total:
        print(f"harness error: only {len(results)} of {total} runs within {budget} s", file=sys.stderr)
        return 2
    return 0


def load_known(prop):
    path = envinfo.VERIF / "known_findings.jsonl"
    out = []
    if path.exists():
        for line in path.read_text().splitlines():
            if line.strip():
                d = json.loads(line)
                if d.get("property") == prop:
                    out.append(d)
    return out


def match_known(known, doc):
    for k in known:
        if k.get("status") == "known" and k["match"] in doc["violation"][0]:
            return k
    return None


def evidence(prop, tier, seed, m, results, reported, known, wall, total, unreproduced):
    stats, sigs = collections.Counter(), set()
    samples = []
    distinct = set()
    det = [0, 0]
    for r in results:
        stats.update(r["stats"])
        sigs.update(r["sigs"])
        if r["nt"]:
            distinct.add(r["log"])
        if "det" in r:
            det[0] += 1
            det[1] += bool(r["det"])
        if "sample" in r and len(samples) < 3:
            samples.append(r["sample"])
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("probe:")}
    other = {k: v for k, v in sorted(stats.items()) if not k.startswith(("fault:", "probe:"))}
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": m["level"],
        "coverage": {
            "evaluations": len(results), "distinct_nontrivial": len(distinct), "rule": m["rule"], "samples": samples,
            "runs_planned": total,
            "runs_per_hour": round(len(results) / wall * 3600) if wall else 0,
            "simulated_time": "the package has no clock: simulated time is counted in steps",
            "simulated_steps": other.get("steps", 0),
            "faults_injected": faults,
            "distinct_states_or_interleavings": len(sigs), "state_measure": m["measure"],
            "probes": probes, "counters": other,
            "determinism_rechecks": {"runs_executed_twice": det[0], "identical_event_logs": det[1]},
            "real_components": m["real"], "stub_components": m["stub"],
            "known_findings": [k["what"] for k in known if k.get("status") == "known"],
            "not_reproduced": len(unreproduced),
        },
        "assumptions": m["assumptions"], "wall_s": round(wall, 2), "violations": len(reported),
    }
    d = envinfo.VERIF / "evidence"
    d.mkdir(exist_ok=True)
    (d / f"{prop}.json").write_text(json.dumps(doc, indent=1))
