"""Concurrent callers do not disturb each other."""
from .. import inject
from ..bsim import _try, state
from ..builders import apply_op, clean_spec, gen_builder, gen_generate, gen_ops, new_builder
from ..core import Outcome, generic_shrinks
from ..fp import diff, digest, fp
from ..inject import Injector
from ..ops import Call, gen_call, gen_pool
from ..recipes import realize
from ..sched import Scheduler
from .c01 import _refs
from .c05 import engine_state, gen_frame, gen_polygon, reset
from .c10 import settings, settled

ID = "C06"


def gen_schedule(rng):
    """Preemptions at fractions of the serial execution: few deep ones, or many."""
    c = rng.random()
    k = rng.randint(1, 4) if c < 0.5 else (rng.randint(5, 20) if c < 0.85 else rng.randint(40, 120))
    return sorted([round(rng.random(), 6), rng.randrange(4)] for _ in range(k))


def gen(rng, index, tier):
    kind = rng.choices(["calls", "gmsh", "builder"], [4, 3, 3])[0]
    n = rng.choices([2, 3, 4], [6, 3, 1])[0]
    sc = {"kind": kind, "pool": {}, "threads": []}
    if kind == "calls":
        pool = gen_pool(rng)
        first = None
        for _ in range(n):
            calls = []
            for _ in range(rng.randint(1, 2)):
                # often the same function, or the very same call, in all threads
                st = first if first is not None and rng.random() < 0.4 else gen_call(rng, pool)
                first = first or st
                calls.append(st)
            sc["threads"].append(calls)
        used = _refs(sc["threads"])
        sc["pool"] = {k: v for k, v in pool.items() if k in used}
    elif kind == "gmsh":
        for _ in range(n):
            sc["threads"].append([(gen_polygon if rng.random() < 0.85 else gen_frame)(rng) for _ in range(rng.randint(1, 2))])
    else:
        spec = gen_builder(rng)
        ops = gen_ops(rng, spec, rng.randint(2, 3))
        sc["spec"] = clean_spec(spec)
        sc["ops"] = [{k: op[k] for k in ("op", "a")} for op in ops]
        sc["threads"] = [[gen_generate(rng, spec) for _ in range(rng.randint(1, 2))] for _ in range(n)]
    sc["schedule"] = gen_schedule(rng)
    if rng.random() < 0.25:
        sc["fault"] = {"kind": rng.choice(["memory", "interrupt", "engine"]), "u": round(rng.random(), 4), "thread": rng.randrange(n), "gmsh": kind == "gmsh"}
    return sc


def build(sc):
    """(pool, builder, bodies): bodies append (outcome, value) of each call as it ends."""
    pool = {k: realize(v) for k, v in sc["pool"].items()}
    builder = None
    if sc["kind"] == "builder":
        builder = new_builder(sc["spec"])
        for op in sc["ops"]:
            apply_op(builder, op)
    logs = [[] for _ in sc["threads"]]
    bodies = []
    for calls, log in zip(sc["threads"], logs):
        if builder is not None:
            runs = [lambda st=st: apply_op(builder, st) for st in calls]
        else:
            runs = [Call(st, pool).run for st in calls]

        def body(runs=runs, log=log):
            for run in runs:
                got = _try(run)
                st = inject._state
                log.append((*got, st is not None and st.fired is not None))

        bodies.append(body)
    return pool, builder, bodies, logs


def name_of(st):
    return st.get("f") or st["op"] if st.get("f") != "history" else st["kw"]["spec"]["cls"]


def execute(sc):
    with settled():
        return _execute(sc)


def _execute(sc):
    out = Outcome()
    n = len(sc["threads"])
    out.event(sc["kind"], n)
    if n == 0:
        return out
    reset()
    # reference: one after the other, no scheduler
    _, _, bodies, ref = build(sc)
    for body in bodies:
        body()
    ref = [[(o, fp(v) if o == "ok" else str(v)[:200]) for o, v, _ in log] for log in ref]
    eng = engine_state()
    fault = sc.get("fault")
    inject.lines(True)
    try:
        # serial execution under the scheduler: number of steps, number of fault points
        only = {"gmsh"} if fault and fault["gmsh"] else None
        ft = fault["thread"] % n if fault else None
        _, _, bodies, _ = build(sc)
        with Injector(None, only=only, thread=ft) as inj:
            s = Scheduler(bodies, [])
            s.run()
        total, points = s.step, inj.n
        if s.deadlock:
            out.fail("deadlock", "deadlock in a serial execution")
            return out
        schedule = [[1 + int(u * total), pick] for u, pick in sc["schedule"]]
        pool, builder, bodies, logs = build(sc)
        pics = {k: fp(v) for k, v in pool.items()}
        st0 = state(builder) if builder is not None else None
        k = int(fault["u"] * points) if fault and points else None
        kept = settings()
        with Injector(k, fault["kind"] if fault else "memory", only=only, thread=ft) as inj:
            s = Scheduler(bodies, schedule)
            s.run()
    finally:
        inject.lines(False)
    out.count("steps", s.step)
    out.count("preemptions", len(s.switches))
    out.event(s.step, s.switches, s.sites)
    out.sig(*s.switches, *s.sites)
    if s.switches:
        out.count(f"fault:preemptive schedule, {n} threads")
    if inj.fired:
        out.count(f"fault:{fault['kind']} in one thread")
        out.event("fault", inj.fired[0], inj.fired[2])
    trace = "; ".join(f"step {a}: thread {b} at {site} -> thread {c}" for (a, b, c), site in list(zip(s.switches, s.sites))[:6])
    if s.deadlock:
        out.fail("deadlock", f"the threads wait for each other ({trace})")
        return out
    if s.overrun:
        out.fail("livelock", f"the threads do not finish ({trace})")
        return out
    hit = False
    for t, (log, want) in enumerate(zip(logs, ref)):
        for c, st in enumerate(sc["threads"][t]):
            name = name_of(st)
            if c >= len(log):
                out.fail(f"lost:{name}", f"thread {t}: {name} never returned")
                return out
            got, val, fired = log[c]
            w, wv = want[c]
            if t == ft and fired and not hit:
                hit = True  # the call the fault was injected in
                continue
            if got != w:
                out.fail(f"outcome:{name}", f"thread {t}: {name} -> {got} ({val!r:.200}), one after the other -> {w} ({wv if isinstance(wv, str) else ''}); {trace}")
                return out
            if got == "ok":
                d = diff(wv, fp(val))
                out.count("probe:result compared")
                out.nontrivial = True
                if d:
                    out.fail(f"result:{name}", f"thread {t}: {name} differs from that of the same calls made one after the other: {d}; {trace}")
                    return out
                out.event(digest(wv))
    for k, v in pool.items():
        d = diff(pics[k], fp(v), exact=True)
        if d:
            out.fail("shared", f"a dataset shared by the threads changed: {d}; {trace}")
            return out
    if builder is not None:
        d = diff(st0, state(builder), exact=True)
        if d:
            out.fail("builder", f"concurrent generate_mesh changed the builder: {d}; {trace}")
            return out
    now = settings()
    changed = [k for k in kept if kept[k] != now[k]]
    if changed:
        out.fail("process", f"the threads left the {', '.join(changed)} of the process changed: {kept[changed[0]]!s:.150} -> {now[changed[0]]!s:.150}; {trace}")
        return out
    d = diff(eng, engine_state(), exact=True)
    if d:
        out.fail("engine", f"the engine was left changed: {d}; {trace}")
        reset()
    return out


def shrinks(sc):
    if sc.get("fault"):
        yield {k: v for k, v in sc.items() if k != "fault"}
    yield from generic_shrinks(sc, keys=("schedule", "threads", "ops"))
    for t, calls in enumerate(sc["threads"]):
        if len(calls) > 1:
            for i in range(len(calls)):
                yield {**sc, "threads": sc["threads"][:t] + [calls[:i] + calls[i + 1:]] + sc["threads"][t + 1:]}
