"""No call ever modifies the caller's data."""
from ..bsim import call, count, gen_fault
from ..core import Outcome, generic_shrinks
from ..fp import diff, fp
from ..ops import Call, gen_call, gen_pool
from ..recipes import realize

ID = "C01"


def gen(rng, index, tier):
    pool = gen_pool(rng)
    steps = []
    for _ in range(rng.randint(2, 5)):
        st = gen_call(rng, pool, gui=True)
        if rng.random() < 0.55:
            st["fault"] = gen_fault(rng)
        steps.append(st)
    used = _refs(steps)
    return {"pool": {k: v for k, v in pool.items() if k in used}, "steps": steps}


def _refs(x):
    if isinstance(x, dict):
        if x.get("$") == "ref":
            return {x["name"]}
        return set().union(set(), *(_refs(v) for v in x.values()))
    if isinstance(x, list):
        return set().union(set(), *(_refs(v) for v in x))
    return set()


def execute(sc):
    out = Outcome()
    pool = {k: realize(v) for k, v in sc["pool"].items()}
    pics = {k: fp(v) for k, v in pool.items()}
    for st in sc["steps"]:
        out.count("steps")
        name = st["f"] if st["f"] != "history" else st["kw"]["spec"]["cls"]
        fault = st.get("fault")
        n = None
        if fault is not None:
            # dry run on inputs of its own
            _, _, n = count(Call(st, {k: realize(v) for k, v in sc["pool"].items()}).run, fault)
        c = Call(st, pool)
        before = fp(c.live)
        got, val, inj = call(c.run, fault, n)
        out.event(name, got)
        if inj.fired:
            out.count(f"fault:{fault['kind']}")
            out.event("fault", inj.fired[0], inj.fired[2])
        elif got != "ok":
            out.count("probe:rejected call")
        else:
            out.count("probe:completed call")
        out.nontrivial = True
        out.sig(name, got, inj.fired[:2] if inj.fired else None)
        at = f"aborted in {inj.fired[0]} line {inj.fired[1]} calling {inj.fired[2]}" if inj.fired else f"outcome {got}"
        d = diff(before, fp(c.live), exact=True)
        if d:
            out.fail(f"args:{name}", f"{name} ({at}) modified its arguments: {d}")
            break
        for k, v in pool.items():
            d = diff(pics[k], fp(v), exact=True)
            if d:
                out.fail(f"args:{name}", f"{name} ({at}) modified a dataset of the caller: {d}")
                break
        if out.violation:
            break
    return out


def shrinks(sc):
    yield from generic_shrinks(sc)
    for i, st in enumerate(sc["steps"]):
        if st["f"] == "history":
            ops = st["kw"]["ops"]
            for j in range(len(ops)):
                new = {**st, "kw": {**st["kw"], "ops": ops[:j] + ops[j + 1:]}}
                yield {**sc, "steps": sc["steps"][:i] + [new] + sc["steps"][i + 1:]}
    used = _refs(sc["steps"])
    if set(sc["pool"]) - used:
        yield {**sc, "pool": {k: v for k, v in sc["pool"].items() if k in used}}
