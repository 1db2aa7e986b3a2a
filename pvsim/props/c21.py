"""A failure inside a call is reported, never turned into a wrong result."""
from ..bsim import call, count
from ..core import Outcome, generic_shrinks
from ..fp import diff, digest, fp
from ..ops import Call, gen_call, gen_pool
from ..recipes import realize
from .c01 import _refs, shrinks as c01_shrinks
from .c05 import gen_polygon

ID = "C21"
KINDS = ["memory", "interrupt", "engine", "value", "type", "user", "os"]


def gen(rng, index, tier):
    pool = gen_pool(rng)
    steps = []
    for _ in range(rng.randint(1, 3)):
        st = gen_call(rng, pool) if rng.random() < 0.93 else gen_polygon(rng)
        st["fault"] = {"kind": rng.choices(KINDS, [3, 3, 3, 3, 1, 1, 1])[0], "u": round(rng.random(), 4)}
        if st["fault"]["kind"] in ("memory", "interrupt") and rng.random() < 0.4:
            st["fault"]["wide"] = True
        steps.append(st)
    used = _refs(steps)
    return {"pool": {k: v for k, v in pool.items() if k in used}, "steps": steps}


class Journal(Call):
    """As a call, but a failure always ends the history, so that it is seen where it happened."""

    def run(self):
        if self.st["f"] != "history":
            return super().run()
        from ..world import pvg

        b = getattr(pvg, self.st["kw"]["spec"]["cls"])(**self.init)
        out = None
        for op, args in zip(self.st["kw"]["ops"], self.args):
            if op.get("bad"):
                continue
            out = getattr(b, op["op"])(**args)
        return out


def chain(exc):
    """The exception and those it was raised from or while handling."""
    seen = []
    todo = [exc]
    while todo:
        e = todo.pop()
        if e is None or any(e is x for x in seen):
            continue
        seen.append(e)
        todo += [e.__cause__, e.__context__]
    return seen


def execute(sc):
    out = Outcome()
    for st in sc["steps"]:
        out.count("steps")
        step(out, sc, st)
        if out.violation:
            break
    return out


def step(out, sc, st):
    name = st["f"] if st["f"] != "history" else st["kw"]["spec"]["cls"]
    used = _refs(st)

    def fresh():
        return Journal(st, {k: realize(v) for k, v in sc["pool"].items() if k in used}).run

    fault = st["fault"]
    want, ref, n = count(fresh(), fault)
    if want != "ok" or not n:
        out.count("probe:call rejected anyway")
        return
    pic = fp(ref)
    got, val, inj = call(fresh(), fault, n)
    if not inj.fired:
        if got != "ok" or diff(pic, fp(val), tol=1e-9):
            out.fail(f"again:{name}", f"{name} repeated with equal arguments: {got} {val!r:.200}")
        return
    out.nontrivial = True
    out.count(f"fault:{fault['kind']}")
    where = f"{name}, {fault['kind']} fault in {inj.fired[0]} line {inj.fired[1]} calling {inj.fired[2]}"
    out.event(name, got, inj.fired[0], inj.fired[2])
    out.sig(name, got, inj.fired[:2])
    if got == "ok":
        out.count("probe:call returned in spite of the failure")
        d = diff(pic, fp(val), tol=1e-9)
        out.event(digest(fp(val)))
        if d:
            out.fail(f"swallowed:{name}", f"{where}: the failure was swallowed and the result is wrong: {d}")
        return
    out.count("probe:failure reported")
    if not any(e is inj.raised for e in chain(val)):
        out.fail(f"hidden:{name}", f"{where}: {got} ({val!r:.150}) raised, which says nothing of the failure")
    elif fault["kind"] == "interrupt" and val is not inj.raised:
        out.fail(f"hidden:{name}", f"{where}: the interrupt was turned into {got}")


def shrinks(sc):
    yield from c01_shrinks(sc)


__all__ = ["ID", "gen", "execute", "shrinks", "generic_shrinks"]
