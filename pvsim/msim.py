"""
Builder histories checked against an executable reference model (C11 to C14).

The builder lives through accepted, rejected and aborted calls; every mesh it generates is
compared with what the model says the accepted calls ask for.
"""
from .bsim import call, count, gen_fault
from .builders import apply_op, clean_spec, gen_builder, gen_generate, gen_ops, gen_stray, new_builder
from .core import Outcome, generic_shrinks
from .disk import reload
from .fp import digest, fp
from .recipes import realize


class Ambiguous(Exception):
    """The answer depends on rounding: nothing is claimed."""


def gen(rng, classes, tweak=None, bad=0.12):
    spec = gen_builder(rng, rng.choice(classes))
    if tweak:
        tweak(rng, spec)
    n = rng.randint(2, 4) if spec["cls"] != "VoronoiMesh2D" else rng.randint(1, 4)
    ops = gen_ops(rng, spec, n, bad=bad)
    steps = []
    if rng.random() < 0.1:
        steps.append(gen_generate(rng, spec))  # too early
    for op in ops:
        st = {k: op[k] for k in ("op", "a", "bad", "surf") if k in op}
        if spec["cls"] == "MeshStack2D" and steps and steps[-1]["op"] == "add" and rng.random() < 0.15:
            stray = gen_stray(rng, spec)
            if not stray.get("bad"):
                stray["fault"] = gen_fault(rng)
            steps.append(stray)
        if rng.random() < 0.3:
            steps.append({**st, "fault": gen_fault(rng)})
            # given up for good now and then, else made again
            if rng.random() < 0.15 and st["op"] != "set_transition" and spec["cls"] != "MeshStack2D":
                continue
        steps.append(st)
        if rng.random() < 0.15:
            g = gen_generate(rng, spec)
            if rng.random() < 0.5:
                g["fault"] = gen_fault(rng)
            steps.append(g)
    return {"spec": clean_spec(spec), "steps": steps, "final": gen_generate(rng, spec), "reload": rng.random() < 0.2}


def execute(sc, check, ready):
    """check(spec, accepted, generate_args, mesh) -> message or None; ready(spec, accepted) -> can generate (None: not known)."""
    out = Outcome()
    cls = sc["spec"]["cls"]
    out.event(cls)
    b = new_builder(sc["spec"])
    accepted = []
    steps = [*sc["steps"], sc["final"]]
    for i, st in enumerate(steps):
        out.count("steps")
        fault, name = st.get("fault"), f"{cls}.{st['op']}"
        n = None
        if fault is not None:
            ref = new_builder(sc["spec"])
            for op in accepted:
                apply_op(ref, op)
            _, _, n = count(lambda: apply_op(ref, st), fault)
        got, val, inj = call(lambda: apply_op(b, st), fault, n)
        out.event(st["op"], got)
        if inj.fired is not None:
            out.count(f"fault:{fault['kind']}")
            out.event("fault", inj.fired[0], inj.fired[2])
        if st["op"] != "generate_mesh":
            if got == "ok":
                if st.get("stray"):
                    out.count("probe:stray call accepted")
                    return out
                if st.get("bad"):
                    out.fail(f"accepted:{name}", f"{name} accepted {st['a']!r:.300}")
                    return out
                accepted.append({k: st[k] for k in ("op", "a", "surf") if k in st})
            elif inj.fired is None:
                if not st.get("bad"):
                    out.fail(f"refused:{name}", f"{name} refused a valid call: {got} {val!r:.300}")
                    return out
                out.count("probe:rejected call")
            continue
        if got != "ok":
            if inj.fired is None:
                if ready(sc["spec"], accepted, st["a"]):
                    out.fail(f"refused:{name}", f"{name} failed on a valid sequence of calls: {got} {val!r:.300}")
                    return out
            else:
                out.count("probe:aborted generate_mesh")
            continue
        if ready(sc["spec"], accepted, st["a"]) is False:
            out.fail(f"accepted:{name}", f"{name} returned a mesh out of {len(accepted)} accepted calls")
            return out
        if sc.get("reload"):
            # the process ends and only the file of the mesh is left
            val = reload(val)
            out.count("fault:crash and reload")
        try:
            msg = check(sc["spec"], accepted, realize(st["a"]), val)
        except Ambiguous as exc:
            out.count(f"probe:ambiguous ({exc})")
            continue
        out.nontrivial = True
        out.count("probe:mesh compared with the model")
        pic = digest(fp(val))
        out.event(pic)
        out.sig("mesh", pic)
        if msg:
            out.fail(f"mesh:{name}", f"{name} after {len(accepted)} accepted calls: {msg}")
            return out
    return out


def shrinks(sc):
    yield from generic_shrinks(sc)
    for i, st in enumerate(sc["steps"]):
        for k in ("priority", "thickness", "group", "resolution", "method", "scale", "angle"):
            if k in st.get("a", {}):
                yield {**sc, "steps": sc["steps"][:i] + [{**st, "a": {a: b for a, b in st["a"].items() if a != k}}] + sc["steps"][i + 1:]}
    for k in list(sc["spec"]["init"]):
        if k in ("default_group", "ignore_groups", "bottom_up", "scale", "angle"):
            yield {**sc, "spec": {**sc["spec"], "init": {a: b for a, b in sc["spec"]["init"].items() if a != k}}}
    if sc["final"].get("a"):
        yield {**sc, "final": {**sc["final"], "a": {}}}
