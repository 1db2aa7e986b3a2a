"""
Builder simulation shared by C02, C03 and C04.

The builder under test lives through a history of calls - accepted, rejected, failed by a
fault, retried - and of edits of everything that surrounds it. The reference is a fresh
builder that is only ever given the accepted calls, with inputs nobody else has seen, and
generates once.
"""
from .builders import apply_op, clean_spec, gen_builder, gen_generate, gen_ops, gen_stray, new_builder
from .core import Outcome
from .fp import diff, digest, fp
from .inject import Injector
from .recipes import NAMES, make_mesh, realize, user_fault
from .world import np, pv

KINDS = ["memory", "interrupt", "engine", "user"]
ITEM_ATTRS = ("group", "method", "priority", "resolution", "thickness", "transition")


# ------------------------------------------------------------------ faults
def call(fn, fault=None, n=None):
    """(outcome, value, injector): outcome 'ok' or the type of the exception raised."""
    if fault is not None and fault["kind"] == "user":
        with user_fault(int(fault["u"] * n) if n else None) as inj:
            return (*_try(fn), inj)
    k = int(fault["u"] * n) if fault is not None and n else None
    with Injector(k, fault["kind"] if fault else "memory", wide=bool(fault and fault.get("wide"))) as inj:
        return (*_try(fn), inj)


def _try(fn):
    try:
        return "ok", fn()
    except (Exception, KeyboardInterrupt) as exc:
        return type(exc).__name__, exc


def count(fn, fault):
    """Dry run: (outcome, value, number of fault points)."""
    if fault is not None and fault["kind"] == "user":
        with user_fault(None) as inj:
            out, val = _try(fn)
    else:
        with Injector(None, wide=bool(fault and fault.get("wide"))) as inj:
            out, val = _try(fn)
    return out, val, inj.n


def gen_fault(rng):
    return {"kind": rng.choices(KINDS, [4, 3, 3, 1])[0], "u": round(rng.random(), 4)}


# ------------------------------------------------------------------ observable state
def state(b):
    """What the public attributes of a builder show."""
    items = []
    for it in getattr(b, "items", []):
        items.append([fp(it.mesh)] + [_plain(getattr(it, a, None)) for a in ITEM_ATTRS])
    d = {"items": items}
    for a in ("mesh", "default_group", "ignore_groups", "axis", "scale", "angle"):
        if hasattr(b, a):
            d[a] = fp(getattr(b, a))
    f = getattr(b, "fuse_cells", None)
    if isinstance(f, list):
        d["n_fuse"] = len(f)
    return d


def _plain(v):
    if callable(v):
        return "callable"
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    return fp(v)


# ------------------------------------------------------------------ edits
def edit(obj, how):
    """Edit a dataset or an array in place. Returns whether anything changed."""
    if isinstance(obj, np.ndarray):
        if obj.dtype.kind not in "fbiu" or obj.size == 0:
            return False
        if obj.dtype.kind == "b":
            obj[:] = ~obj
        elif obj.dtype.kind in "iu":
            obj[:] = 0
        else:
            obj += 7.5
        return True
    if isinstance(obj, dict):
        # a group mapping: what it holds, or the mapping itself
        if how in ("data", "cells"):
            return any([edit(x, how) for x in obj.values()])
        if how == "user":
            obj["hacked"] = [0]
        else:
            obj.clear()
        return True
    if isinstance(obj, list):
        done = False
        if how == "groups":
            obj += NAMES
            return True
        for i, x in enumerate(obj):
            if isinstance(x, list):
                done |= edit(x, how)
            elif isinstance(x, float):
                obj[i] = x + 7.5
                done = True
            elif isinstance(x, str):
                obj[i] = "~" + x
                done = True
        return done
    if not isinstance(obj, pv.DataSet):
        return False
    if how == "points":
        if isinstance(obj, pv.ImageData):
            obj.origin = tuple(x + 3.5 for x in obj.origin)
        elif isinstance(obj, pv.RectilinearGrid):
            obj.x[:] *= 3.0
            obj.y[:] += 2.5
            obj.z[:] += 1.5
        else:
            obj.points[:] = obj.points * 1.5 + 4.25
        return True
    if how == "data":
        done = False
        for attrs in (obj.cell_data, obj.point_data):
            for k in list(attrs.keys()):
                a = attrs[k]
                if a.dtype.kind in "iuf" and a.size:
                    a[:] = a[::-1] + 1
                    done = True
        return done
    if how == "drop":
        done = bool(obj.array_names)
        obj.clear_data()
        return done
    if how == "user":
        obj.user_dict["CellGroup"] = {"hacked": 0}
        return True
    if how == "cells":
        if isinstance(obj, pv.UnstructuredGrid):
            c = obj.cell_connectivity
        elif isinstance(obj, pv.PolyData) and obj.n_faces_strict:
            c = obj.faces
            return False
        else:
            return False
        if not c.size:
            return False
        c[:] = c[::-1].copy()
        return True
    raise KeyError(how)


EDITS = ["points", "data", "user", "drop", "cells"]
#: arguments claimed by C04: datasets, coordinates, subdivisions and group mappings
GIVEN = {"arg", "mesh_or_points", "mesh_or_resolution", "mesh", "vector", "angles", "point", "center", "resolution", "group"}


# ------------------------------------------------------------------ generation
def gen(rng, focus):
    """focus: failures (C02), generates (C03) or aliasing (C04)."""
    spec = gen_builder(rng)
    n = rng.randint(2, 4) if spec["cls"] != "VoronoiMesh2D" else rng.randint(1, 4)
    ops = gen_ops(rng, spec, n, bad={"failures": 0.3, "generates": 0.1, "aliasing": 0.05}[focus])
    p_fault = {"failures": 0.6, "generates": 0.2, "aliasing": 0.1}[focus]
    p_gen = {"failures": 0.2, "generates": 0.6, "aliasing": 0.35}[focus]
    p_edit = {"failures": 0.0, "generates": 0.0, "aliasing": 0.8}[focus]
    steps = []
    for op in ops:
        st = {k: op[k] for k in ("op", "a")}
        if spec["cls"] == "MeshStack2D" and steps and steps[-1]["op"] == "add" and rng.random() < 0.5 * p_fault:
            stray = gen_stray(rng, spec)
            if not stray.get("bad"):
                stray["fault"] = gen_fault(rng)
            steps.append(stray)
        if rng.random() < p_fault:
            st["fault"] = gen_fault(rng)
            # a call given up is made again, as the user would; or the user goes on without
            if rng.random() < 0.75 or op["op"] == "set_transition":
                steps.append(st)
                st = {k: op[k] for k in ("op", "a")}
        steps.append(st)
        if rng.random() < p_gen:
            steps.append(gen_gen(rng, spec, focus))
        if rng.random() < p_edit:
            steps.append(gen_edit(rng))
    if focus == "aliasing" and rng.random() < 0.6:
        steps.append({"op": "edit", "target": "all", "which": 0, "how": rng.choice(["points", "points", "data", "user", "drop", "cells"])})
    for _ in range(rng.randint(1, 3) if focus == "generates" else 1):
        steps.append(gen_gen(rng, spec, focus))
        if rng.random() < p_edit:
            steps.append(gen_edit(rng))
    sc = {"spec": clean_spec(spec), "steps": steps, "final": gen_generate(rng, spec)}
    if focus == "aliasing":
        sc["twin"] = rng.random() < 0.5
    return sc


def gen_gen(rng, spec, focus):
    st = gen_generate(rng, spec)
    if rng.random() < {"failures": 0.5, "generates": 0.4, "aliasing": 0.1}[focus]:
        st["fault"] = gen_fault(rng)
    return st


def gen_edit(rng):
    return {"op": "edit", "target": rng.choice(["arg", "arg", "init", "result", "result", "twin"]), "which": rng.randrange(8),
            "how": rng.choice(["points", "points", "data", "user", "drop", "cells"])}


# ------------------------------------------------------------------ execution
class Sim:
    def __init__(self, sc, out):
        self.sc, self.out = sc, out
        self.over = False
        self.accepted = []
        self.args = []  # live arguments
        self.results = []  # (mesh, picture) returned so far and not edited since
        self.init = realize(sc["spec"]["init"])
        from .world import pvg

        self.cls = getattr(pvg, sc["spec"]["cls"])
        self.b = self.cls(**self.init)
        self.twin = self.cls(**self.init) if sc.get("twin") else None

    def fresh(self):
        b = new_builder(self.sc["spec"])
        for op in self.accepted:
            apply_op(b, op)
        return b

    def run(self):
        out = self.out
        for st in [*self.sc["steps"], self.sc["final"]]:
            out.count("steps")
            if out.violation or self.over:
                return
            if st["op"] == "edit":
                self.edit(st)
            elif st["op"] == "generate_mesh":
                self.generate(st)
            else:
                self.add(st)
        if not out.violation:
            for i, (mesh, pic) in enumerate(self.results):
                d = diff(pic, fp(mesh), exact=True)
                if d:
                    out.fail("result-changed", f"mesh returned by generate_mesh no. {i} changed later: {d}")
                    return

    def add(self, st):
        out, name = self.out, f"{self.sc['spec']['cls']}.{st['op']}"
        fault = st.get("fault")
        ref = self.fresh()
        want, want_exc, n = count(lambda: apply_op(ref, st), fault)
        args = realize(st["a"])
        before = state(self.b)
        got, val, inj = call(lambda: getattr(self.b, st["op"])(**args), fault, n)
        self._count(st, inj, got)
        out.event(st["op"], got)
        if inj.fired is None:
            if got != want:
                out.fail(f"outcome:{name}", f"{name} -> {got} ({val!r:.200}), a fresh builder -> {want} ({want_exc!r:.200})")
                return
        if st.get("stray") and got == "ok":
            out.count("probe:stray call accepted")
            self.over = True
            return
        if got != "ok":
            d = diff(before, state(self.b), exact=True)
            if d:
                out.fail(f"trace:{name}", f"{name} raised {got} ({_at(inj)}) but changed the builder: {d}")
                return
            # and the call that failed has no effect on what is generated
        else:
            self.accepted.append({k: st[k] for k in ("op", "a")})
            if val is not self.b:
                out.fail(f"return:{name}", f"{name} did not return the builder")
            for k, v in args.items():
                if k in GIVEN:
                    self.args.append(v)
            if self.twin is not None:
                # the other builder is given the very same objects
                _try(lambda: getattr(self.twin, st["op"])(**args))
        out.sig(name, got, inj.fired[0] if inj.fired else None, len(self.accepted))

    def generate(self, st):
        out, name = self.out, f"{self.sc['spec']['cls']}.generate_mesh"
        fault = st.get("fault")
        want, ref, n = count(lambda: apply_op(self.fresh(), st), None)
        if fault is not None:
            # number of fault points of the call alone
            b = self.fresh()
            want, ref, n = count(lambda: apply_op(b, st), fault)
        before = state(self.b)
        got, mesh, inj = call(lambda: apply_op(self.b, st), fault, n)
        d = diff(before, state(self.b), exact=True)
        if d:
            out.fail(f"state:{name}", f"{name} -> {got} ({_at(inj)}) changed the builder: {d}")
            return
        self._count(st, inj, got)
        out.event("generate", got)
        if inj.fired is not None and got != "ok":
            out.count("probe:aborted generate_mesh")
            out.sig("abort", inj.fired[0], inj.fired[1])
            return
        if got != want:
            out.fail(f"outcome:{name}", f"{name} -> {got} ({mesh!r:.200}), a fresh builder -> {want} ({ref!r:.200})")
            return
        if got != "ok":
            return
        pic = fp(mesh)
        d = diff(fp(ref), pic)
        out.event(digest(pic))
        if d:
            out.fail(f"mesh:{name}", f"{name} differs from that of a fresh builder given the same accepted calls: {d}")
            return
        out.nontrivial = True
        out.count("probe:mesh compared")
        self.results.append((mesh, fp(mesh)))
        out.sig("mesh", digest(pic))
        if self.twin is not None:
            # the other builder generates too
            _try(lambda: apply_op(self.twin, st))

    def edit(self, st):
        t, i, how = st["target"], st["which"], st["how"]
        if t == "arg" and self.args:
            done = edit(self.args[i % len(self.args)], how)
        elif t == "init":
            done = edit(self.init.get("mesh"), how)
            if self.init.get("ignore_groups"):
                done |= edit(self.init["ignore_groups"], "groups")
        elif t == "all":
            # everything the builder was ever given
            done = [edit(x, how) for x in [*self.args, self.init.get("mesh")]]
            if self.init.get("ignore_groups"):
                done.append(edit(self.init["ignore_groups"], "groups"))
            done = any(done)
        elif t == "result" and self.results:
            mesh, _ = self.results.pop(i % len(self.results))
            done = edit(mesh, how)
        elif t == "twin" and self.twin is not None:
            items = list(getattr(self.twin, "items", []))
            objs = [x.mesh for x in items] + ([self.twin.mesh] if hasattr(self.twin, "mesh") else [])
            done = bool(objs) and edit(objs[i % len(objs)], how)
        else:
            done = False
        if done:
            self.out.count(f"fault:edit of {t}")
            self.out.event("edit", t, how)
            # editing an input edits nothing else
            self._results_intact(f"editing {t}")

    def _results_intact(self, why):
        for i, (mesh, pic) in enumerate(self.results):
            d = diff(pic, fp(mesh), exact=True)
            if d:
                self.out.fail("result-changed", f"{why} changed a mesh generated earlier: {d}")

    def _count(self, st, inj, got):
        if inj.fired is not None:
            self.out.count(f"fault:{st['fault']['kind']}")
            self.out.event("fault", inj.fired[0], inj.fired[2])
            if got == "ok":
                self.out.count("probe:fault swallowed")
        elif got != "ok":
            self.out.count(f"probe:rejected {st['op']}")


def _at(inj):
    return f"fault in {inj.fired[0]} line {inj.fired[1]} calling {inj.fired[2]}" if inj.fired else "no fault"


def execute(sc):
    out = Outcome()
    out.event(sc["spec"]["cls"])
    Sim(sc, out).run()
    return out


__all__ = ["gen", "execute", "make_mesh"]
