"""The Gmsh engine is always handed back as it was found."""
import os
import signal
import tempfile

from ..bsim import _try
from ..core import Outcome, generic_shrinks
from ..fp import diff, digest, fp
from ..fresh import ask
from ..inject import Injector
from ..ops import Call
from ..recipes import dy, gen_polygon_pts
from ..world import gmsh, np

ID = "C05"
KINDS = ["memory", "interrupt", "engine"]

OPTIONS = [
    "General.Verbosity", "General.Terminal", "General.AbortOnError", "General.NumThreads",
    "Mesh.Algorithm", "Mesh.Algorithm3D", "Mesh.MeshSizeMin", "Mesh.MeshSizeMax", "Mesh.MeshSizeFactor", "Mesh.MeshSizeFromPoints",
    "Mesh.MeshSizeFromCurvature", "Mesh.MeshSizeExtendFromBoundary", "Mesh.RecombineAll", "Mesh.RecombinationAlgorithm", "Mesh.Optimize",
    "Mesh.OptimizeNetgen", "Mesh.ElementOrder", "Mesh.SecondOrderLinear", "Mesh.SubdivisionAlgorithm", "Mesh.Smoothing", "Mesh.SaveAll",
    "Mesh.RandomSeed", "Mesh.RandomFactor", "Mesh.ToleranceInitialDelaunay", "Geometry.Tolerance", "Geometry.AutoCoherence", "Geometry.OCCFixDegenerated",
    "Geometry.ToleranceBoolean", "Mesh.MshFileVersion", "Mesh.Binary",
]
# set by the caller; those of the first list have no effect on the mesh of a polygon
HARMLESS = [("General.Verbosity", 2.0), ("Mesh.Algorithm", 5.0), ("Mesh.Algorithm", 8.0), ("Mesh.Algorithm3D", 10.0), ("Mesh.SaveAll", 1.0), ("Mesh.MshFileVersion", 2.2)]
HARMFUL = [("Mesh.MeshSizeMin", 0.125), ("Mesh.MeshSizeMax", 3.5), ("Mesh.MeshSizeFromPoints", 0.0), ("Mesh.MeshSizeFromCurvature", 6.0), ("Mesh.MeshSizeExtendFromBoundary", 0.0)]


def gen_polygon(rng):
    n = rng.randint(5, 8)
    pts = gen_polygon_pts(rng, n, z=rng.random() < 0.7)
    kw = {"shell": rng.choice([pts, {"$": "arr", "v": pts}, {"$": "mesh", "k": "polygon", "p": [(*p, 0.0)[:3] for p in pts]}])}
    if rng.random() < 0.35:
        hole = gen_polygon_pts(rng, n=4, r=0.15, z=True)
        kw["holes"] = [rng.choice([{"$": "arr", "v": hole}, {"$": "mesh", "k": "polygon", "p": hole}])]
    kw["celltype"] = rng.choices(["triangle", "quad", "polygon", None], [5, 4, 1, 1])[0]
    if rng.random() < 0.35:
        kw["cellsize"] = rng.choice([0.5, 0.3125])
    if rng.random() < 0.35:
        kw["engine"] = "occ"
    if rng.random() < 0.25:
        kw["algorithm"] = rng.choice([1, 5, 8])
    if rng.random() < 0.2:
        kw["optimization"] = rng.choice(["Laplace2D", "Relocate2D"])
    if rng.random() < 0.2:
        # invalid arguments, rejected before or while the engine is open
        k, v = rng.choice([
            ("engine", "nonsense"), ("celltype", "nonsense"), ("optimization", "nonsense"), ("cellsize", "large"), ("algorithm", "fast"),
            ("shell", [[0.0, 0.0], [1.0, 0.0]]), ("holes", [[[0.0, 0.0, 0.0, 0.0], [0.1, 0.0, 0.0, 0.0], [0.1, 0.1, 0.0, 0.0]]]), ("cellsize", [1.0, 2.0, 3.0]),
        ])
        kw[k] = v
        if k == "shell":
            kw.pop("holes", None)  # Gmsh never ends on a hole in nothing
    return {"f": "Polygon", "kw": kw}


def gen_frame(rng):
    """Another way to the engine: boundary polygons of a mesh, filled."""
    mesh = {"$": "mesh", "k": "frame", "n": 5, "holes": rng.choice([[], [[1, 1, 3, 3]], [[1, 1, 2, 2], [3, 3, 4, 4]]])}
    return {"f": "extract_boundary_polygons", "kw": {"mesh": mesh, "fill": True, "with_holes": True}}


def gen_transition(rng):
    n = rng.randint(2, 4)
    spec = {"cls": "MeshStack2D", "init": {"mesh": {"$": "mesh", "k": "line", "p": [[float(i), 0.0, 0.0] for i in range(n + 1)], "poly": True}, "axis": 2}}
    m = rng.randint(2, 5)
    ops = [
        {"op": "add", "a": {"arg": 0.0}}, {"op": "add", "a": {"arg": 1.0, "resolution": 2}},
        {"op": "set_transition", "a": {"mesh_or_resolution": {"$": "mesh", "k": "line", "p": [[n * i / m, 0.0, 0.0] for i in range(m + 1)], "poly": True}}},
        {"op": "add", "a": {"arg": dy(rng, 0.5, 2.0)}}, {"op": "generate_mesh", "a": {}},
    ]
    return {"f": "history", "kw": {"spec": spec, "ops": ops}}


def gen(rng, index, tier):
    steps = []
    opened = False
    for _ in range(rng.randint(2, 6)):
        c = rng.random()
        if c < 0.2:
            if opened:
                steps.append({"op": "close"})
                opened = False
            else:
                models = []
                for i in range(rng.randint(0, 3)):
                    models.append({"name": rng.choice(["a", "b c", "pvgridder.Polygon", "Polygon", "model"]) + (str(i) if rng.random() < 0.7 else ""),
                                   "size": dy(rng, 0.5, 2.0), "mesh": rng.random() < 0.5, "occ": rng.random() < 0.3, "group": rng.random() < 0.3})
                seen = set()
                models = [m for m in models if not (m["name"] in seen or seen.add(m["name"]))]
                opts = [list(rng.choice(HARMLESS)) for _ in range(rng.randint(0, 2))]
                if rng.random() < 0.3:
                    opts.append(list(rng.choice(HARMFUL)))
                steps.append({"op": "open", "models": models, "options": opts, "current": rng.randrange(4), "interruptible": rng.random() < 0.5})
                opened = True
        elif c < 0.27:
            steps.append({"op": "sigint", "h": rng.choice(["default", "ignore", "custom"])})
        elif c < 0.33 and opened:
            steps.append({"op": "option", "set": list(rng.choice(HARMLESS + HARMFUL))})
        else:
            call = rng.choices([gen_polygon, gen_frame, gen_transition], [8, 1, 1])[0](rng)
            st = {"op": "call", "call": call}
            if rng.random() < 0.5:
                st["fault"] = {"kind": rng.choice(KINDS), "u": round(rng.random(), 4), "gmsh": rng.random() < 0.75}
            steps.append(st)
    steps.append({"op": "call", "call": gen_polygon(rng)})
    return {"steps": steps}


# ------------------------------------------------------------------ observation
def engine_state():
    d = {"initialized": bool(gmsh.isInitialized())}
    h = signal.getsignal(signal.SIGINT)
    d["sigint"] = getattr(h, "__name__", str(h))
    if not d["initialized"]:
        return d
    cur = gmsh.model.getCurrent()
    d["current"] = cur
    names = list(gmsh.model.list())
    d["models"] = names
    per = []
    for n in names:
        gmsh.model.setCurrent(n)
        ents = [list(map(int, e)) for e in gmsh.model.getEntities()]
        tags, xyz, _ = gmsh.model.mesh.getNodes()
        cells = [[int(t), np.asarray(e).astype(int), np.asarray(v).astype(int)] for t, e, v in zip(*gmsh.model.mesh.getElements())]
        groups = [[*map(int, g), gmsh.model.getPhysicalName(*g)] for g in gmsh.model.getPhysicalGroups()]
        per.append([n, ents, np.sort(np.asarray(tags)).astype(int), np.asarray(xyz), cells, groups, [int(t) for t in gmsh.model.mesh.field.list()]])
    gmsh.model.setCurrent(cur)
    d["content"] = per
    d["options"] = {k: gmsh.option.getNumber(k) for k in OPTIONS}
    d["other options"] = changed_options()
    d["views"] = [int(t) for t in gmsh.view.getTags()]
    return d


def changed_options():
    """Every option that differs from its default, as Gmsh itself writes them."""
    with tempfile.TemporaryDirectory(prefix="pvsim-") as tmp:
        path = os.path.join(tmp, "x.opt")
        gmsh.write(path)
        with open(path, errors="replace") as f:
            return sorted(line.strip() for line in f if "read-only" not in line and not line.startswith(("General.BuildInfo", "General.FileName")))


def _custom_handler(signum, frame):
    raise KeyboardInterrupt


def reset():
    signal.signal(signal.SIGINT, signal.default_int_handler)
    if gmsh.isInitialized():
        gmsh.finalize()


class Sim:
    def __init__(self, out):
        self.out = out
        self.harmful = False

    def step(self, st):
        out = self.out
        op = st["op"]
        if op == "open":
            if gmsh.isInitialized():
                return
            gmsh.initialize(interruptible=st.get("interruptible", True))
            gmsh.option.setNumber("General.Terminal", 0)
            for m in st["models"]:
                gmsh.model.add(m["name"])
                eng = gmsh.model.occ if m["occ"] else gmsh.model.geo
                s = m["size"]
                p = [eng.addPoint(x * s, y * s, 0.0, s / 2) for x, y in ((0, 0), (1, 0), (1, 1), (0, 1))]
                ls = [eng.addLine(p[i], p[(i + 1) % 4]) for i in range(4)]
                eng.addPlaneSurface([eng.addCurveLoop(ls)])
                eng.synchronize()
                if m.get("group"):
                    gmsh.model.addPhysicalGroup(1, ls[:2], name="side")
                    gmsh.model.mesh.field.add("MathEval", 3)
                if m["mesh"]:
                    gmsh.model.mesh.generate(2)
            names = list(gmsh.model.list())
            gmsh.model.setCurrent(names[st["current"] % len(names)])
            for k, v in st["options"]:
                self.option(k, v)
            out.count("fault:caller session opened")
        elif op == "option":
            if gmsh.isInitialized():
                self.option(*st["set"])
        elif op == "close":
            if gmsh.isInitialized():
                gmsh.finalize()
            self.harmful = False
        elif op == "sigint":
            h = {"default": signal.default_int_handler, "ignore": signal.SIG_IGN, "custom": _custom_handler}[st["h"]]
            signal.signal(signal.SIGINT, h)
        else:
            self.call(st)

    def option(self, k, v):
        gmsh.option.setNumber(k, v)
        if [k, v] in [list(x) for x in HARMFUL]:
            self.harmful = True

    def call(self, st):
        out, fault = self.out, st.get("fault")
        name = st["call"]["f"]
        k = None
        want, ref = ask({"call": st["call"]})
        if want in ("harness", "crash"):
            raise RuntimeError(f"fresh process: {want} {ref}")
        only = {"gmsh"} if fault and fault["gmsh"] else None
        before = engine_state()
        if fault is not None:
            # dry run: number of fault points; a call like any other
            with Injector(None, only=only) as inj:
                _try(Call(st["call"], {}).run)
            d = diff(before, engine_state(), exact=True)
            if d:
                out.fail(f"engine:{name}", f"{name} left the engine changed: {d}")
                return
            k = int(fault["u"] * inj.n) if inj.n else None
        session = before["initialized"]
        with Injector(k, fault["kind"] if fault else "memory", only=only) as inj:
            got, val = _try(Call(st["call"], {}).run)
        out.event(name, got, inj.fired[0] if inj.fired else None, inj.fired[2] if inj.fired else None)
        at = f"{got}, fault in {inj.fired[0]} line {inj.fired[1]} calling {inj.fired[2]}" if inj.fired else f"{got}"
        if inj.fired:
            out.count(f"fault:{fault['kind']}" + (" within the caller's session" if session else ""))
        d = diff(before, engine_state(), exact=True)
        if d:
            out.fail(f"engine:{name}", f"{name} ({at}) left the engine changed: {d}")
            return
        out.nontrivial = True
        out.sig(name, got, inj.fired[:2] if inj.fired else None, session, self.harmful)
        if inj.fired:
            return
        if self.harmful:
            return
        if got != want:
            out.fail(f"outcome:{name}", f"{name} -> {got} ({val!r:.200}), in a fresh process -> {want} ({ref if isinstance(ref, str) else ''})")
            return
        if got == "ok":
            pic = fp(val)
            d = diff(ref, pic)
            out.event(digest(pic))
            out.count("probe:mesh compared with a fresh process")
            if d:
                out.fail(f"mesh:{name}", f"{name} differs from the same call in a fresh process: {d}")
        else:
            out.count("probe:rejected call")


def execute(sc):
    out = Outcome()
    reset()
    sim = Sim(out)
    try:
        for st in sc["steps"]:
            out.count("steps")
            sim.step(st)
            if out.violation:
                break
    finally:
        reset()
    return out


def shrinks(sc):
    yield from generic_shrinks(sc)
    for i, st in enumerate(sc["steps"]):
        for key in ("models", "options"):
            for j in range(len(st.get(key, []))):
                new = {**st, key: st[key][:j] + st[key][j + 1:]}
                yield {**sc, "steps": sc["steps"][:i] + [new] + sc["steps"][i + 1:]}
        if st["op"] == "call":
            for k in list(st["call"]["kw"]):
                if k in ("holes", "cellsize", "algorithm", "optimization", "engine"):
                    kw = {a: b for a, b in st["call"]["kw"].items() if a != k}
                    new = {**st, "call": {**st["call"], "kw": kw}}
                    yield {**sc, "steps": sc["steps"][:i] + [new] + sc["steps"][i + 1:]}
