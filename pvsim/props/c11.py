from .. import model, msim
from ..msim import shrinks  # noqa: F401

ID = "C11"


def gen(rng, index, tier):
    return msim.gen(rng, ["MeshStack2D", "MeshStack3D", "MeshStack3D"], tweak)


def tweak(rng, spec):
    if rng.random() < 0.15:
        spec["_lift"] = rng.choice([-1.0, 1.0]) * 2048.0  # far from the origin


def ready(spec, accepted, args=None):
    return sum(op["op"] != "set_transition" for op in accepted) >= 2


def check(spec, accepted, args, mesh):
    return model.compare(mesh, model.stack(spec, accepted), "StackItem", args.get("invert_polyhedron_faces", True))


def execute(sc):
    return msim.execute(sc, check, ready)
