from .. import model, msim
from ..msim import shrinks  # noqa: F401

ID = "C12"


def gen(rng, index, tier):
    return msim.gen(rng, ["MeshExtrude"])


def ready(spec, accepted, args=None):
    return len(accepted) >= 1


def check(spec, accepted, args, mesh):
    return model.compare(mesh, model.extrusion(spec, accepted), "ExtrudeItem", args.get("invert_polyhedron_faces", True))


def execute(sc):
    return msim.execute(sc, check, ready)
