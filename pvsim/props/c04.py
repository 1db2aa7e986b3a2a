from ..bsim import execute  # noqa: F401
from ..bsim import gen as _gen

ID = "C04"


def gen(rng, index, tier):
    return _gen(rng, "aliasing")
