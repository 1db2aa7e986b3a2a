"""Results do not depend on the enumeration order of the engines."""
from .. import order
from ..bsim import _try
from ..builders import clean_spec, gen_builder, gen_generate, gen_ops
from ..core import Outcome, generic_shrinks
from ..fp import diff, fp
from ..geo import area, cells, match_sets, mesh_diff, region_diff, same_cell
from ..ops import Call
from ..recipes import dy, gen_groups, gen_line_pts, gen_surface, gen_volume, realize
from ..world import np, pv

ID = "C09"


# ------------------------------------------------------------------ generation
def g_average(rng):
    """Points in clusters; faces or a cloud."""
    centers = [[dy(rng, 0, 6) * 1.0, dy(rng, 0, 6) * 1.0, 0.0] for _ in range(rng.randint(3, 6))]
    tol = 0.1
    pts = []
    for c in centers:
        k = rng.choice([1, 1, 2, 3, 4, 6])
        chain = rng.random() < 0.4
        for i in range(k):
            off = [0.08 * i, 0.0] if chain else [rng.uniform(-0.03, 0.03), rng.uniform(-0.03, 0.03)]
            pts.append([round(c[0] + off[0], 5), round(c[1] + off[1], 5), 0.0])
    rng.shuffle(pts)
    n = len(pts)
    mesh = {"$": "mesh", "k": "cloud", "p": pts}
    if rng.random() < 0.75 and n >= 4:
        mesh = {"$": "mesh", "k": "faces", "p": pts, "f": [rng.sample(range(n), rng.randint(3, min(n, 5))) for _ in range(rng.randint(1, 5))]}
    return {"f": "average_points", "kw": {"mesh": mesh, "tolerance": tol}}


def g_ray(rng):
    mesh, a, b = _mesh_and_ray(rng)
    kw = {"mesh": mesh, "pointa": a, "pointb": b}
    if rng.random() < 0.2:
        kw["max_angle"] = 60.0
    return {"f": "ray_cast", "kw": kw}


def _mesh_and_ray(rng):
    if rng.random() < 0.6:
        mesh = gen_surface(rng, kinds=("rect", "image", "ugrid2"), plane="xy", ghost=False)
        mesh.pop("o", None)
        w, h = (mesh["n"][0] * mesh["d"][0], mesh["n"][1] * mesh["d"][1])
        a = [-0.7, rng.uniform(0.05, 0.95) * h, 0.0]
        b = [w + 0.6, rng.uniform(0.05, 0.95) * h, 0.0]
    else:
        mesh = gen_volume(rng, kinds=("vol", "ugrid3", "image3"), ghost=False)
        mesh.pop("jit", None)
        if mesh.get("style") in ("mix", "polyhedron", "tet"):
            mesh["style"] = "hex"
        n = mesh["n"]
        a = [-0.7, rng.uniform(0.05, 0.95) * n[1], rng.uniform(0.05, 0.95) * n[2]]
        b = [n[0] + 0.6, rng.uniform(0.05, 0.95) * n[1], rng.uniform(0.05, 0.95) * n[2]]
    a, b = [round(x, 5) for x in a], [round(x, 5) for x in b]
    return mesh, a, b


def g_poly(rng):
    mesh, a, b = _mesh_and_ray(rng)
    pts = [a]
    for i in range(rng.randint(0, 2)):
        t = (i + 1) / 3 + rng.uniform(-0.1, 0.1)
        pts.append([round(a[j] + (b[j] - a[j]) * t + (rng.uniform(-0.2, 0.2) if j == 1 else 0.0), 5) for j in range(3)])
    pts.append(b)
    line = {"$": "mesh", "k": "line", "p": pts, "poly": rng.random() < 0.5}
    kw = {"mesh": mesh, "line": line}
    if rng.random() < 0.3:
        kw["ignore_points_before_entry"] = True
    if rng.random() < 0.3:
        kw["ignore_points_after_exit"] = True
    return {"f": "intersect_polyline", "kw": kw}


HOLES = [[], [[1, 1, 3, 3]], [[1, 1, 2, 2], [3, 3, 4, 4]], [[1, 1, 2, 2], [3, 1, 5, 2]], [[1, 1, 6, 6]], [[1, 1, 2, 5], [3, 1, 6, 6]]]


def g_boundary(rng):
    holes = rng.choice(HOLES)
    m = {"$": "mesh", "k": "frame", "n": 7, "holes": holes}
    if [1, 1, 6, 6] in holes or [3, 1, 6, 6] in holes:
        m["islands"] = rng.choice([[[3, 3, 5, 5]], [[4, 2, 5, 3], [4, 4, 5, 5]]])
    kw = {"mesh": m}
    if rng.random() < 0.7:
        kw["with_holes"] = True
    if rng.random() < 0.3:
        kw["fill"] = True
    return {"f": "extract_boundary_polygons", "kw": kw}


def g_fuse(rng):
    n = [rng.randint(2, 4), rng.randint(2, 4)]
    m = gen_surface(rng, kinds=("rect", "ugrid2"), plane=rng.choice(["xy", "xz"]), ghost=False)
    m["n"] = n
    m["style"] = "quad"
    m.pop("pdata", None)
    w = rng.randint(1, n[0])
    h = rng.randint(1, n[1])
    if w * h == 1:
        w = 2
    i0, j0 = rng.randint(0, n[0] - w), rng.randint(0, n[1] - h)
    ids = [i + j * n[0] for j in range(j0, j0 + h) for i in range(i0, i0 + w)]
    if rng.random() < 0.5:
        rng.shuffle(ids)
    return {"f": "fuse_cells", "kw": {"mesh": m, "ind": ids}}


def g_voronoi(rng):
    while True:
        spec = gen_builder(rng)
        if spec["cls"] == "VoronoiMesh2D":
            break
    ops = gen_ops(rng, spec, rng.randint(0, 4))
    return {"f": "history", "kw": {"spec": clean_spec(spec), "ops": [{k: op[k] for k in ("op", "a")} for op in ops] + [gen_generate(rng, spec)]}}


GENS = [g_average, g_ray, g_poly, g_boundary, g_fuse, g_voronoi, g_voronoi]


def gen(rng, index, tier):
    call = rng.choice(GENS)(rng)
    return {"call": call, "orders": [rng.randrange(10**6) for _ in range(3)], "steps": []}


# ------------------------------------------------------------------ comparison
def is_mesh(x):
    return isinstance(x, pv.DataSet)


def compare(name, a, b):
    if name == "extract_boundary_polygons":
        if a is None or b is None:
            return None if a is b else "None"
        return match_sets(a, b, same_polygon)
    if name == "VoronoiMesh2D":
        return region_diff(a, b)
    if is_mesh(a) and is_mesh(b):
        return mesh_diff(a, b)
    return diff(fp(a), fp(b))


def same_polygon(x, y):
    if isinstance(x, list) != isinstance(y, list):
        return False
    if isinstance(x, list):
        if not x or not y:
            return x == y
        # the shell, then its holes in any order
        return len(x) == len(y) and same_polygon(x[0], y[0]) and match_sets(x[1:], y[1:], same_polygon) is None
    if isinstance(x, pv.UnstructuredGrid):
        # triangulated by Gmsh from another starting point
        return np.allclose(x.bounds, y.bounds, atol=1e-6) and abs(area(x) - area(y)) < 1e-6
    return match_sets(cells(x), cells(y), same_cell) is None


def execute(sc):
    out = Outcome()
    name = sc["call"]["f"] if sc["call"]["f"] != "history" else "VoronoiMesh2D"
    want, ref = _try(Call(sc["call"], {}).run)
    out.event(name, want)
    out.count("steps")
    for seed in sc["orders"]:
        order.COUNTS.clear()
        with order.active(seed):
            got, val = _try(Call(sc["call"], {}).run)
        out.count("steps")
        for k, n in order.COUNTS.items():
            out.count(f"fault:{k} reordered", n)
        out.event(seed, got, sorted(order.COUNTS.items()))
        out.sig(name, got, seed if order.COUNTS else None)
        if order.COUNTS:
            out.nontrivial = True
        if got != want:
            out.fail(f"outcome:{name}", f"{name} -> {want} ({ref!r:.200}), with another enumeration order -> {got} ({val!r:.200})")
            break
        if got == "ok":
            d = compare(name, ref, val)
            if d:
                out.fail(f"result:{name}", f"{name} depends on the enumeration order ({dict(order.COUNTS)}): {d}")
                break
        else:
            out.count("probe:call raises in any order")
    return out


def shrinks(sc):
    yield from generic_shrinks(sc, keys=("orders",))
    if sc["call"]["f"] == "history":
        ops = sc["call"]["kw"]["ops"]
        for j in range(len(ops) - 1):
            yield {**sc, "call": {**sc["call"], "kw": {**sc["call"]["kw"], "ops": ops[:j] + ops[j + 1:]}}}


__all__ = ["gen", "execute", "gen_groups", "gen_line_pts", "realize"]
