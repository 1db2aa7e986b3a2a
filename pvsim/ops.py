"""Calls of the public functions of the package, on a pool of shared inputs."""
from .builders import apply_op, clean_spec, gen_builder, gen_generate, gen_ops, new_builder
from .recipes import NAMES, dy, gen_groups, gen_line_pts, gen_lines, gen_polygon_pts, gen_surface, gen_volume, make_mesh, realize
from .world import np, pvg

SURF = ("rect", "image", "rectilinear", "ugrid2", "poly2")


def gen_pool(rng):
    pool = {
        "s": gen_surface(rng, kinds=("rect", "image", "rectilinear", "ugrid2", "poly2")),
        "g": gen_surface(rng, kinds=("rect", "ugrid2"), plane="xy"),
        "v": gen_volume(rng, nmax=2),
        "l": gen_lines(rng),
        "w": {"$": "mesh", "k": "polygon", "p": gen_polygon_pts(rng, rng.randint(5, 8), z=True)},
        "q": gen_surface(rng, kinds=("poly2",), plane="xy", ghost=False),
        "c": {"$": "mesh", "k": "cloud", "p": [[dy(rng, 0, 2), dy(rng, 0, 2), 0.0] for _ in range(rng.randint(3, 6))]},
        "f": {"$": "mesh", "k": "frame", "n": 5, "holes": rng.choice([[], [[1, 1, 3, 3]], [[1, 1, 2, 2], [3, 3, 4, 4]]])},
        "m": {"$": "mesh", "k": "mixed", "parts": sorted(rng.sample(range(5), rng.randint(1, 5)))},
    }
    # a line that crosses the surface "g", as arrays too
    pool["x"] = {"$": "mesh", "k": "lines", "p": [[[-1.0, 0.3 + dy(rng, 0, 0.2, 64), 0.0], [9.0, 0.31 + dy(rng, 0, 0.2, 64), 0.0]]], "data": [["age", 1]]}
    pool["pts"] = {"$": "arr", "v": gen_polygon_pts(rng, rng.randint(5, 8), z=True)}
    pool["path"] = {"$": "arr", "v": gen_line_pts(rng, rng.randint(3, 5))}
    pool["res"] = {"$": "arr", "v": sorted({0.0, 1.0, dy(rng, 0.1, 0.9), dy(rng, 0.1, 0.9)}, reverse=rng.random() < 0.5)}
    pool["ctr"] = {"$": "arr", "v": [dy(rng, -2, 2), dy(rng, -2, 2), dy(rng, -2, 2)]}
    return pool


def R(name):
    return {"$": "ref", "name": name}


def gen_call(rng, pool, gui=False):
    """One call {"f": name, "kw": arguments}; *gui*: also those that open a window."""
    f = rng.choice(FUNCS + ["interactive"] * 2 if gui else FUNCS)
    kw = globals()["_" + f](rng, pool)
    name = kw.pop("_f", f)
    st = {"f": name, "kw": kw}
    if name != "history" and rng.random() < 0.06:
        # an argument of the wrong type or value
        k = rng.choice(sorted(set(kw) - {"plotter"})) if kw else None
        if k is not None:
            kw[k] = rng.choice([None, "nonsense", -3, [], {"$": "arr", "v": [[[1.0]]]}, {"$": "arr", "v": [1.0, 2.0]}])
    return st


def _any(rng, pool, names="sgvlqfm"):
    return R(rng.choice([n for n in names if n in pool]))


def _n_cells(pool, ref):
    return int(make_mesh(pool[ref["name"]]).n_cells)


def _get_neighborhood(rng, pool):
    return {"mesh": _any(rng, pool, "sgvqf"), "remove_ghost_cells": rng.random() < 0.5}


def _get_connectivity(rng, pool):
    m = _any(rng, pool, "sgvqf")
    kw = {"mesh": m, "remove_ghost_cells": rng.random() < 0.5}
    if rng.random() < 0.3:
        n = _n_cells(pool, m)
        kw["cell_centers"] = {"$": "arr", "v": [[i * 0.5, 0.0, 1.0] for i in range(n)]}
    return kw


def _get_cell_centers(rng, pool):
    return {"mesh": _any(rng, pool), "polyhedron_method": rng.choice([None, "box", "geometric", "tetra"])}


def _get_cell_connectivity(rng, pool):
    return {"mesh": _any(rng, pool), "flatten": rng.random() < 0.5}


def _get_cell_group(rng, pool):
    return {"mesh": _any(rng, pool)}


def _get_dimension(rng, pool):
    return {"mesh": _any(rng, pool)}


def _average_points(rng, pool):
    return {"mesh": _any(rng, pool, "qwc"), "tolerance": rng.choice([0.0, 0.1, 0.6])}


def _decimate_rdp(rng, pool):
    return {"mesh": _any(rng, pool, "lx"), "tolerance": rng.choice([1e-8, 0.2])}


def _extract_boundary_polygons(rng, pool):
    m, fill = _any(rng, pool, "gqfwl"), rng.random() < 0.5
    if pool[m["name"]].get("ghost"):
        fill = False  # a hole that touches the outline: Gmsh never ends on it
    return {"mesh": m, "fill": fill, "with_holes": rng.random() < 0.5}


def _extract_cell_geometry(rng, pool):
    return {"mesh": _any(rng, pool, "sgvqf"), "remove_ghost_cells": rng.random() < 0.5}


def _extract_cells(rng, pool):
    m = _any(rng, pool)
    n = _n_cells(pool, m)
    ids = sorted({rng.randrange(n) for _ in range(rng.randint(1, n))})
    kind = rng.random()
    ind = ids if kind < 0.3 else {"$": "arr", "v": ids, "dtype": "int"} if kind < 0.7 else {"$": "arr", "v": [i in ids for i in range(n)], "dtype": "bool"}
    return {"mesh": m, "ind": ind, "invert": rng.random() < 0.2}


def _extract_cells_by_dimension(rng, pool):
    return {"mesh": _any(rng, pool), "ndim": rng.choice([None, 0, 1, 2, 3]), "method": rng.choice(["upper", "lower"]), "keep_empty_cells": rng.random() < 0.3}


def _fuse_cells(rng, pool):
    m = _any(rng, pool, "gqf")
    n = _n_cells(pool, m)
    a = rng.randrange(n)
    ids = sorted({a, min(n - 1, a + 1)})
    return {"mesh": m, "ind": rng.choice([ids, {"$": "arr", "v": ids, "dtype": "int"}, [ids]])}


def _intersect_polyline(rng, pool):
    return {"mesh": _any(rng, pool, "gf"), "line": R("x"), "ignore_points_before_entry": rng.random() < 0.3, "ignore_points_after_exit": rng.random() < 0.3}


def _ray_cast(rng, pool):
    p = [[-1.0, 0.313, 0.0], [9.0, 0.327, 0.0]]
    return {"mesh": _any(rng, pool, "gfq"), "pointa": rng.choice([p[0], {"$": "arr", "v": p[0]}]), "pointb": rng.choice([p[1], {"$": "arr", "v": p[1]}])}


def _merge(rng, pool):
    return {"dataset": [_any(rng, pool, "gvf"), _any(rng, pool, "gvf")], "axis": rng.choice([None, 0, 1, 2]), "merge_points": rng.random() < 0.5}


def _merge_lines(rng, pool):
    return {"lines": [_any(rng, pool, "lx") for _ in range(rng.randint(1, 3))], "as_lines": rng.random() < 0.5}


def _split_lines(rng, pool):
    return {"mesh": _any(rng, pool, "lx"), "as_lines": rng.random() < 0.5}


def _offset_polygon(rng, pool):
    return {"mesh_or_points": rng.choice([R("w"), R("pts")]), "distance": rng.choice([0.1, -0.1, 0.0])}


def _quadraticize(rng, pool):
    return {"mesh": _any(rng, pool, "gf")}


def _reconstruct_line(rng, pool):
    return {"mesh_or_points": rng.choice([R("c"), R("pts"), R("path")]), "start": rng.randrange(3), "close": rng.random() < 0.5}


def _remap_categorical_data(rng, pool):
    cand = [k for k, v in pool.items() if isinstance(v, dict) and v.get("groups")]
    if not cand:
        pool["g"]["groups"] = gen_groups(rng)
        cand = ["g"]
    k = rng.choice(cand)
    names = pool[k]["groups"]["names"]
    mapping = {n: rng.randrange(9) for n in rng.sample(names, rng.randint(1, len(names)))}
    return {"mesh": R(k), "key": "CellGroup", "mapping": mapping}


def _res(rng):
    return rng.choice([None, rng.randint(1, 4), R("res"), R("res")])


def _center(rng, kw):
    if rng.random() < 0.6:
        kw["center"] = R("ctr")
    return kw


def _primitive(rng, pool):
    f = rng.choice(["AnnularSector", "Annulus", "Circle", "CylindricalShell", "CylindricalShellSector", "Rectangle", "RectangleSector", "Sector",
                    "SectorRectangle", "SectorSquare", "Square", "SquareSector", "Quadrilateral"])
    kw = {"_f": f}
    if f in ("Circle", "Sector", "Square"):
        kw["resolution"] = _res(rng)
    elif f in ("Rectangle", "Quadrilateral"):
        kw["x_resolution"] = _res(rng)
        kw["y_resolution"] = _res(rng)
    elif f in ("RectangleSector", "SquareSector"):
        kw["x_resolution"] = rng.choice([None, rng.randint(1, 3)])
        kw["r_resolution"] = _res(rng)
    else:
        kw["r_resolution"] = _res(rng)
        kw["theta_resolution"] = rng.choice([None, rng.randint(2, 4)])
    if f == "Quadrilateral" and rng.random() < 0.6:
        kw["points"] = {"$": "arr", "v": [[0.0, 0.0, 0.0], [2.0, 0.0, 0.0], [2.0, 1.0, 0.0], [0.0, 1.5, 0.0]]}
    return _center(rng, kw)


def _lines(rng, pool):
    f = rng.choice(["CurvedLine", "RegularLine", "StructuredSurface", "Volume"])
    if f == "CurvedLine":
        return {"_f": f, "origin": R("ctr"), "length": 2.0, "start": {"$": "arr", "v": [1.0, 0.0, 0.0]},
                "end": rng.choice([None, {"$": "arr", "v": [1.0, 1.0, 0.0]}]), "resolution": rng.randint(1, 3)}
    if f == "RegularLine":
        return {"_f": f, "points": R("path"), "resolution": rng.choice([None, rng.randint(1, 6)])}
    if f == "StructuredSurface":
        a = {"$": "mesh", "k": "line", "p": [[float(i), 0.0, 0.0] for i in range(4)], "data": [["age", 1]], "pdata": [["head", 1]], "poly": rng.random() < 0.5}
        b = {"$": "mesh", "k": "line", "p": [[float(i), 1.0, 0.5] for i in range(4)], "poly": True}
        return {"_f": f, "line_a": a, "line_b": b, "plane": rng.choice(["xy", "yx", "xz", "zx", "yz", "zy"]), "resolution": _res(rng)}
    m = {**pool["g"], "o": [0.0, 0.0, 2.0]}
    return {"_f": f, "surface_a": R("g"), "surface_b": m, "resolution": _res(rng)}


def _Polygon(rng, pool):
    kw = {"shell": rng.choice([R("w"), R("pts")])}
    if rng.random() < 0.4:
        hole = gen_polygon_pts(rng, n=4, r=0.15, z=True)
        kw["holes"] = [rng.choice([{"$": "arr", "v": hole}, {"$": "mesh", "k": "polygon", "p": hole}])]
    kw["celltype"] = rng.choice(["triangle", "quad", "polygon", None])
    if rng.random() < 0.3:
        kw["cellsize"] = 0.5
    if rng.random() < 0.3:
        kw["engine"] = "occ"
    return kw


def _history(rng, pool):
    """A whole builder history as one call."""
    spec = gen_builder(rng)
    ops = gen_ops(rng, spec, rng.randint(1, 3), bad=0.1)
    for op in ops:
        if op["op"] == "add_circle" and rng.random() < 0.4:
            op["a"]["plain"] = True
    return {"spec": clean_spec(spec), "ops": [{k: op[k] for k in ("op", "a", "bad") if k in op} for op in ops] + [gen_generate(rng, spec)], "_f": "history"}


def _interactive(rng, pool):
    """A window, and a user in front of it."""
    base = _any(rng, pool, "sgvq")
    kw = {"mesh": base, "preference": rng.choice(["cell", "point"]), "scalar_bar_args": {"vertical": rng.random() < 0.5}, "opacity": 0.5}
    if rng.random() < 0.5:
        ev = [{"e": "pick", "i": rng.randrange(12), "mode": kw["preference"]} for _ in range(rng.randint(0, 4))]
        if rng.random() < 0.5:
            kw["view"] = rng.choice(["xy", "-xz", "yz", "nonsense"])
        if rng.random() < 0.3:
            kw["picker"] = rng.choice(["cell", "hardware", "point"])
        kw["parallel_projection"] = rng.random() < 0.5
        kw["_f"] = "interactive_selection"
    else:
        ev = [{"e": "click", "side": "r", "p": [dy(rng, -2, 6), dy(rng, -2, 6), dy(rng, -2, 6)], "array": rng.random() < 0.5} for _ in range(rng.randint(3, 6))]
        kw["view"] = rng.choice(["xy", "-xz", "yz", "zx", "nonsense"])
        kw["return_polygon"] = rng.random() < 0.5
        kw["_f"] = "interactive_lasso_selection"
    kw["plotter"] = {"$": "gui", "base": base, "events": ev}
    return kw


FUNCS = [
    "get_neighborhood", "get_connectivity", "get_cell_centers", "get_cell_connectivity", "get_cell_group", "get_dimension", "average_points",
    "decimate_rdp", "extract_boundary_polygons", "extract_cell_geometry", "extract_cells", "extract_cells", "extract_cells_by_dimension", "fuse_cells", "intersect_polyline",
    "ray_cast", "merge", "merge_lines", "split_lines", "offset_polygon", "quadraticize", "reconstruct_line", "remap_categorical_data",
    "primitive", "primitive", "lines", "lines", "Polygon", "history", "history", "history", "history", "history", "history",
]


class Call:
    """A call with its live arguments."""

    def __init__(self, st, pool):
        self.st = st
        if st["f"] == "history":
            self.init = realize(st["kw"]["spec"]["init"], pool)
            self.args = [realize(op["a"], pool) for op in st["kw"]["ops"]]
            self.live = [self.init, self.args]
        else:
            self.kw = realize(st["kw"], pool)
            self.live = self.kw

    def run(self):
        if self.st["f"] != "history":
            return getattr(pvg, self.st["f"])(**self.kw)
        b = getattr(pvg, self.st["kw"]["spec"]["cls"])(**self.init)
        out = None
        for op, args in zip(self.st["kw"]["ops"], self.args):
            try:
                out = getattr(b, op["op"])(**args)
            except ValueError:
                # a rejected call: the user goes on with the others
                if op["op"] == "generate_mesh":
                    raise
        return out


__all__ = ["gen_pool", "gen_call", "Call", "np", "NAMES", "apply_op", "new_builder"]
