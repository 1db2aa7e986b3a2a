"""Executable reference models of the stacking, extrusion and merging builders."""
import math

from .msim import Ambiguous
from .recipes import make_mesh, realize
from .world import np, pv

TOL = 1e-5


# ------------------------------------------------------------------ shared parts
def subdivisions(resolution, method):
    """Relative positions of the subdivisions."""
    if resolution is None:
        resolution = 1
    if isinstance(resolution, int):
        n = max(1, resolution)
        if method in (None, "constant"):
            return [i / n for i in range(n + 1)]
        big_first = [math.log10(1.0 + 9.0 * i / n) for i in range(n + 1)]
        return big_first if method == "log_r" else [1.0 - x for x in reversed(big_first)]
    return sorted(float(x) for x in resolution)


def own_groups(mesh):
    """Group name of each cell, or None."""
    if "CellGroup" not in mesh.cell_data or "CellGroup" not in mesh.user_dict:
        return None
    inv = {int(v): k for k, v in dict(mesh.user_dict["CellGroup"]).items()}
    return [inv.get(int(x)) for x in mesh.cell_data["CellGroup"]]


def assign(own, n, mapping, ignored, default):
    """Group name of each cell of the base mesh for an item."""
    names = [None] * n
    if own is not None:
        names = [None if x in ignored else x for x in own]
    if isinstance(mapping, str):
        names = [mapping] * n
    elif mapping:
        for k, v in mapping.items():
            sel = [False] * n
            if isinstance(v, dict):  # recipe
                v = v["ids"] if v["$"] == "gfn" else v["v"]
            if isinstance(v, str):
                v = [v]
            if v and all(isinstance(x, str) for x in v):
                for x in v:
                    for i in range(n):
                        sel[i] |= (own[i] != x[1:]) if x.startswith("~") else (own[i] == x)
            elif v and all(isinstance(x, bool) for x in v):
                sel = list(v)
            else:
                for i in v:
                    if i < n:
                        sel[i] = True
            if k.startswith("~"):
                k, sel = k[1:], [not x for x in sel]
            names = [k if s else x for s, x in zip(sel, names)]
    return [default if x is None else x for x in names]


class Base:
    """Points, cells and data of a base mesh."""

    def __init__(self, mesh):
        self.points = np.array(mesh.points, dtype=float)
        self.rings, self.types = [], []
        for i in range(mesh.n_cells):
            c = mesh.GetCell(i)
            ids = [c.GetPointId(j) for j in range(c.GetNumberOfPoints())]
            t = int(c.GetCellType())
            if t == 8:
                ids = [ids[0], ids[1], ids[3], ids[2]]
            self.rings.append(ids)
            self.types.append({5: 13, 7: 42, 8: 12, 9: 12, 3: 9}[t])
        if isinstance(mesh, pv.StructuredGrid):
            self.types = [12] * len(self.rings)
        self.own = own_groups(mesh)
        self.data = {k: np.array(mesh.cell_data[k]) for k in mesh.cell_data.keys() if k not in ("CellGroup", "vtkGhostType")}
        self.pdata = {k: np.array(mesh.point_data[k]) for k in mesh.point_data.keys()}

    @property
    def n(self):
        return len(self.rings)


def base_line(mesh):
    """A line given as a polyline."""
    b = Base.__new__(Base)
    b.points = np.array(mesh.points, dtype=float)
    n = len(b.points)
    b.rings = [[i, i + 1] for i in range(n - 1)]
    b.types = [9] * (n - 1)
    b.own = None
    b.data = {k: np.repeat(np.array(mesh.cell_data[k]), n - 1, axis=0) for k in mesh.cell_data.keys()}
    b.pdata = {k: np.array(mesh.point_data[k]) for k in mesh.point_data.keys()}
    return b


def resample(points, n):
    """Line through the same points with n segments of equal length."""
    lengths = [np.linalg.norm(q - p) for p, q in zip(points[:-1], points[1:])]
    out, total = [], sum(lengths)
    for k in range(n + 1):
        d, i = total * k / n, 0
        while i < len(lengths) - 1 and d > lengths[i]:
            d -= lengths[i]
            i += 1
        out.append(points[i] + (points[i + 1] - points[i]) * min(1.0, d / lengths[i]))
    return pv.PolyData(np.array(out), lines=[n + 1, *range(n + 1)])


class Expected:
    """Cells expected, by (item, layer, column)."""

    def __init__(self):
        self.cells = {}
        self.areas = {}  # item -> (layer, area, group)


def pile(exp, i, layer, base, lower, upper, perc, names):
    """Cells between two sections."""
    for k, (a, b) in enumerate(zip(perc[:-1], perc[1:])):
        lo, hi = lower + a * (upper - lower), lower + b * (upper - lower)
        for col, ids in enumerate(base.rings):
            exp.cells[i, layer + k, col] = {
                "lo": lo[ids], "hi": hi[ids], "type": base.types[col], "group": names[col],
                "straight": untwisted(lower[ids], upper[ids]), "gap": float(np.abs(upper[ids] - lower[ids]).max()), "data": {d: v[col] for d, v in base.data.items()},
                "pdata": {d: v[ids] for d, v in base.pdata.items()},
            }
    return layer + len(perc) - 1


# ------------------------------------------------------------------ stacks
def stack(spec, accepted):
    init = spec["init"]
    axis, up = init.get("axis", 2), init.get("bottom_up", True)
    sgn = 1.0 if up else -1.0
    if spec["cls"] == "MeshStack2D":
        m = init["mesh"]
        if isinstance(m, dict) and m.get("$") == "mesh":
            base = base_line(make_mesh(m))
        else:
            v = realize(m)
            p = np.zeros((len(v), 3))
            p[:, (axis + 1) % 3] = v
            base = base_line(pv.PolyData(p, lines=[len(p), *range(len(p))]))
    else:
        m = make_mesh(init["mesh"])
        base = Base(m.cast_to_structured_grid() if isinstance(m, (pv.ImageData, pv.RectilinearGrid)) else m)
    default = init.get("default_group") or "default"
    ignored = init.get("ignore_groups") or []

    items, flag = [], False
    for op in accepted:
        a = op["a"]
        if op["op"] == "set_transition":
            base, flag = base_line(make_mesh(a["mesh_or_resolution"]) if isinstance(a["mesh_or_resolution"], dict) else resample(base.points, a["mesh_or_resolution"])), True
            continue
        p = np.array(base.points)
        at = base
        if op["op"] == "add_plane":
            p[:, axis] = plane(p, realize(a["angles"]), realize(a["point"]), axis)
        elif "surf" in op and not isinstance(a["arg"], (int, float)):
            p[:, axis] = surface(p, op, axis)
        elif isinstance(a["arg"], dict) and a["arg"]["$"] == "fn":
            p[:, axis] = realize(a["arg"])(*p.T)
        elif items:
            p, at = np.array(items[-1]["p"]), items[-1]["base"]
            p[:, axis] += sgn * abs(a["arg"])
        else:
            p[:, axis] = a["arg"]
        items.append({"p": p, "base": at, "a": a, "transition": flag and bool(items)})
        flag = False

    # crossing surfaces: the one of lower priority gives way (the former if equal)
    for x, y in zip(items[:-1], items[1:]):
        if y["transition"]:
            continue
        t = y["a"].get("thickness", 0.0)
        bad = sgn * (y["p"][:, axis] - x["p"][:, axis]) < t
        if y["a"].get("priority", 0) < x["a"].get("priority", 0):
            y["p"][bad, axis] = x["p"][bad, axis] + sgn * t
        else:
            x["p"][bad, axis] = y["p"][bad, axis] - sgn * t

    exp, layer = Expected(), 0
    for i, (x, y) in enumerate(zip(items[:-1], items[1:])):
        if y["transition"]:
            ring = np.vstack((x["p"], y["p"][::-1]))
            g = y["a"].get("group")
            exp.areas[i] = (layer, flat_area(ring), g if g else default)
            layer += 1
            continue
        names = assign(x["base"].own, x["base"].n, y["a"].get("group"), ignored, default)
        layer = pile(exp, i, layer, x["base"], x["p"], y["p"], subdivisions(realize(y["a"].get("resolution")), y["a"].get("method")), names)
    return exp


def plane(p, angles, point, axis):
    """Height of the points of the flat section turned around the two other axes."""
    v = np.radians(np.array(angles, dtype=float))
    v[axis] = 0.0
    q = p - np.asarray(point, dtype=float)
    q[:, axis] = 0.0
    return rotate(q, v, -np.linalg.norm(v))[:, axis] + point[axis]


def rotate(p, v, angle):
    """Rodrigues' formula."""
    n = np.linalg.norm(v)
    if n == 0.0:
        return np.array(p)
    k = np.asarray(v, dtype=float) / n
    return p * math.cos(angle) + np.cross(k, p) * math.sin(angle) + np.outer(p @ k, k) * (1.0 - math.cos(angle))


def surface(p, op, axis):
    """Height of the surface through the points of a dataset."""
    arg = op["a"]["arg"]
    q = np.array(arg["v"] if arg["$"] == "arr" else arg["p"], dtype=float)
    s = op["surf"]
    if s.get("line"):
        u = next(i for i in range(3) if i != axis and np.ptp(q[:, i]) > 0)
        q = q[np.argsort(q[:, u])]
        return np.array([_interp(x, q[:, u], q[:, axis]) for x in p[:, u]])
    u, v = [i for i in range(3) if i != axis]
    x0, x1, y0, y1 = s["rect"]
    out = np.empty(len(p))
    for i, t in enumerate(p):
        if x0 <= t[u] <= x1 and y0 <= t[v] <= y1:
            out[i] = s["coef"][u] * (t[u] - s["x0"][u]) + s["coef"][v] * (t[v] - s["x0"][v]) + s["level"]
        else:
            d = np.hypot(q[:, u] - t[u], q[:, v] - t[v])
            k = np.argsort(d)
            if len(k) > 1 and d[k[1]] - d[k[0]] < 1e-6 and abs(q[k[0], axis] - q[k[1], axis]) > 1e-6:
                raise Ambiguous("equidistant points")
            out[i] = q[k[0], axis]
    return out


def _interp(x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    for a, b, c, d in zip(xs[:-1], xs[1:], ys[:-1], ys[1:]):
        if x <= b:
            return c + (d - c) * (x - a) / (b - a)
    return ys[-1]


def tolerance(p):
    return TOL + 1e-6 * float(np.ptp(p, axis=0).max()) + 1e-12 * float(np.abs(p).max())


def flat_area(ring):
    """Area of a flat polygon, whatever its plane."""
    p = ring - ring[0]
    return 0.5 * float(np.linalg.norm(np.cross(p, np.roll(p, -1, axis=0)).sum(axis=0)))


# ------------------------------------------------------------------ extrusion
def extrusion(spec, accepted):
    init = spec["init"]
    m = make_mesh(init["mesh"])
    base = Base(m.cast_to_structured_grid() if isinstance(m, (pv.ImageData, pv.RectilinearGrid)) else m)
    default = init.get("default_group") or "default"
    ignored = init.get("ignore_groups") or []
    exp, layer, p = Expected(), 0, np.array(base.points)
    for i, op in enumerate(accepted):
        a = op["a"]
        vec = np.array(realize(a["vector"]), dtype=float)
        q = p + vec
        scale = a.get("scale", init.get("scale"))
        angle = a.get("angle", init.get("angle"))
        if scale is not None:
            c = middle(q)
            q = c + scale * (q - c)
        if angle is not None:
            c = middle(q)
            q = c + rotate(q - c, vec, math.radians(angle))
        names = assign(base.own, base.n, a.get("group"), ignored, default)
        layer = pile(exp, i, layer, base, p, q, subdivisions(realize(a.get("resolution")), a.get("method")), names)
        p = q
    return exp


def middle(p):
    return 0.5 * (p.min(axis=0) + p.max(axis=0))


# ------------------------------------------------------------------ comparison
def groups_of(mesh):
    """(names of the cells, message)."""
    if "CellGroup" not in mesh.cell_data or "CellGroup" not in mesh.user_dict:
        return None, "no cell groups"
    d = dict(mesh.user_dict["CellGroup"])
    if len(set(d.values())) != len(d):
        return None, f"group numbers used twice: {d}"
    inv = {int(v): k for k, v in d.items()}
    nums = [int(x) for x in mesh.cell_data["CellGroup"]]
    if set(nums) - set(inv):
        return None, f"cells with an unknown group number {sorted(set(nums) - set(inv))}: {d}"
    unused = sorted(k for k, v in d.items() if int(v) not in set(nums))
    if unused:
        return None, f"unused groups listed: {unused}"
    return [inv[x] for x in nums], None


def compare(mesh, exp, item_key, outward=True):
    """First difference between a mesh and the cells expected, or None."""
    for k in ("ColumnId", "LayerId", item_key):
        if k not in mesh.cell_data:
            return f"no {k}"
    names, msg = groups_of(mesh)
    if msg:
        return msg
    ids = [tuple(int(mesh.cell_data[k][i]) for k in (item_key, "LayerId", "ColumnId")) for i in range(mesh.n_cells)]
    ghost = np.array(mesh.cell_data["vtkGhostType"]) if "vtkGhostType" in mesh.cell_data else np.zeros(mesh.n_cells, dtype=int)
    mesh = mesh.copy(deep=False)
    mesh.cell_data.pop("vtkGhostType", None)  # VTK hides such cells
    pts = np.array(mesh.points, dtype=float)
    seen, area = set(), {}
    items = {k[0] for k in exp.cells}
    for i, key in enumerate(ids):
        if key[0] in exp.areas:
            layer, _, g = exp.areas[key[0]]
            if key[1:] != (layer, -1):
                return f"cell {i} of transition item {key[0]}: layer {key[1]} and column {key[2]} instead of {layer} and -1"
            if names[i] != g:
                return f"cell {i} of transition item {key[0]}: group {names[i]} instead of {g}"
            c = mesh.GetCell(i)
            ring = pts[[c.GetPointId(j) for j in range(c.GetNumberOfPoints())]]
            area[key[0]] = area.get(key[0], 0.0) + flat_area(ring)
            continue
        e = exp.cells.get(key)
        where = f"cell {i} (item {key[0]}, layer {key[1]}, column {key[2]})"
        if e is None:
            return f"{where} is not expected"
        if key in seen:
            return f"{where} appears twice"
        seen.add(key)
        if exp.areas and e["gap"] == 0.0 and mesh.GetCellType(i) == 0:
            # VTK empties the hidden cells of a structured grid it converts
            if names[i] != e["group"]:
                return f"{where}: group {names[i]} instead of {e['group']}"
            continue
        e["joined"] = len(items) > 1
        msg = compare_cell(mesh, pts, i, e, outward) or (not exp.areas and compare_data(mesh, i, e))
        if msg:
            return f"{where}: {msg}"
        if names[i] != e["group"]:
            return f"{where}: group {names[i]} instead of {e['group']}"
        thick = float(np.abs(e["hi"] - e["lo"]).max())
        if e["gap"] == 0.0 and ghost[i] != 32:
            return f"{where}: collapsed but not a ghost cell"
        if thick > 1e-5 and ghost[i] != 0:
            return f"{where}: ghost cell ({ghost[i]}) though it is up to {thick:.4g} thick"
    left = sorted(set(exp.cells) - seen)
    if left:
        return f"{len(left)} cells missing, e.g. item {left[0][0]}, layer {left[0][1]}, column {left[0][2]}"
    for k, (_, a, _) in exp.areas.items():
        if abs(area.get(k, 0.0) - a) > 1e-3 * max(1.0, a):
            return f"transition item {k}: area {area.get(k, 0.0):.5g} instead of {a:.5g}"
    return None


def compare_cell(mesh, pts, i, e, outward):
    c = mesh.GetCell(i)
    t = int(c.GetCellType())
    if t == 8:
        t = 9
    if t == 11:
        r = pts[[c.GetPointId(j) for j in range(8)]]
        if np.minimum(np.abs(r - r.min(axis=0)), np.abs(r - r.max(axis=0))).max() > 1e-6:
            return "a voxel that is not a box"
        t = 12
    if t != e["type"]:
        return f"type {t} instead of {e['type']}"
    ids = [c.GetPointId(j) for j in range(c.GetNumberOfPoints())]
    have, want = pts[ids], np.vstack((e["lo"], e["hi"]))
    tol = tolerance(want)
    d = np.abs(have[:, None] - want[None]).max(axis=2)
    if d.min(axis=0).max() > tol or d.min(axis=1).max() > tol:
        return f"points {np.round(have, 4).tolist()} instead of {np.round(want, 4).tolist()}"
    # same wireframe: vertices that coincide are one
    n = len(e["lo"])
    dw = np.abs(want[:, None] - want[None]).max(axis=2) <= 2 * tol
    rep = [int(np.flatnonzero(r)[0]) for r in dw]
    near = {p: rep[int(k)] for p, k in zip(ids, d.argmin(axis=1))}
    if n == 2:
        edges = [(0, 1), (2, 3), (0, 2), (1, 3)]
    else:
        edges = [(j, (j + 1) % n) for j in range(n)] + [(n + j, n + (j + 1) % n) for j in range(n)] + [(j, n + j) for j in range(n)]
    we = {frozenset((rep[a], rep[b])) for a, b in edges} - {frozenset([r]) for r in rep}
    he = set()
    for k in range(c.GetNumberOfEdges()):
        q = c.GetEdge(k)
        he.add(frozenset((near[q.GetPointId(0)], near[q.GetPointId(1)])))
    he -= {frozenset([r]) for r in rep}
    if he != we:
        return f"edges {sorted(map(sorted, he))} instead of {sorted(map(sorted, we))} of {np.round(want, 4).tolist()}"
    if t == 42 and outward and float(np.abs(e["hi"] - e["lo"]).max(axis=1).min()) > 1e-2 and e["straight"]:
        m = want.mean(axis=0)
        for k in range(c.GetNumberOfFaces()):
            f = c.GetFace(k)
            r = pts[[f.GetPointId(j) for j in range(f.GetNumberOfPoints())]]
            o = r.mean(axis=0)
            nrm = sum(np.cross(r[j] - o, r[(j + 1) % len(r)] - o) for j in range(len(r)))
            if np.linalg.norm(nrm) > 1e-2 and nrm @ (o - m) < -1e-3:
                return f"face {k} points inwards"
    return None


def untwisted(lo, hi):
    a, b = (np.roll(p, -1, axis=0) - p for p in (lo, hi))
    cos = (a * b).sum(axis=1) / np.maximum(1e-12, np.linalg.norm(a, axis=1) * np.linalg.norm(b, axis=1))
    up = hi - lo
    m = up.mean(axis=0)
    upright = (up @ m / np.maximum(1e-12, np.linalg.norm(up, axis=1) * np.linalg.norm(m))).min() > 0.99999
    # side faces are plane: nothing but outward or inward
    return bool((cos.min() > 0.99999 or upright) and (up @ m).min() > 1e-4)


def compare_data(mesh, i, e):
    for k, v in e["data"].items():
        if k not in mesh.cell_data or np.abs(np.asarray(mesh.cell_data[k][i], dtype=float) - v).max() > 1e-9:
            return f"{k} = {mesh.cell_data[k][i] if k in mesh.cell_data else None} instead of {v}"
    if not e["pdata"]:
        return None
    want = np.vstack((e["lo"], e["hi"]))
    tol = tolerance(want)
    n = len(e["lo"])
    for r in (e["lo"], e["hi"]):
        d = np.abs(r[:, None] - r[None]).max(axis=2) + 10.0 * np.eye(n)
        if d.min() <= 4 * tol:
            return None  # points of several columns in one place
    c = mesh.GetCell(i)
    for j in range(c.GetNumberOfPoints()):
        p = c.GetPointId(j)
        near = np.flatnonzero(np.abs(want - mesh.points[p]).max(axis=1) <= tol)
        for k, v in e["pdata"].items():
            if k not in mesh.point_data and isinstance(mesh, pv.StructuredGrid) and e["joined"]:
                continue  # the merge of structured grids keeps data of cells only
            have = np.asarray(mesh.point_data[k][p], dtype=float) if k in mesh.point_data else None
            if have is None or not any(np.abs(have - v[m % n]).max() <= 1e-6 for m in near):
                return f"{k} = {have} at point {p} instead of {v[near[0] % n]}"
    return None
