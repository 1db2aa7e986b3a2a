"""MeshMerge: every cell of every item once, under its right group."""
from .. import msim
from ..geo import cells, unstructured
from ..model import TOL, assign, groups_of, own_groups
from ..msim import shrinks  # noqa: F401
from ..recipes import make_mesh
from ..world import np

ID = "C13"


def gen(rng, index, tier):
    return msim.gen(rng, ["MeshMerge"])


def ready(spec, accepted, args=None):
    return len(accepted) >= 1


def check(spec, accepted, args, mesh):
    init = spec["init"]
    want = {}
    for op in accepted:
        m = make_mesh(op["a"]["mesh"])
        default = op["a"].get("group") or init.get("default_group") or "default"
        names = assign(own_groups(m), m.n_cells, None, init.get("ignore_groups") or [], default)
        g = unstructured(m)
        common = {(k, m.cell_data[k].ndim) for k in m.cell_data.keys()}
        for (t, p), tag, name in zip(cells(g), np.array(m.cell_data["Tag"]), names):
            # the same item may have been added twice
            i = int(tag) - int(m.cell_data["Tag"][0])
            want[int(tag)] = (t, p, name, {k: np.array(m.cell_data[k][i]) for k in m.cell_data.keys() if k != "CellGroup"}, want.get(int(tag), (0,))[-1] + 1)
        first = op is accepted[0]
        shared = common if first else shared & common
    names, msg = groups_of(mesh)
    if msg:
        return msg
    if "Tag" not in mesh.cell_data:
        return "the data of the items are lost"
    seen = {}
    used = set()
    for i, ((t, p), tag) in enumerate(zip(cells(mesh), np.array(mesh.cell_data["Tag"]))):
        tag = int(tag)
        if tag not in want:
            return f"cell {i} is not a cell of an item"
        wt, wp, name, values, n = want[tag]
        seen[tag] = seen.get(tag, 0) + 1
        if seen[tag] > n:
            return f"cell {i} (no. {tag % 1000} of item {tag // 1000}) appears {seen[tag]} times"
        where = f"cell no. {tag % 1000} of item {tag // 1000}"
        if t != wt:
            return f"{where}: type {t} instead of {wt}"
        if len(p) != len(wp) or np.abs(p - wp).max() > TOL:
            # a polyhedron may list its points in another order
            if t != 42 or len(p) != len(wp) or np.abs(np.array(sorted(map(tuple, np.round(p, 5)))) - np.array(sorted(map(tuple, np.round(wp, 5))))).max() > TOL:
                return f"{where}: points {np.round(p, 4).tolist()} instead of {np.round(wp, 4).tolist()}"
        if names[i] != name:
            return f"{where}: group {names[i]} instead of {name}"
        for k, _ in sorted(shared):
            if k in values and k in mesh.cell_data and not np.allclose(mesh.cell_data[k][i], values[k]):
                return f"{where}: {k} is {mesh.cell_data[k][i]} instead of {values[k]}"
        c = mesh.GetCell(i)
        used.update(c.GetPointId(j) for j in range(c.GetNumberOfPoints()))
    left = sorted(k for k, v in want.items() if seen.get(k, 0) < v[-1])
    if left:
        return f"{len(left)} cells are missing, e.g. no. {left[0] % 1000} of item {left[0] // 1000}"
    pts = np.array(mesh.points, dtype=float)
    if len(used) != len(pts):
        return f"{len(pts) - len(used)} points belong to no cell"
    q = pts[np.lexsort(np.round(pts, 9).T)]
    close = np.abs(np.diff(q, axis=0)).max(axis=1) < 1e-10 if len(q) > 1 else np.array([])
    if close.any():
        return f"{int(close.sum())} points are duplicated, e.g. {q[int(np.flatnonzero(close)[0])].tolist()}"
    for name, _ in shared:
        if name not in mesh.cell_data:
            return f"cell data {name}, that all items have, is lost"
    return None


def execute(sc):
    return msim.execute(sc, check, ready)
