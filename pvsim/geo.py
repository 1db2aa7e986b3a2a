"""Geometric comparison of meshes: cell by cell, whatever the numbering of the points."""
import shapely
from shapely.errors import GEOSException

from .fp import _user_dict, diff
from .world import np, pv

def unstructured(mesh):
    """As an unstructured grid, without loss: VTK's casts may round points to single precision."""
    g = mesh.cast_to_unstructured_grid()
    g.points = np.array(mesh.points, dtype=float)
    return g


CYCLIC = {5, 7, 8, 9}  # triangle, polygon, pixel, quad


def cells(mesh):
    """[(type, coordinates)] of each cell."""
    out = []
    pts = np.asarray(mesh.points, dtype=float)
    for i in range(mesh.n_cells):
        c = mesh.GetCell(i)
        ids = [c.GetPointId(j) for j in range(c.GetNumberOfPoints())]
        t = int(c.GetCellType())
        if t == 8:
            ids = [ids[0], ids[1], ids[3], ids[2]]
        out.append((t, pts[ids]))
    return out


def apart(p, q):
    """Area that belongs to one polygon only. GEOS may be wrong on nearly identical ones: the least of two ways."""
    res = []
    for kw in ({}, {"grid_size": 1e-8}):
        try:
            a = shapely.symmetric_difference(p, q, **kw).area
        except GEOSException:
            continue
        if a < 1e-9:
            return a
        res.append(a)
    return min(res) if res else shapely.symmetric_difference(p.buffer(1e-7), q.buffer(1e-7)).area


def same_cell(a, b, tol=1e-6):
    (ta, pa), (tb, pb) = a, b
    if ta != tb or len(pa) != len(pb):
        return False
    return same_points(ta, pa, pb, tol)


def same_points(t, pa, pb, tol=1e-6):
    if len(pa) == 0:
        return True
    scale = max(1.0, float(np.ptp(pa, axis=0).max()))
    if np.abs(pa - pb).max() <= tol * scale:
        return True
    n = len(pa)
    if t in CYCLIC or (t == 4 and n > 3 and np.abs(pa[0] - pa[-1]).max() <= tol * scale):
        if t == 4:
            if np.abs(pb[0] - pb[-1]).max() > tol * scale:
                return False
            pa, pb, n = pa[:-1], pb[:-1], n - 1
        for q in (pb, pb[::-1]):
            for k in range(n):
                if np.abs(pa - np.roll(q, k, axis=0)).max() <= tol * scale:
                    return True
        return False
    if t in (3, 4):
        return bool(np.abs(pa - pb[::-1]).max() <= tol * scale)
    return False


def data(mesh, skip=()):
    return {k: np.array(mesh.cell_data[k]) for k in sorted(mesh.cell_data.keys()) if k not in skip}


def ring(pts, tol=1e-6):
    """Ring without the vertices that lie on the segment between their neighbors."""
    pts = [np.asarray(p, dtype=float) for p in pts]
    scale = max(1.0, float(np.ptp(pts, axis=0).max())) if len(pts) else 1.0
    i = 0
    while i < len(pts) and len(pts) > 3:
        a, b, c = pts[i - 1], pts[i], pts[(i + 1) % len(pts)]
        ab, bc = b - a, c - b
        L = np.linalg.norm(c - a)
        if np.linalg.norm(ab) <= tol * scale or (L > 0 and np.linalg.norm(np.cross(ab, bc)) <= tol * scale * L and ab @ bc >= 0):
            del pts[i]
            i = max(0, i - 1)
        else:
            i += 1
    return np.array(pts)


def region_diff(a, b, tol=1e-6):
    """Same polygons in the same order, whatever their vertices on straight edges."""
    if a.n_cells != b.n_cells:
        return f"{a.n_cells} vs {b.n_cells} cells"
    for i, (x, y) in enumerate(zip(cells(a), cells(b))):
        rx, ry = ring(x[1]), ring(y[1])
        if len(rx) != len(ry) or not same_points(7, rx, ry, 1e-5):
            return f"cell {i}: {np.round(rx, 5).tolist()} vs {np.round(ry, 5).tolist()}"
    return diff(data(a), data(b), "cell_data", tol) or diff(_user_dict(a), _user_dict(b), "user_dict")


def mesh_diff(a, b, tol=1e-6, skip=()):
    """First difference of two meshes, or None."""
    if a is None or b is None:
        return None if a is b else f"{a!r} vs {b!r}"
    if a.n_cells != b.n_cells:
        return f"{a.n_cells} vs {b.n_cells} cells"
    ca, cb = cells(a), cells(b)
    for i, (x, y) in enumerate(zip(ca, cb)):
        if not same_cell(x, y, tol):
            return f"cell {i}: {x[0]} {np.round(x[1], 5).tolist()} vs {y[0]} {np.round(y[1], 5).tolist()}"
    d = diff(data(a, skip), data(b, skip), "cell_data", tol)
    if d:
        return d
    if a.n_points != b.n_points:
        return f"{a.n_points} vs {b.n_points} points"
    pa, pb = (np.round(np.asarray(m.points, dtype=float), 4) + 0.0 for m in (a, b))
    for i in np.lexsort(pa.T):
        if len(pb) and np.abs(pb - pa[i]).max(axis=1).min() > 1e-3:
            return f"point {pa[i].tolist()} is missing"
    return diff(_user_dict(a), _user_dict(b), "user_dict")


def match_sets(xs, ys, same):
    """Are two collections equal as multisets?"""
    ys = list(ys)
    if len(xs) != len(ys):
        return f"{len(xs)} vs {len(ys)}"
    for x in xs:
        for j, y in enumerate(ys):
            if same(x, y):
                del ys[j]
                break
        else:
            return "one has no counterpart"
    return None


def area(mesh):
    m = mesh.copy() if not isinstance(mesh, pv.UnstructuredGrid) else mesh.copy()
    m.cell_data.pop("vtkGhostType", None)
    return float(np.sum(np.abs(m.compute_cell_sizes(length=False, area=True, volume=False)["Area"])))


__all__ = ["mesh_diff", "cells", "same_cell", "match_sets", "area"]
