"""
Seams for the order in which the engines below pvgridder enumerate their results.

None of these orders is part of the engines' contracts; each wrapper returns exactly what
the engine returned, in an order decided by the active simulation (identity otherwise).
"""
import random

import numpy as np

ACTIVE = None  # random.Random of the active simulation, or None
COUNTS = {}


def _hit(kind, n=1):
    COUNTS[kind] = COUNTS.get(kind, 0) + n


class OrderedSet(set):
    """A set which iterates in a given order."""

    def __init__(self, items):
        self._order = list(items)
        super().__init__(self._order)

    def __iter__(self):
        return iter([x for x in self._order if set.__contains__(self, x)])


class active:
    def __init__(self, seed):
        self.rng = random.Random(f"order/{seed}") if seed is not None else None

    def __enter__(self):
        global ACTIVE
        self.prev, ACTIVE = ACTIVE, self.rng
        return self

    def __exit__(self, *exc):
        global ACTIVE
        ACTIVE = self.prev


def _perm(n):
    p = list(range(n))
    mode = ACTIVE.random()
    if mode < 0.25:
        p.reverse()
    elif mode < 0.4:
        k = ACTIVE.randrange(n) if n else 0
        p = p[k:] + p[:k]
    else:
        ACTIVE.shuffle(p)
    return p


def install():
    import pyvista as pv
    import scipy.spatial as sp

    # KDTree.query_pairs
    tree = sp.KDTree
    real_pairs = tree.query_pairs

    def query_pairs(self, *args, **kwargs):
        out = real_pairs(self, *args, **kwargs)
        if ACTIVE is None or len(out) < 2:
            return out
        _hit("query_pairs")
        if isinstance(out, np.ndarray):
            return out[_perm(len(out))]
        out = sorted(out)
        return OrderedSet([out[i] for i in _perm(len(out))])

    tree.query_pairs = query_pairs

    # Voronoi
    real_voronoi = sp.Voronoi

    class Voronoi(real_voronoi):
        def __init__(self, *args, **kwargs):
            real_voronoi.__init__(self, *args, **kwargs)
            if ACTIVE is None or np.shape(self.points)[1] != 2:
                return
            _hit("voronoi")
            # vertices
            nv = len(self.vertices)
            p = _perm(nv)
            new_id = {old: new for new, old in enumerate(p)}
            new_id[-1] = -1
            self.vertices = self.vertices[p] if nv else self.vertices
            regions = [[new_id[v] for v in r] for r in self.regions]
            # cyclic order of the regions: start and direction are free
            for i, r in enumerate(regions):
                if r:
                    k = ACTIVE.randrange(len(r))
                    r = r[k:] + r[:k]
                    if ACTIVE.random() < 0.5:
                        r = r[::-1]
                    regions[i] = r
            q = _perm(len(regions))
            self.regions = [regions[i] for i in q]
            rid = {old: new for new, old in enumerate(q)}
            self.point_region = np.array([rid[int(i)] if i >= 0 else i for i in self.point_region])
            # ridges
            rp, rv = [list(map(int, x)) for x in self.ridge_points], [
                [new_id[v] for v in x] for x in self.ridge_vertices
            ]
            q = _perm(len(rp))
            rp, rv = [rp[i] for i in q], [rv[i] for i in q]
            for i in range(len(rp)):
                if ACTIVE.random() < 0.5:
                    rp[i] = rp[i][::-1]
                if ACTIVE.random() < 0.5:
                    rv[i] = rv[i][::-1]
            self.ridge_points = np.array(rp)
            self.ridge_vertices = rv

    Voronoi.__name__ = "Voronoi"
    Voronoi.__module__ = real_voronoi.__module__
    sp.Voronoi = Voronoi

    # pyvista
    def wrap_ids(cls, name):
        real = getattr(cls, name)

        def wrapper(self, *args, **kwargs):
            out = real(self, *args, **kwargs)
            if ACTIVE is None or np.ndim(out) != 1 or len(out) < 2:
                return out
            _hit(name)
            return np.asarray(out)[_perm(len(out))]

        wrapper.__name__ = name
        wrapper.__module__ = real.__module__
        setattr(cls, name, wrapper)

    wrap_ids(pv.DataSet, "find_cells_intersecting_line")

    def wrap_edges(cls, name):
        real = getattr(cls, name)

        def wrapper(self, *args, **kwargs):
            out = real(self, *args, **kwargs)
            if ACTIVE is None or not isinstance(out, pv.PolyData) or out.n_lines < 2 or out.n_cells != out.n_lines:
                return out
            lines = np.asarray(out.lines)
            if lines.size != 3 * out.n_lines:
                return out
            _hit(name)
            lines = lines.reshape((-1, 3))[_perm(out.n_lines)]
            # points are numbered in the order in which edges are found
            p = _perm(out.n_points)
            new_id = np.empty(len(p), dtype=int)
            new_id[p] = np.arange(len(p))
            pts = np.array(out.points)[p]
            ab = new_id[lines[:, 1:]]
            for i in range(len(ab)):
                if ACTIVE.random() < 0.5:
                    ab[i] = ab[i][::-1]
            new = pv.PolyData(pts, lines=np.column_stack((np.full(len(ab), 2), ab)).ravel())
            return new

        wrapper.__name__ = name
        wrapper.__module__ = real.__module__
        setattr(cls, name, wrapper)

    from pyvista.core.filters.data_set import DataSetFilters

    wrap_edges(DataSetFilters, "extract_feature_edges")
