"""Queries describe the mesh as it is now, whatever was done to it before."""
import gc

from ..bsim import call, count, gen_fault
from ..builders import FAR
from ..core import Outcome, generic_shrinks
from ..fp import _user_dict
from ..recipes import NAMES, dy, gen_groups, gen_surface, gen_volume, make_mesh
from ..world import np, pv, pvg

ID = "C15"
GEOMETRY = {0, 5, 7, 8, 9, 10, 11, 12, 13, 14, 42}
TOL = 1e-6


# ------------------------------------------------------------------ generation
def gen_mesh(rng):
    k = rng.random()
    if k < 0.4:
        m = gen_surface(rng, kinds=("rect", "image", "rectilinear", "ugrid2", "ugrid2", "poly2"), nmax=3)
    elif k < 0.8:
        m = gen_volume(rng, kinds=("vol", "ugrid3", "ugrid3", "image3", "esg"), nmax=2)
        if m["k"] == "ugrid3" and rng.random() < 0.3:
            m["style"] = "pyramid"
    elif k < 0.88:
        m = {"$": "mesh", "k": "book", "n": rng.randint(2, 5), "seed": rng.randrange(10**6), "dim": rng.choice([2, 2, 3])}
    elif k < 0.94:
        m = {"$": "mesh", "k": "mixed", "parts": sorted(rng.sample(range(6), rng.randint(1, 6))), "seed": rng.randrange(10**6)}
    else:
        m = {"$": "mesh", "k": "prism", "n": rng.randint(3, 7), "cols": rng.randint(1, 3), "seed": rng.randrange(10**6)}
    return m


EDITS = ["move", "rawmove", "collapse", "hide", "hide", "flip", "rawflip", "rawdata", "show", "swap", "remove", "twin", "groups", "names", "data", "new", "scribble"]


def gen_edit(rng, how=None):
    e = {"op": "edit", "mesh": rng.randrange(2), "how": how or rng.choice(EDITS), "i": rng.randrange(64), "j": rng.randrange(64), "d": dy(rng, 0.25, 1.0)}
    if e["how"] in ("swap", "new"):
        e["to"] = gen_mesh(rng)
    if e["how"] == "hide":
        e["ids"] = [rng.randrange(32) for _ in range(rng.choice([1, 1, 2, 3, 12]))]
        e["api"] = rng.random() < 0.4
    if e["how"] == "groups":
        e["groups"] = gen_groups(rng)
    if e["how"] == "names":
        e["name"] = rng.choice(NAMES)
    return e


QUERIES = ["get_neighborhood", "get_neighborhood", "get_connectivity", "extract_cell_geometry", "get_cell_connectivity", "get_cell_centers", "get_cell_group",
           "get_dimension", "extract_cells", "extract_cells", "extract_cells_by_dimension"]


def gen_query(rng):
    f = rng.choice(QUERIES)
    kw = {}
    if f in ("get_neighborhood", "get_connectivity", "extract_cell_geometry"):
        if rng.random() < 0.7:
            kw["remove_ghost_cells"] = rng.random() < 0.5
        if f == "get_connectivity" and rng.random() < 0.3:
            kw["cell_centers"] = dy(rng, 1, 3)
    elif f == "get_cell_connectivity":
        if rng.random() < 0.7:
            kw["flatten"] = rng.random() < 0.6
    elif f == "get_cell_centers":
        if rng.random() < 0.7:
            kw["polyhedron_method"] = rng.choice([None, "box", "geometric", "tetra"])
    elif f == "get_cell_group":
        if rng.random() < 0.4:
            kw["key"] = rng.choice(["CellGroup", "poro", "zone", "nothing"])
    elif f == "extract_cells":
        kw = {"ids": [rng.randrange(32) for _ in range(rng.randint(1, 5))], "form": rng.choice(["list", "array", "mask", "listmask"]), "invert": rng.random() < 0.3}
    elif f == "extract_cells_by_dimension":
        kw = {"ndim": rng.choice([None, None, 0, 1, 2, 3]), "method": rng.choice(["upper", "lower"]), "keep_empty_cells": rng.random() < 0.3}
    st = {"op": "query", "mesh": rng.randrange(2), "f": f, "kw": kw}
    if rng.random() < 0.25:
        st["fault"] = gen_fault(rng)
    return st


def gen(rng, index, tier):
    steps = []
    for _ in range(rng.randint(3, 7)):
        c = rng.random()
        if c < 0.35:
            # the same question before and after an edit of the mesh
            q, e = gen_query(rng), gen_edit(rng, rng.choice(["move", "rawmove", "rawmove", "rawdata", "hide", "flip", "rawflip", "swap", "remove", "twin", "groups", "names"]))
            e["mesh"] = q["mesh"]
            steps += [q, e, {k: v for k, v in q.items() if k != "fault"}]
        else:
            steps.append(gen_edit(rng) if c < 0.6 else gen_query(rng))
    steps.append(gen_query(rng))
    sc = {"pool": [gen_mesh(rng), gen_mesh(rng)], "steps": steps}
    meshes = [*sc["pool"], *(st["to"] for st in steps if "to" in st)]
    how = rng.random()
    if how < 0.08:
        # another unit of length
        scale = rng.choice([2.0**-16, 2.0**-10, 2.0**12])
        for m in meshes:
            m["scale"] = scale
    elif how < 0.18:
        far = rng.choice(FAR)
        for m in meshes:
            m["o"] = [a + b for a, b in zip(m.get("o", (0.0, 0.0, 0.0)), far)]
    return sc


# ------------------------------------------------------------------ the mesh as it is
class Now:
    """What VTK says of the mesh, cell by cell, without going through pvgridder."""

    def __init__(self, mesh):
        self.mesh = mesh
        m = mesh.copy(deep=True)
        n = m.n_cells
        self.ghost = np.zeros(n, dtype=bool)
        if "vtkGhostType" in m.cell_data:
            self.ghost = (np.array(m.cell_data["vtkGhostType"]) & 32) != 0
            m.cell_data.pop("vtkGhostType")
        self.structured = isinstance(m, (pv.ImageData, pv.RectilinearGrid, pv.StructuredGrid)) and not isinstance(m, pv.ExplicitStructuredGrid)
        self.points = np.array(m.points, dtype=float)
        self.types, self.ids, self.edges, self.faces, self.centers, self.dims = [], [], [], [], [], []
        for i in range(n):
            c = m.GetCell(i)
            t = int(c.GetCellType())
            self.types.append(t)
            self.ids.append(_ids(c))
            self.dims.append(-1 if t == 0 else c.GetCellDimension())
            if t == 41:
                # VTK triangulates these, which fails on flat ones
                self.edges.append([])
                self.faces.append([])
                self.centers.append(np.full(3, np.nan))
                continue
            self.edges.append([_ids(c.GetEdge(k)) for k in range(c.GetNumberOfEdges())])
            self.faces.append([_ring(c.GetFace(k)) for k in range(c.GetNumberOfFaces())])
            self.centers.append(_center(m, i, c) if t not in (0, 41) else np.full(3, np.nan))
        self.n = n
        size = float(np.ptp(self.points, axis=0).max()) if len(self.points) else 0.0
        self.tol = 1e-4 * max(size, 1e-6) if size < 1.0 else 1e-4 * max(1.0, size / 64.0)
        if self.structured or isinstance(m, pv.ExplicitStructuredGrid):
            self.dim = sum(d > 1 for d in m.dimensions)
        else:
            self.dim = max(self.dims, default=-1)

    def parts(self, i):
        return self.edges[i] if self.dim == 2 else self.faces[i]

    def supported(self, visible=True):
        """Can be asked for shared edges or faces."""
        if self.dim not in (2, 3) or not self.n:
            return False
        return all(t in GEOMETRY and (d in (self.dim, -1)) for t, d in zip(self.types, self.dims))

    def degenerate(self, part):
        p = self.points[part]
        if self.dim == 2:
            return len(set(part)) < 2 or bool((p[0] == p[1]).all())
        return _area(p) == 0.0

    def shared(self, visible):
        """{ids of an edge or a face: (ring, cells)}"""
        out = {}
        for i in range(self.n):
            if visible and self.ghost[i] or self.types[i] == 0:
                continue
            for part in self.parts(i):
                if visible and self.degenerate(part):
                    continue
                out.setdefault(frozenset(part), (part, []))[1].append(i)
        return out

    def pairs(self, visible):
        sure, maybe = set(), set()
        for key, (part, cells) in self.shared(visible).items():
            cells = sorted(set(cells))
            for a in range(len(cells)):
                for b in range(a + 1, len(cells)):
                    (maybe if len(key) < self.dim else sure).add((cells[a], cells[b]))
        return sure, maybe


def _ids(c):
    return [int(c.GetPointId(k)) for k in range(c.GetNumberOfPoints())]


def _ring(face):
    ids = _ids(face)
    if int(face.GetCellType()) == 8:
        ids = [ids[0], ids[1], ids[3], ids[2]]
    return ids


def _center(m, i, c):
    """Mean of the corners, or else what VTK says of the cell alone."""
    t = int(c.GetCellType())
    if t in (1, 3, 5, 9, 10, 12, 13) or t in (8, 11) and isinstance(m, (pv.ImageData, pv.RectilinearGrid)):
        return np.array(m.points, dtype=float)[_ids(c)].mean(axis=0)
    return np.array(m.extract_cells([i]).cell_centers().points[0], dtype=float)


def _area(p):
    return float(np.abs(sum((np.cross(p[k] - p[0], p[k + 1] - p[0]) for k in range(1, len(p) - 1)), np.zeros(3))).max())


def _make(v):
    m = make_mesh(v)
    f = v.get("scale")
    if f and isinstance(m, pv.ImageData):
        m.origin, m.spacing = [x * f for x in m.origin], [x * f for x in m.spacing]
    elif f and isinstance(m, pv.RectilinearGrid):
        m.x, m.y, m.z = np.array(m.x) * f, np.array(m.y) * f, np.array(m.z) * f
    elif f:
        m.points = np.array(m.points) * f
    return m


# ------------------------------------------------------------------ edits
def _raw(m, key):
    """The memory of an array: edits of it are not notified to VTK."""
    from vtkmodules.util.numpy_support import vtk_to_numpy

    return vtk_to_numpy(m.GetCellData().GetAbstractArray(key))


class Sim:
    def __init__(self, sc, out):
        self.sc, self.out = sc, out
        self.pool = [_make(v) for v in sc["pool"]]
        self.answers = []
        self.removed = {}

    def edit(self, e):
        m = self.pool[e["mesh"]]
        how = e["how"]
        n = m.n_cells
        pointset = isinstance(m, (pv.PolyData, pv.StructuredGrid, pv.UnstructuredGrid, pv.ExplicitStructuredGrid))
        if how in ("move", "rawmove"):
            if pointset and m.n_points:
                i = e["i"] % m.n_points
                if how == "move":
                    m.points[i, e["j"] % 3] += e["d"]
                else:
                    from vtkmodules.util.numpy_support import vtk_to_numpy

                    vtk_to_numpy(m.GetPoints().GetData())[:, e["j"] % 3] *= 1.0 + e["d"]
            elif isinstance(m, pv.ImageData):
                m.origin = [x + e["d"] for x in m.origin]
                m.spacing = [x * (1.0 + e["d"]) for x in m.spacing]
            elif isinstance(m, pv.RectilinearGrid):
                m.x = np.array(m.x) * (1.0 + e["d"]) + e["d"]
        elif how == "collapse" and pointset and n:
            c = m.GetCell(e["i"] % n)
            ids = _ids(c)
            if len(ids) > 3 and not isinstance(m, pv.ExplicitStructuredGrid):
                k = e["j"] % (len(ids) - 1)
                m.points[ids[k]] = m.points[ids[k + 1]]
        elif how == "hide" and n:
            ids = sorted({i % n for i in e["ids"]})
            if e.get("api") and isinstance(m, pv.StructuredGrid):
                m.hide_cells(ids, inplace=True)
            else:
                g = np.zeros(n, dtype=np.uint8)
                g[ids] = 32
                m.cell_data["vtkGhostType"] = g
        elif how == "flip" and n and "vtkGhostType" in m.cell_data:
            m.cell_data["vtkGhostType"][e["i"] % n] ^= 32
        elif how == "rawflip" and n and "vtkGhostType" in m.cell_data:
            _raw(m, "vtkGhostType")[e["i"] % n] ^= 32
        elif how == "rawdata" and n:
            for k in m.cell_data.keys():
                if k != "vtkGhostType" and m.cell_data[k].dtype.kind in "iuf":
                    a = _raw(m, k)
                    a[:] = a[::-1].copy()
        elif how == "show":
            if "vtkGhostType" in m.cell_data:
                m.cell_data.pop("vtkGhostType")
        elif how == "swap":
            other = _make(e["to"])
            if type(other) is type(m):
                m.deep_copy(other)
        elif how == "new":
            self.pool[e["mesh"]] = None
            self.answers.clear()
            self.removed.pop(id(m), None)
            m = None
            gc.collect()
            self.pool[e["mesh"]] = _make(e["to"])
        elif how == "remove" and isinstance(m, (pv.UnstructuredGrid, pv.PolyData)) and n > 1 and id(m) not in self.removed:
            # once: VTK itself does not survive a second time on some meshes
            self.removed[id(m)] = m
            m.remove_cells([e["i"] % n], inplace=True)
        elif how == "twin" and isinstance(m, pv.UnstructuredGrid) and n:
            # one more cell on the points of another
            keep = {k: np.array(m.cell_data[k]) for k in m.cell_data.keys()}
            i = e["i"] % n
            if (m.celltypes == 42).any():
                return
            cells = []
            types = [int(t) for t in m.celltypes] + [int(m.celltypes[i])]
            for k in [*range(n), i]:
                ids = _ids(m.GetCell(k))
                cells += [len(ids), *ids]
            new = pv.UnstructuredGrid(np.array(cells), np.array(types, dtype=np.uint8), np.array(m.points))
            for k, v in keep.items():
                new.cell_data[k] = np.concatenate((v, v[i:i + 1]))
            ud = _user_dict(m)
            m.deep_copy(new)
            if ud:
                m.user_dict.update(ud)
        elif how == "groups" and n:
            g = e["groups"]
            m.cell_data["CellGroup"] = np.array([g["nums"][g["assign"][i % len(g["assign"])] % len(g["names"])] for i in range(n)])
            m.user_dict["CellGroup"] = {a: int(b) for a, b in zip(g["names"], g["nums"])}
        elif how == "names" and "CellGroup" in m.cell_data and _user_dict(m).get("CellGroup"):
            d = dict(m.user_dict["CellGroup"])
            k = sorted(d)[e["i"] % len(d)]
            if e["name"] not in d:
                d[e["name"]] = d.pop(k)
                m.user_dict["CellGroup"] = d
        elif how == "data" and n:
            m.cell_data["poro"] = np.arange(n) * e["d"]
            m.cell_data["zone"] = np.arange(n) + e["i"]
        elif how == "scribble":
            for a in self.answers:
                _scribble(a)

    # -------------------------------------------------------------- queries
    def query(self, st):
        m = self.pool[st["mesh"]]
        now = Now(m)
        f, kw = st["f"], dict(st["kw"])
        if f in ("get_neighborhood", "get_connectivity", "extract_cell_geometry"):
            if not now.supported() or kw.get("remove_ghost_cells", True) and not now.shared(True) and not now.ghost.all():
                return
            if f == "get_connectivity" and "cell_centers" in kw:
                kw["cell_centers"] = np.arange(3.0 * now.n).reshape((-1, 3)) * kw["cell_centers"]
        if f == "extract_cells":
            ids = sorted({i % now.n for i in kw.pop("ids")}) if now.n else []
            form = kw.pop("form")
            mask = np.isin(np.arange(now.n), ids)
            kw["ind"] = ids if form == "list" else np.array(ids) if form == "array" else mask if form == "mask" else mask.tolist()
            if not now.n or (kw["invert"] and mask.all()):
                return
        if f in ("get_cell_centers", "get_connectivity") and 41 in now.types:
            return
        if f in ("get_dimension", "get_cell_centers", "extract_cells_by_dimension") and not now.n:
            return
        if f == "get_cell_group":
            names = _user_dict(m).get(kw.get("key", "CellGroup"))
            if names is not None and kw.get("key", "CellGroup") in m.cell_data and not set(np.array(m.cell_data[kw.get("key", "CellGroup")]).tolist()) <= set(names.values()):
                return
        fn = getattr(pvg, f)
        fault, k = st.get("fault"), None
        if fault is not None:
            probe = m.copy(deep=True)
            _, _, k = count(lambda: fn(probe, **kw), fault)
        got, val, inj = call(lambda: fn(m, **kw), fault, k)
        self.out.event(f, got)
        if inj.fired:
            self.out.count(f"fault:{fault['kind']}")
            self.out.event("fault", inj.fired[0], inj.fired[2])
            if got != "ok":
                return
        self.out.nontrivial = True
        self.out.count("probe:query")
        what = f"{f}({', '.join(f'{a}={b}' for a, b in st['kw'].items())}) of a {type(m).__name__} of {now.n} cells"
        msg = f"failed: {got} {val!r}" if got != "ok" else getattr(self, "q_" + f)(now, kw, val)
        self.out.sig(f, type(m).__name__, tuple(sorted(set(now.types))), bool(now.ghost.any()), tuple(sorted(map(str, st["kw"].items()))))
        if msg:
            self.out.fail(f"query:{f}", f"{what}: {msg}")
            return
        if f != "get_cell_connectivity":  # these are views of the arrays of the mesh
            self.answers.append(val)

    def q_get_neighborhood(self, now, kw, val):
        if len(val) != now.n:
            return f"{len(val)} lists"
        got = set()
        for i, v in enumerate(val):
            for j in np.asarray(v).tolist():
                if int(j) != j or not 0 <= j < now.n or j == i:
                    return f"cell {i} has neighbor {j}"
                got.add((i, int(j)))
        for i, j in got:
            if (j, i) not in got:
                return f"cell {j} is a neighbor of {i} but not the other way around"
        return self._pairs(now, kw, {(i, j) for i, j in got if i < j})

    def _pairs(self, now, kw, got):
        sure, maybe = now.pairs(kw.get("remove_ghost_cells", True))
        if got - sure - maybe:
            i, j = sorted(got - sure - maybe)[0]
            return f"cells {i} and {j} are not neighbors: {now.ids[i]} (ghost {now.ghost[i]}), {now.ids[j]} (ghost {now.ghost[j]})"
        if sure - got:
            i, j = sorted(sure - got)[0]
            return f"neighbors {i} and {j} missed: {now.ids[i]}, {now.ids[j]}"
        return None

    def q_get_connectivity(self, now, kw, val):
        c = kw.get("cell_centers")
        c = np.array(now.centers).reshape((-1, 3)) if c is None else c
        if val.n_points != now.n or not np.allclose(val.points, c, rtol=0.0, atol=now.tol, equal_nan=True):
            return "points that are not the centers"
        lines = np.asarray(val.lines).reshape((-1, 3))
        if len(lines) != val.n_lines or (len(lines) and (lines[:, 0] != 2).any()):
            return "not segments"
        return self._pairs(now, kw, {(min(a, b), max(a, b)) for _, a, b in lines.tolist()})

    def q_extract_cell_geometry(self, now, kw, val):
        want = now.shared(kw.get("remove_ghost_cells", True))
        if val.n_points != len(now.points) or not np.array_equal(np.asarray(val.points, dtype=float), now.points):
            return "points that are not those of the mesh"
        if want and "vtkOriginalCellIds" not in val.cell_data:
            return "no vtkOriginalCellIds"
        seen = set()
        owners = np.reshape(val.cell_data["vtkOriginalCellIds"], (val.n_cells, -1)) if val.n_cells else []
        for k in range(val.n_cells):
            ids = _ids(val.GetCell(k))
            key = frozenset(ids)
            if key in seen:
                return f"{ids} twice"
            seen.add(key)
            if key not in want:
                if len(key) < now.dim:
                    continue
                return f"{ids} is not an edge or a face of a cell"
            ring, cells = want[key]
            if now.dim == 3 and len(set(ring)) == len(ring) and not _cyclic(ids, ring):
                return f"face {ids} instead of {ring}"
            o = sorted({int(x) for x in np.atleast_1d(owners[k]) if x != -1})
            if o != sorted(set(cells)):
                return f"{ids} given to cells {o} instead of {sorted(set(cells))}"
        miss = [sorted(k) for k in want if k not in seen and len(k) >= now.dim]
        return f"{miss[0]} missed" if miss else None

    def q_get_cell_connectivity(self, now, kw, val):
        # hidden cells may or may not keep their points
        hidden = [i for i in range(now.n) if now.structured and now.ghost[i]]
        val = list(val) if not kw.get("flatten") else np.asarray(val).tolist()
        want = []
        for i in range(now.n):
            if now.types[i] == 42:
                want.append([list(f) for f in now.faces[i]])
            else:
                want.append(now.ids[i])
        if kw.get("flatten"):
            flat = []
            for i, w in enumerate(want):
                if now.types[i] == 42:
                    w = [len(w)] + [x for f in w for x in (len(f), *f)]
                if i in hidden and val[len(flat):len(flat) + 1] == [0]:
                    w = []
                flat += [len(w), *w]
            return None if val == flat else f"{val[:40]} instead of {flat[:40]}"
        if len(val) != now.n:
            return f"{len(val)} cells"
        for i, (v, w) in enumerate(zip(val, want)):
            v = [np.asarray(x).tolist() for x in v] if now.types[i] == 42 and w else np.asarray(v).tolist()
            if v != w and (v or i not in hidden):
                return f"cell {i}: {v} instead of {w}"
        return None

    def q_get_cell_centers(self, now, kw, val):
        how = kw.get("polyhedron_method")
        for i in range(now.n):
            w = now.centers[i]
            if now.types[i] == 42 and how:
                p = now.points[now.ids[i]]
                w = 0.5 * (p.min(axis=0) + p.max(axis=0)) if how == "box" else p.mean(axis=0) if how == "geometric" else _centroid(now.points, now.faces[i])
                if w is None:
                    continue
            if not np.allclose(val[i], w, rtol=0.0, atol=now.tol, equal_nan=True):
                return f"cell {i} ({pv.CellType(now.types[i]).name}): {np.asarray(val[i]).tolist()} instead of {w.tolist()}"
        return None if np.shape(val) == (now.n, 3) else f"shape {np.shape(val)}"

    def q_get_cell_group(self, now, kw, val):
        key = kw.get("key", "CellGroup")
        m = now.mesh
        if key not in m.cell_data:
            return None if val is None else f"{val} for no group"
        num = np.array(m.cell_data[key]).tolist()
        names = _user_dict(m).get(key)
        want = num if names is None else [{v: k for k, v in names.items()}[x] for x in num]
        return None if val is not None and np.asarray(val).tolist() == want else f"{val} instead of {want}"

    def q_get_dimension(self, now, kw, val):
        return None if val == now.dim else f"{val} instead of {now.dim}"

    def q_extract_cells(self, now, kw, val):
        ind = np.asarray(kw["ind"])
        ids = np.flatnonzero(ind) if ind.dtype.kind == "b" else np.unique(ind)
        if kw["invert"]:
            ids = np.setdiff1d(np.arange(now.n), ids)
        return self._subset(now, ids.tolist(), val)

    def _subset(self, now, ids, val, empty=()):
        m = now.mesh
        if val.n_cells != len(ids):
            return f"{val.n_cells} cells instead of {len(ids)}"
        if not ids:
            return None
        for k in m.cell_data.keys():
            if k not in val.cell_data:
                return f"array {k} lost"
            a, b = np.array(m.cell_data[k])[ids], np.array(val.cell_data[k])
            if a.shape != b.shape or not np.array_equal(a, b):
                return f"array {k}: {b.tolist()} instead of {a.tolist()}"
        for k in m.point_data.keys():
            if k not in val.point_data:
                return f"point array {k} lost"
        bare = val.copy()
        if "vtkGhostType" in bare.cell_data:
            bare.cell_data.pop("vtkGhostType")
        for i, j in enumerate(ids):
            c = bare.GetCell(i)
            t = 0 if j in empty else now.types[j]
            if int(c.GetCellType()) != t:
                return f"cell {j} became a {pv.CellType(int(c.GetCellType())).name}"
            if t == 0:
                continue
            pid = _ids(c)
            if len(pid) != len(now.ids[j]) or not np.allclose(np.asarray(val.points)[pid], now.points[now.ids[j]], rtol=0.0, atol=1e-6):
                return f"cell {j} moved"
            for k in m.point_data.keys():
                if not np.array_equal(np.array(val.point_data[k])[pid], np.array(m.point_data[k])[now.ids[j]]):
                    return f"point array {k} of cell {j} changed"
            if t == 42 and [len(f) for f in now.faces[j]] != [c.GetFace(x).GetNumberOfPoints() for x in range(c.GetNumberOfFaces())]:
                return f"faces of cell {j} changed"
        if _user_dict(m) and _user_dict(val) != _user_dict(m):
            return f"user dictionary {_user_dict(val)} instead of {_user_dict(m)}"
        return None

    def q_extract_cells_by_dimension(self, now, kw, val):
        hidden = [i for i in range(now.n) if now.structured and now.ghost[i] or now.types[i] == 0]
        dims = [-1 if i in hidden else d for i, d in enumerate(now.dims)]
        ndim = max(dims) if kw.get("ndim") is None else kw["ndim"]
        if kw["method"] == "lower" and hidden:
            return None
        ids = [i for i, d in enumerate(dims) if (d >= ndim if kw["method"] == "upper" else d <= ndim) or (i in hidden and kw["keep_empty_cells"])]
        return self._subset(now, ids, val, hidden)

    def run(self):
        for st in self.sc["steps"]:
            self.out.count("steps")
            if st["op"] == "edit":
                self.edit(st)
                self.out.event(st["how"])
            else:
                self.query(st)
            if self.out.violation:
                return


def _cyclic(a, b):
    n = len(a)
    return n == len(b) and any(a == c[k:] + c[:k] for c in (b, b[::-1]) for k in range(n))


def _centroid(points, faces):
    """Centroid of a solid with plane faces."""
    o = points[faces[0][0]]
    vol, acc = 0.0, np.zeros(3)
    for f in faces:
        p = points[f] - o
        nrm = np.cross(p[1] - p[0], p[2] - p[0])
        if len(f) > 3 and np.abs((p - p[0]) @ nrm).max() > 1e-9:
            return None
        for k in range(1, len(f) - 1):
            v = float(np.dot(np.cross(p[0], p[k]), p[k + 1])) / 6.0
            vol += v
            acc += v * (p[0] + p[k] + p[k + 1]) / 4.0
    return None if abs(vol) < 1e-9 else o + acc / vol


def _scribble(a):
    if isinstance(a, np.ndarray):
        if a.size and a.flags.writeable and a.dtype.kind in "if":
            a += 3
    elif isinstance(a, pv.DataSet):
        if a.n_points:
            a.points[:] = np.asarray(a.points) * 2.0 + 1.0
        for k in a.cell_data.keys():
            if a.cell_data[k].dtype.kind == "f":
                a.cell_data[k][:] = -1.0
    elif isinstance(a, (tuple, list)):
        for x in a:
            _scribble(x)


def execute(sc):
    out = Outcome()
    Sim(sc, out).run()
    return out


def shrinks(sc):
    yield from generic_shrinks(sc)
