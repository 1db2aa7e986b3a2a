"""
Scenario values: JSON descriptions of the meshes, arrays and callables given to the
library. ``realize`` is a pure function of the description.
"""
import math
import random

from .world import np, pv

NAMES = ["aquifer", "clay", "well", "fault", "rock"]


# ------------------------------------------------------------------ realization
def realize(v, pool=None):
    if isinstance(v, dict) and "$" in v:
        k = v["$"]
        if k == "ref":
            return pool[v["name"]]
        if k == "arr":
            return np.array(v["v"], dtype=v.get("dtype", "float"))
        if k == "tuple":
            return tuple(realize(x, pool) for x in v["v"])
        if k == "fn":
            return make_fn(v)
        if k == "gfn":
            return make_gfn(v)
        if k == "mesh":
            return make_mesh(v)
        if k == "gui":
            from .gui import scripted

            return scripted(realize(v["base"], pool), v["events"])
        raise KeyError(k)
    if isinstance(v, dict):
        return {a: realize(b, pool) for a, b in v.items()}
    if isinstance(v, list):
        return [realize(x, pool) for x in v]
    return v


class UserError(Exception):
    """Raised by a callable given by the user."""


class user_fault:
    """The k-th invocation of a callable given by the user fails (None: count only)."""

    active = None

    def __init__(self, k=None, exc=UserError):
        self.k, self.exc, self.n, self.fired, self.raised = k, exc, 0, None, None

    def __enter__(self):
        self.prev, user_fault.active = user_fault.active, self
        return self

    def __exit__(self, *exc):
        user_fault.active = self.prev

    @staticmethod
    def tick():
        f = user_fault.active
        if f is not None:
            f.n += 1
            if f.k is not None and f.n - 1 == f.k:
                f.fired = ("user callable", f.k, "user")
                f.raised = f.exc("injected fault")
                raise f.raised


def make_fn(v):
    """f(x, y, z) -> coordinates."""
    a, b, c, d = v.get("a", 0.0), v.get("b", 0.0), v.get("c", 0.0), v.get("d", 0.0)
    fail = v.get("fail")

    def fn(x, y, z):
        user_fault.tick()
        if fail == "raise":
            raise UserError("user callable")
        if fail == "interrupt":
            raise KeyboardInterrupt("user callable")
        if fail == "shape":
            return np.zeros(np.size(x) + 3)
        x, y, z = (np.asarray(t, dtype=float) for t in (x, y, z))
        x0, y0, z0 = v.get("x0", (0.0, 0.0, 0.0))
        out = a * (x - x0) + b * (y - y0) + c * (z - z0) + d
        if v.get("bump"):
            u0, h = v["bump"]
            t = x if v.get("along", "x") == "x" else (y if v.get("along") == "y" else z)
            out = np.maximum(out, np.where(t > u0, h, out))
        return out

    return fn


def make_gfn(v):
    """f(mesh) -> mask (or indices, as booleans)."""
    fail = v.get("fail")

    def gfn(mesh):
        user_fault.tick()
        if fail == "raise":
            raise UserError("user callable")
        if fail == "interrupt":
            raise KeyboardInterrupt("user callable")
        mask = np.zeros(mesh.n_cells, dtype=bool)
        for i in v.get("ids", []):
            if i < mesh.n_cells:
                mask[i] = True
        how = v.get("as")
        return mask if how is None else np.flatnonzero(mask) if how == "ids" else np.flatnonzero(mask).tolist()

    return gfn


def _jit(rs, n, amp):
    # dyadic offsets: sums and differences of coordinates stay exact
    return rs.randint(-8, 9, n) / 64.0 * amp


def make_mesh(v):
    kind = v["k"]
    rs = np.random.RandomState(v.get("seed", 0))
    amp = v.get("jit", 0.0)
    o = v.get("o", [0.0, 0.0, 0.0])

    if kind in ("rect", "image", "rectilinear", "ugrid2", "poly2"):
        nx, ny = v["n"]
        dx, dy = v.get("d", [1.0, 1.0])
        x = np.arange(nx + 1) * dx
        y = np.arange(ny + 1) * dy
        plane = v.get("plane", "xy")
        ax = {"xy": (0, 1, 2), "xz": (0, 2, 1), "yz": (1, 2, 0)}[plane]
        if kind == "image":
            dims, spacing = [1, 1, 1], [1.0, 1.0, 1.0]
            dims[ax[0]], dims[ax[1]] = nx + 1, ny + 1
            spacing[ax[0]], spacing[ax[1]] = dx, dy
            mesh = pv.ImageData(dimensions=dims, spacing=spacing, origin=o)
        elif kind == "rectilinear":
            c = [np.array([0.0])] * 3
            c[ax[0]] = x + np.concatenate(([0], _jit(rs, nx, amp)))
            c[ax[1]] = y + np.concatenate(([0], _jit(rs, ny, amp)))
            c = [np.asarray(t) + s for t, s in zip(c, o)]
            mesh = pv.RectilinearGrid(*c)
        else:
            U, V = np.meshgrid(x, y, indexing="ij")
            if amp:
                U = U.copy()
                V = V.copy()
                U[1:-1, :] += _jit(rs, U[1:-1, :].shape, amp) if nx > 1 else 0
                V[:, 1:-1] += _jit(rs, V[:, 1:-1].shape, amp) if ny > 1 else 0
            shape = [1, 1, 1]
            shape[ax[0]], shape[ax[1]] = nx + 1, ny + 1
            c = [None] * 3
            c[ax[0]], c[ax[1]], c[ax[2]] = U, V, np.zeros_like(U)
            if v.get("relief"):
                c[ax[2]] = np.round(np.sin(U * 1.3) * np.cos(V) * v["relief"] * 64) / 64
            # U varies along axis ax[0], V along ax[1], and ax[0] < ax[1]: a plain reshape is enough
            c = [np.ascontiguousarray(t).reshape(shape) + s for t, s in zip(c, o)]
            mesh = pv.StructuredGrid(*c)
            if kind in ("ugrid2", "poly2"):
                mesh = _ugrid2(mesh, v, rs, poly=kind == "poly2")
    elif kind in ("vol", "ugrid3", "image3", "esg"):
        nx, ny, nz = v["n"]
        d = v.get("d", [1.0, 1.0, 1.0])
        if kind == "image3":
            mesh = pv.ImageData(dimensions=(nx + 1, ny + 1, nz + 1), spacing=d, origin=o)
        else:
            X, Y, Z = np.meshgrid(*(np.arange(n + 1) * t for n, t in zip((nx, ny, nz), d)), indexing="ij")
            if amp:
                Z = Z + _jit(rs, Z.shape, amp * 0.5)
            mesh = pv.StructuredGrid(X + o[0], Y + o[1], Z + o[2])
            if kind == "ugrid3":
                mesh = _ugrid3(mesh, v, rs)
            elif kind == "esg":
                mesh = mesh.cast_to_explicit_structured_grid()
    elif kind == "line":
        pts = np.array(v["p"], dtype=float)
        n = len(pts)
        if v.get("poly", False):
            mesh = pv.PolyData(pts, lines=[n, *range(n)])
        else:
            lines = np.column_stack((np.full(n - 1, 2), np.arange(n - 1), np.arange(1, n))).ravel()
            mesh = pv.PolyData(pts, lines=lines)
    elif kind == "lines":
        pts, lines, off = [], [], 0
        for p in v["p"]:
            pts += p
            lines += [len(p), *range(off, off + len(p))]
            off += len(p)
        mesh = pv.PolyData(np.array(pts, dtype=float), lines=lines)
    elif kind == "cloud":
        mesh = pv.PolyData(np.array(v["p"], dtype=float))
    elif kind == "polygon":
        pts = np.array(v["p"], dtype=float)
        mesh = pv.PolyData(pts, faces=[len(pts), *range(len(pts))])
    elif kind == "faces":
        mesh = pv.PolyData(np.array(v["p"], dtype=float), faces=[x for f in v["f"] for x in (len(f), *f)])
    elif kind == "frame":
        # square with square holes, and possibly an island in a hole
        mesh = _frame(v)
    elif kind == "book":
        mesh = _book(v)
    elif kind == "prism":
        mesh = _prism(v)
    elif kind == "mixed":
        # cells of several dimensions
        mesh = _mixed(v)
    else:
        raise KeyError(kind)

    n = mesh.n_cells
    for name, dim in v.get("data", []):
        shape = (n,) if dim == 1 else (n, dim)
        mesh.cell_data[name] = rs.randint(0, 1000, shape) / 8.0
    for name, dim in v.get("pdata", []):
        shape = (mesh.n_points,) if dim == 1 else (mesh.n_points, dim)
        mesh.point_data[name] = rs.randint(0, 1000, shape) / 8.0
    if v.get("tag") is not None:
        mesh.cell_data["Tag"] = np.arange(n) + int(v["tag"])
    if v.get("groups"):
        g = v["groups"]
        names, nums = g["names"], g["nums"]
        idx = [g["assign"][i % len(g["assign"])] % len(names) for i in range(n)]
        mesh.cell_data["CellGroup"] = np.array([nums[i] for i in idx], dtype=int)
        mesh.user_dict["CellGroup"] = {a: int(b) for a, b in zip(names, nums)}
    if v.get("extra_user"):
        mesh.user_dict["note"] = v["extra_user"]
    if v.get("ghost"):
        gh = np.zeros(n, dtype=np.uint8)
        for i in v["ghost"]:
            gh[i % n] = 32
        mesh.cell_data["vtkGhostType"] = gh
        if v.get("ghost_then"):
            mesh.cell_data["after"] = np.arange(n) * 1.0
    return mesh


def _ugrid2(mesh, v, rs, poly=False):
    """Quads, some cut into triangles, some stored as polygons."""
    q = mesh.cast_to_unstructured_grid()
    conn = np.asarray(q.cell_connectivity).reshape((-1, 4))
    pts = np.array(q.points)
    style = v.get("style", "quad")
    cells, types, faces = [], [], []
    for i, c in enumerate(conn):
        s = style if style != "mix" else ("quad", "tri", "polygon")[rs.randint(3)]
        if s == "tri":
            for t in ([c[0], c[1], c[2]], [c[0], c[2], c[3]]):
                cells += [3, *t]
                types.append(pv.CellType.TRIANGLE)
                faces += [3, *t]
        elif s == "polygon":
            cells += [4, *c]
            types.append(pv.CellType.POLYGON)
            faces += [4, *c]
        elif s == "pixel":
            cells += [4, c[0], c[1], c[3], c[2]]
            types.append(pv.CellType.PIXEL)
            faces += [4, *c]
        else:
            cells += [4, *c]
            types.append(pv.CellType.QUAD)
            faces += [4, *c]
    if poly:
        return pv.PolyData(pts, faces=faces)
    return pv.UnstructuredGrid(np.array(cells), np.array(types, dtype=np.uint8), pts)


def _ugrid3(mesh, v, rs):
    q = mesh.cast_to_unstructured_grid()
    conn = np.asarray(q.cell_connectivity).reshape((-1, 8))
    pts = np.array(q.points)
    style = v.get("style", "hex")
    cells, types = [], []
    for c in conn:
        s = style if style != "mix" else ("hex", "wedge", "polyhedron")[rs.randint(3)]
        c = [int(x) for x in c]
        if s == "wedge":
            for w in ([c[0], c[1], c[2], c[4], c[5], c[6]], [c[0], c[2], c[3], c[4], c[6], c[7]]):
                cells += [6, *w]
                types.append(pv.CellType.WEDGE)
        elif s == "polyhedron":
            f = [[c[0], c[3], c[2], c[1]], [c[4], c[5], c[6], c[7]], [c[0], c[1], c[5], c[4]],
                 [c[1], c[2], c[6], c[5]], [c[2], c[3], c[7], c[6]], [c[0], c[4], c[7], c[3]]]
            flat = [6] + [x for g in f for x in (4, *g)]
            cells += [len(flat), *flat]
            types.append(pv.CellType.POLYHEDRON)
        elif s == "tet":
            for t in ([0, 1, 3, 4], [1, 2, 3, 6], [1, 4, 5, 6], [3, 4, 6, 7], [1, 3, 4, 6]):
                cells += [4, *(c[j] for j in t)]
                types.append(pv.CellType.TETRA)
        elif s == "pyramid":
            k = len(pts)
            pts = np.vstack((pts, pts[c].mean(axis=0)))
            for f in ([0, 1, 2, 3], [4, 7, 6, 5], [0, 4, 5, 1], [1, 5, 6, 2], [2, 6, 7, 3], [3, 7, 4, 0]):
                cells += [5, *(c[j] for j in f), k]
                types.append(pv.CellType.PYRAMID)
        elif s == "voxel":
            cells += [8, c[0], c[1], c[3], c[2], c[4], c[5], c[7], c[6]]
            types.append(pv.CellType.VOXEL)
        else:
            cells += [8, *c]
            types.append(pv.CellType.HEXAHEDRON)
    return pv.UnstructuredGrid(np.array(cells), np.array(types, dtype=np.uint8), pts)


def _frame(v):
    n = v["n"]
    mask = np.ones((n, n), dtype=bool)
    for i0, j0, i1, j1 in v.get("holes", []):
        mask[i0:i1, j0:j1] = False
    for i0, j0, i1, j1 in v.get("islands", []):
        mask[i0:i1, j0:j1] = True
    x = np.arange(n + 1, dtype=float)
    X, Y = np.meshgrid(x, x, indexing="ij")
    g = pv.StructuredGrid(X[:, :, None], Y[:, :, None], np.zeros((n + 1, n + 1, 1))).cast_to_unstructured_grid()
    ids = np.flatnonzero(mask.ravel(order="F"))
    sub = g.extract_cells(ids)
    sub.clear_data()
    return sub


def _book(v):
    """Cells around a common edge, as the pages of a book."""
    n = v["n"]
    pts, cells, types = [[0.0, 0.0, 0.0], [0.0, 0.0, 1.0]], [], []
    for i in range(n):
        a = 2 * math.pi * i / (n + 2)
        k = len(pts)
        x, y = math.cos(a), math.sin(a)
        pts += [[x, y, 1.0], [x, y, 0.0]]
        if v.get("dim", 2) == 2:
            cells += [4, 0, 1, k, k + 1]
            types.append(pv.CellType.QUAD)
        elif i:
            cells += [6, 0, k - 1, k + 1, 1, k - 2, k]
            types.append(pv.CellType.WEDGE)
    return pv.UnstructuredGrid(np.array(cells), np.array(types, dtype=np.uint8), np.array(pts))


def _prism(v):
    """Layers of prisms on a polygon, as polyhedra, around a column of them."""
    n, cols = v["n"], v.get("cols", 1)
    pts, cells, types = [], [], []
    for z in range(cols + 1):
        for i in range(n):
            a = 2 * math.pi * i / n
            pts.append([round(math.cos(a) * 64) / 64 * 2, round(math.sin(a) * 64) / 64 * 2, float(z)])
    for z in range(cols):
        lo, hi = [z * n + i for i in range(n)], [(z + 1) * n + i for i in range(n)]
        f = [lo[::-1], hi] + [[lo[i], lo[(i + 1) % n], hi[(i + 1) % n], hi[i]] for i in range(n)]
        flat = [len(f)] + [x for g in f for x in (len(g), *g)]
        cells += [len(flat), *flat]
        types.append(pv.CellType.POLYHEDRON)
    return pv.UnstructuredGrid(np.array(cells), np.array(types, dtype=np.uint8), np.array(pts))


def _mixed(v):
    """A hexahedron, a quad, a triangle, a line, a vertex and a convex point set."""
    pts = np.array(
        [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1],
         [2, 0, 0], [2, 1, 0], [3, 0, 0], [4, 0, 0]], dtype=float)
    parts = [([8, 0, 1, 2, 3, 4, 5, 6, 7], 12), ([4, 1, 8, 9, 2], 9), ([3, 8, 10, 9], 5), ([2, 10, 11], 3), ([1, 11], 1), ([4, 5, 8, 9, 10], 41)]
    which = v.get("parts", [0, 1, 2, 3, 4])
    cells, types = [], []
    for i in which:
        cells += parts[i][0]
        types.append(parts[i][1])
    return pv.UnstructuredGrid(np.array(cells), np.array(types, dtype=np.uint8), pts)


# ------------------------------------------------------------------ generation
def dy(rng, lo, hi, den=16):
    """Dyadic number in [lo, hi]."""
    return rng.randint(int(math.ceil(lo * den)), int(math.floor(hi * den))) / den


def gen_groups(rng, kmax=3, weird=True):
    k = rng.randint(1, kmax)
    names = rng.sample(NAMES, k)
    nums = list(range(k))
    if weird and rng.random() < 0.5:
        nums = rng.sample(range(0, 9), k)
    return {"names": names, "nums": nums, "assign": [rng.randrange(k) for _ in range(rng.randint(1, 5))]}


def decorate(rng, m, groups=True, data=True, ghost=True, weird=True):
    if groups and rng.random() < 0.5:
        m["groups"] = gen_groups(rng, weird=weird)
    if data and rng.random() < 0.4:
        m["data"] = [[n, rng.choice([1, 1, 3])] for n in rng.sample(["poro", "perm", "age"], rng.randint(1, 2))]
    if data and rng.random() < 0.3:
        m["pdata"] = [[n, rng.choice([1, 1, 3])] for n in rng.sample(["head", "temp"], rng.randint(1, 2))]
    if ghost and rng.random() < 0.4:
        m["ghost"] = sorted({rng.randrange(64) for _ in range(rng.randint(1, 2))})
        m["ghost_then"] = rng.random() < 0.5
    if data and rng.random() < 0.2:
        m["extra_user"] = "keep me"
    return m


def gen_surface(rng, kinds=("rect", "image", "rectilinear", "ugrid2"), plane=None, nmax=4, **deco):
    k = rng.choice(kinds)
    m = {"$": "mesh", "k": k, "n": [rng.randint(1, nmax), rng.randint(1, nmax)], "seed": rng.randrange(10**6),
         "d": [rng.choice([0.5, 1.0, 2.0]), rng.choice([0.5, 1.0, 2.0])], "plane": plane or rng.choice(["xy", "xy", "xz", "yz"])}
    if k not in ("image", "rectilinear") and rng.random() < 0.5:
        m["jit"] = 1.0
    if k in ("ugrid2", "poly2"):
        m["style"] = rng.choice(["quad", "tri", "polygon", "mix", "pixel"])
    if rng.random() < 0.3:
        m["o"] = [dy(rng, -4, 4), dy(rng, -4, 4), dy(rng, -4, 4)]
    return decorate(rng, m, **deco)


def gen_volume(rng, kinds=("vol", "ugrid3", "image3"), nmax=3, **deco):
    k = rng.choice(kinds)
    m = {"$": "mesh", "k": k, "n": [rng.randint(1, nmax) for _ in range(3)], "seed": rng.randrange(10**6)}
    if k != "image3" and rng.random() < 0.5:
        m["jit"] = 1.0
    if k == "ugrid3":
        m["style"] = rng.choice(["hex", "wedge", "polyhedron", "mix", "tet", "voxel"])
    return decorate(rng, m, **deco)


def gen_line_pts(rng, n=None, axis=0, monotone=True, other=True):
    n = n or rng.randint(2, 6)
    p = [[0.0, 0.0, 0.0] for _ in range(n)]
    t = dy(rng, -2, 2)
    for q in p:
        q[axis] = t
        t += dy(rng, 0.25, 1.5) if monotone else dy(rng, -1.5, 1.5) or 0.5
        if other:
            q[(axis + 1) % 3] = dy(rng, -0.5, 0.5)
    return p


def gen_line(rng, axis=0, n=None, other=True, deco=True):
    m = {"$": "mesh", "k": "line", "p": gen_line_pts(rng, n, axis, other=other), "seed": rng.randrange(10**6), "poly": rng.random() < 0.3}
    if deco and not m["poly"]:
        decorate(rng, m, ghost=False)
    return m


def gen_lines(rng):
    return {"$": "mesh", "k": "lines", "p": [gen_line_pts(rng, None, 0) for _ in range(rng.randint(1, 3))], "seed": rng.randrange(10**6),
            "data": [[n, 1] for n in rng.sample(["poro", "perm", "age", "zone"], rng.randint(0, 3))],
            "pdata": [[n, 1] for n in rng.sample(["head", "temp", "depth"], rng.randint(0, 2))]}


def gen_polygon_pts(rng, n=None, r=1.0, c=(0.0, 0.0), z=False):
    """Star-shaped (hence simple) polygon."""
    n = n or rng.randint(3, 7)
    out = []
    for i in range(n):
        a = 2 * math.pi * (i + rng.uniform(-0.3, 0.3)) / n
        q = r * rng.uniform(0.6, 1.0)
        out.append([round(c[0] + q * math.cos(a), 4), round(c[1] + q * math.sin(a), 4)] + ([0.0] if z else []))
    return out


def rng_of(seed, name):
    return random.Random(f"{seed}/{name}")
