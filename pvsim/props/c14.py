"""VoronoiMesh2D: the domain shared among the sites asked for, each point to the closest one."""
import math

from shapely.geometry import Polygon
from shapely.ops import unary_union

from .. import msim
from ..builders import gen_generate
from ..geo import apart, cells
from ..model import assign, groups_of, own_groups
from ..msim import Ambiguous
from ..recipes import NAMES, make_mesh, realize
from ..world import np, pv

ID = "C14"
EPS = 2e-3


# ------------------------------------------------------------------ generation
def gen(rng, index, tier):
    plain = rng.random() < 0.25
    sc = msim.gen(rng, ["VoronoiMesh2D"], tweak=(lambda r, s: s["init"].update(axis=2) or _flat(s)) if plain else None)
    if plain:
        for st in sc["steps"]:
            if st["op"] == "add_circle" and not st.get("bad"):
                st["a"]["plain"] = True
                if rng.random() < 0.3 and "center" in st["a"]:
                    c = st["a"]["center"]
                    c = c["v"] if isinstance(c, dict) else c
                    st["a"]["center"] = c[:2] if rng.random() < 0.5 else [c[0], c[1], rng.choice([1.0, -2.5])]
    sc["final"] = gen_generate(rng, {"cls": "VoronoiMesh2D"})
    if rng.random() < 0.15:
        _crowd(rng, sc)
    return sc


def _crowd(rng, sc):
    """A site hemmed in by others: its region is smaller than the minimum length."""
    m = make_mesh(sc["spec"]["init"]["mesh"])
    axis = sc["spec"]["init"].get("axis", 2)
    u, v = [i for i in range(3) if i != axis]
    lo, hi = m.points.min(axis=0), m.points.max(axis=0)
    c = [0.0, 0.0, 0.0]
    for i in (u, v):
        c[i] = round(float(lo[i]) + rng.uniform(0.2, 0.8) * float(hi[i] - lo[i]), 3)
    eps, n, t0 = rng.choice([2e-4, 4e-4]), rng.choice([3, 4, 4, 5]), rng.uniform(0, 6)
    ring = []
    for k in range(n):
        q = list(c)
        q[u] += eps * math.cos(t0 + 2 * math.pi * k / n)
        q[v] += eps * math.sin(t0 + 2 * math.pi * k / n)
        ring.append(q)
    adds = [{"op": "add", "a": {"mesh_or_points": [c], "group": "well", "priority": rng.randint(1, 4)}},
            {"op": "add", "a": {"mesh_or_points": ring, "group": rng.choice(NAMES), "priority": rng.randint(1, 4)}}]
    if rng.random() < 0.5:
        adds.reverse()
    for a in adds:
        sc["steps"].insert(rng.randint(0, len(sc["steps"])), a)
    sc["final"]["a"]["min_length"] = rng.choice([2e-3, 4e-3])


def _flat(spec):
    m = spec["init"]["mesh"]
    m["plane"] = "xy"
    r = make_mesh(m)
    b = r.bounds
    spec["bounds"] = [round(float(x), 6) for x in (b.x_min, b.x_max, b.y_min, b.y_max, b.z_min, b.z_max)]


# ------------------------------------------------------------------ model
def _levels(resolution):
    n = 1 if resolution is None else resolution
    return [i / n for i in range(n + 1)] if isinstance(n, int) else sorted(float(x) for x in n)


class Item:
    def __init__(self, polys, centers, names, priority):
        self.polys, self.centers, self.names, self.priority = polys, np.asarray(centers, dtype=float).reshape((-1, 2)), names, priority


class Model:
    def __init__(self, spec, accepted):
        init = spec["init"]
        self.axis = init.get("axis", 2)
        self.uv = [i for i in range(3) if i != self.axis]
        self.default = init.get("default_group") or "default"
        self.ignored = init.get("ignore_groups") or []
        self.circles = []
        m = make_mesh(init["mesh"])
        p = np.array(m.points, dtype=float)[:, self.uv]
        self.lo, self.hi = p.min(axis=0), p.max(axis=0)
        self.area = float(np.prod(self.hi - self.lo))
        if init.get("preference", "cell") == "cell":
            bg = self._centers(m)
            names = assign(own_groups(m), m.n_cells, None, self.ignored, self.default)
        else:
            bg, names = p, [self.default] * len(p)
        items = []
        for op in accepted:
            items += getattr(self, op["op"])(**realize(op["a"]))
        sites = [[c, n, -math.inf, True] for c, n in zip(bg, names)]
        for it in sorted(items, key=lambda x: abs(x.priority)):
            inside = [self._inside(c) for c in it.centers]
            if not any(inside):
                continue
            pr = abs(it.priority)
            if it.polys is None:
                keep = [c for c, k in zip(it.centers, inside) if k]
                for s in sites:
                    d = min(np.linalg.norm(s[0] - c) for c in keep)
                    if d < 2e-5 and (s[3] or d > 0):
                        raise Ambiguous("coincident sites")
            else:
                cover = unary_union([q for q, k in zip(it.polys, inside) if k])
                for s in sites:
                    pt = _Point(s[0])
                    if not (s[2] <= pr if it.priority >= 0 else s[2] < pr):
                        continue
                    if cover.boundary.distance(pt) < EPS and s[3]:
                        raise Ambiguous("site on the edge of an item")
                    if cover.contains(pt):
                        s[3] = False
            sites += [[c, n, pr, True] for c, n, k in zip(it.centers, it.names, inside) if k]
        act = [s for s in sites if s[3]]
        self.sites = np.array([s[0] for s in act])
        self.names = [s[1] for s in act]

    def _inside(self, c):
        d = np.minimum(c - self.lo, self.hi - c).min()
        if abs(d) < EPS:
            raise Ambiguous("site on the edge of the domain")
        return d > 0

    def _centers(self, m):
        m = m.copy()
        if isinstance(m, (pv.ImageData, pv.RectilinearGrid)):
            m = m.cast_to_structured_grid()
        m.points[:, self.axis] = 0.0
        return np.array(m.cell_centers().points, dtype=float)[:, self.uv]

    def add(self, mesh_or_points, priority=0, group=None):
        if isinstance(mesh_or_points, pv.DataSet) and mesh_or_points.n_cells and not isinstance(mesh_or_points, pv.PolyData):
            m = mesh_or_points
            names = assign(own_groups(m), m.n_cells, group, self.ignored, self.default)
            return [Item([_poly(p[:, self.uv]) for _, p in cells(m)], self._centers(m), names, priority)]
        p = mesh_or_points.points if isinstance(mesh_or_points, pv.DataSet) else np.atleast_2d(mesh_or_points)
        p = np.asarray(p, dtype=float)[:, self.uv]
        return [Item(None, p, [group or self.default] * len(p), priority)]

    def add_circle(self, radius, constraint_radius=None, resolution=None, center=None, plain=False, priority=0, group=None):
        rc = 1.5 * radius if constraint_radius is None else constraint_radius
        c = np.array(center if center is not None else [0.0, 0.0], dtype=float)[:2]
        ang = [2 * math.pi * t for t in _levels(resolution)]
        n = len(ang) - 1

        def ring(r):
            return [c + r * np.array([math.cos(t), math.sin(t)]) for t in ang]

        def fan(r):
            q = ring(r)
            return [[c, a, b] for a, b in zip(q[:-1], q[1:])]

        def annulus(r0, r1):
            p, q = ring(r0), ring(r1)
            return [[p[i], q[i], q[i + 1], p[i + 1]] for i in range(n)]

        dr = rc - radius
        if plain:
            self.circles.append((c, radius))
        if abs(dr) < 1e-12:
            return [self._cells(fan(radius), group, priority)]
        return [self._cells(fan(radius - dr) + annulus(radius - dr, radius), group, priority), self._cells(annulus(radius, radius + dr), None, 0)]

    def add_polyline(self, mesh_or_points, width, preference="cell", padding=None, constraint=1, resolution=None, priority=None, group=None):
        if isinstance(mesh_or_points, pv.PolyData):
            lines, out = [], mesh_or_points.lines
            i = 0
            while i < len(out):
                lines.append(mesh_or_points.points[out[i + 1:i + 1 + out[i]]])
                i += out[i] + 1
        else:
            lines = [np.array(mesh_or_points, dtype=float)]
        start, end = (constraint, constraint) if isinstance(constraint, int) else constraint
        t = _levels(resolution)
        across = [2 * t[0] - t[1], *t, 2 * t[-1] - t[-2]]
        pad = 0.5 * width if padding is None else padding
        res = []
        for line in lines:
            p = [np.asarray(q, dtype=float) for q in np.asarray(line)[:, self.uv]]
            if preference == "cell":
                p = [p[0] + pad * _unit(p[0] - p[1])] + [0.5 * (a + b) for a, b in zip(p[:-1], p[1:])] + [p[-1] + pad * _unit(p[-1] - p[-2])]
            first, last = p[1] - p[0], p[-1] - p[-2]
            p = [p[0] - (k + 1) * first for k in reversed(range(start))] + p + [p[-1] + (k + 1) * last for k in range(end)]
            m = len(p)
            grid = []
            for i in range(m):
                f = p[i + 1] - p[i] if i + 1 < m else p[i] - p[i - 1]
                b = p[i] - p[i - 1] if i > 0 else p[i + 1] - p[i]
                t = 0.5 * (f + b)
                nrm = 0.5 * width * _unit(np.array([-t[1], t[0]]))
                grid.append([p[i] - nrm + x * 2.0 * nrm for x in across])
            inner, outer = [], []
            for i in range(m - 1):
                for j in range(len(across) - 1):
                    q = [grid[i][j], grid[i + 1][j], grid[i + 1][j + 1], grid[i][j + 1]]
                    edge = i < start or i >= m - 1 - end or j == 0 or j == len(across) - 2
                    (outer if edge else inner).append(q)
            res += [self._cells(inner, group, priority or 0), self._cells(outer, None, 0)]
        return res

    def _cells(self, polys, group, priority):
        return Item([_poly(np.array(q)) for q in polys], [np.mean(q, axis=0) for q in polys], [group or self.default] * len(polys), priority)

    # ------------------------------------------------------------------ regions
    def _slender(self, ml):
        """Regions neither clearly larger nor clearly smaller than the minimum length."""
        for q in self.regions():
            if q.is_empty:
                return True
            x0, y0, x1, y1 = q.bounds
            diam = math.hypot(x1 - x0, y1 - y0)
            if not (q.area > 0.01 * diam or (diam < 0.8 * ml or not ml) and diam > 1e-5):
                return True
        return False

    def lost(self, regs, ml):
        """Sites whose region is smaller than the minimum length."""
        return {i for i, q in enumerate(regs) if max(q.bounds[2] - q.bounds[0], q.bounds[3] - q.bounds[1]) < ml} if ml and not any(q.is_empty for q in regs) else set()

    def check_sites(self, ml=1e-4):
        s = self.sites
        if len(s) < 2:
            raise Ambiguous("too few sites")
        d = np.linalg.norm(s[:, None] - s[None], axis=2) + np.eye(len(s)) * 9.0
        if d.min() < 1e-4:
            raise Ambiguous("sites too close")
        if d.min() < 0.02 and self._slender(ml):
            raise Ambiguous("sites too close")
        if len(s) < 4 or np.linalg.svd(s - s.mean(axis=0))[1][1] < 0.05:
            raise Ambiguous("too few sites")

    def regions(self):
        (x0, y0), (x1, y1) = self.lo, self.hi
        box = [np.array(q) for q in ((x0, y0), (x1, y0), (x1, y1), (x0, y1))]
        out = []
        for i, s in enumerate(self.sites):
            poly = box
            order = np.argsort(np.linalg.norm(self.sites - s, axis=1))
            for j in order:
                if j == i:
                    continue
                poly = _clip(poly, 0.5 * (s + self.sites[j]), self.sites[j] - s)
            out.append(Polygon(poly) if len(poly) > 2 else Polygon())
        return out


def _Point(p):
    from shapely.geometry import Point

    return Point(float(p[0]), float(p[1]))


def _poly(p):
    q = Polygon(p)
    if not q.is_valid or q.area < 1e-6:
        raise Ambiguous("degenerate item cell")
    return q


def _unit(v):
    n = np.linalg.norm(v)
    if n < 1e-6:
        raise Ambiguous("line that turns back")
    return v / n


def _centers(q):
    """Points VTK may take as the centre of a polygon: its centroid, and the middle of it along any of its sides."""
    if q.is_empty:
        return []
    p = np.array(q.exterior.coords)
    # corners that are (almost) the same may or may not be joined
    joined = [a for a, b in zip(p[:-1], p[1:]) if np.linalg.norm(b - a) > 1e-3]
    out = [np.array(q.centroid.coords[0]), p[:-1].mean(axis=0), np.mean(joined or p, axis=0)]
    dirs = [_unit(b - a) for a, b in zip(p[:-1], p[1:]) if np.linalg.norm(b - a) > 1e-9]
    if len(joined) < len(p) - 1:
        dirs += [np.array([math.cos(t), math.sin(t)]) for t in np.linspace(0.0, math.pi, 12, endpoint=False)]
    for u in dirs:
        v = np.array([-u[1], u[0]])
        s, t = p @ u, p @ v
        out.append(0.5 * (s.min() + s.max()) * u + 0.5 * (t.min() + t.max()) * v)
    return out


def _clip(poly, mid, normal):
    """Part of a convex polygon on the side of the half-plane away from the normal."""
    out = []
    side = [float((p - mid) @ normal) for p in poly]
    n = len(poly)
    for k in range(n):
        a, b, sa, sb = poly[k], poly[(k + 1) % n], side[k], side[(k + 1) % n]
        if sa <= 0:
            out.append(a)
        if (sa < 0 < sb) or (sb < 0 < sa):
            out.append(a + (b - a) * sa / (sa - sb))
    return out


def plain_circles(m, regs):
    """Cells fused into one by the plain circles."""
    fused, owner = {}, {}
    for k, (c, r) in enumerate(m.circles):
        mine = []
        for i, q in enumerate(regs):
            d = [math.dist(c, x) for x in _centers(q)]
            if d and max(d) < r * 0.995:
                mine.append(i)
            elif d and min(d) < r * 1.005:
                raise Ambiguous("cell on the edge of a plain circle")
        for i in mine:
            if i in owner:
                raise Ambiguous("overlapping plain circles")
            owner[i] = k
        fused[k] = mine
    if any(len({m.names[i] for i in v}) != 1 for v in fused.values()):
        raise Ambiguous("mixed plain circle")
    union = {k: unary_union([regs[i].buffer(1e-9) for i in v]) for k, v in fused.items()}
    if any(u.geom_type != "Polygon" or len(u.interiors) or u.buffer(-0.01).geom_type != "Polygon" for u in union.values()):
        raise Ambiguous("plain circle in pieces")
    return fused, owner, union


# ------------------------------------------------------------------ comparison
def check(spec, accepted, args, mesh):
    m = Model(spec, accepted)
    ml = args.get("min_length", 1e-4)
    m.check_sites(ml)
    # next to the origin: areas are accurate there
    o = m.lo.copy()
    m.lo, m.hi, m.sites, m.circles = m.lo - o, m.hi - o, m.sites - o, [(c - o, r) for c, r in m.circles]
    regs = m.regions()
    lost = m.lost(regs, ml)
    if lost:
        regs = [q for i, q in enumerate(regs) if i not in lost]
        m.sites = np.delete(m.sites, sorted(lost), axis=0)
        m.names = [x for i, x in enumerate(m.names) if i not in lost]
    names, msg = groups_of(mesh)
    if msg:
        return msg
    polys = [p[:, m.uv] - o for _, p in cells(mesh)]
    off = max((float(np.abs(p[:, m.axis]).max()) for _, p in cells(mesh)), default=0.0)
    if off > 1e-9:
        return f"the mesh is not in the plane: {off}"
    areas = [0.5 * float(np.sum(p[:, 0] * np.roll(p[:, 1], -1) - np.roll(p[:, 0], -1) * p[:, 1])) for p in polys]
    fused, owner, union = plain_circles(m, regs)
    slack = 6 * ml + 1e-6
    if abs(sum(map(abs, areas)) - m.area) > slack * (len(regs) + 4):
        return f"the cells cover {sum(map(abs, areas)):.6g} of {m.area:.6g}"
    n = len(regs) - len(owner) + len(fused)
    if mesh.n_cells != n:
        return f"{mesh.n_cells} cells instead of {n} for {len(regs)} sites"
    rep = np.column_stack([np.array(mesh.cell_data[k], dtype=float) for k in "XYZ"])
    if mesh.n_cells and np.abs(rep[:, m.axis]).max() > 1e-9:
        return "reported sites out of the plane"
    rep = rep[:, m.uv] - o
    seen = set()
    for i in range(mesh.n_cells):
        d = np.linalg.norm(m.sites - rep[i], axis=1)
        j = int(d.argmin())
        if d[j] > 1e-5:
            return f"cell {i} reports a site {rep[i].tolist()} that is not one"
        if j in owner:
            k = owner[j]
            key, q, what = ("fused", k), union[k], f"cell {i} (plain circle {k})"
        else:
            key, q, what = j, regs[j], f"cell {i} (site {np.round(m.sites[j], 4).tolist()})"
        if key in seen:
            return f"{what} appears twice"
        seen.add(key)
        p = Polygon(polys[i]) if len(polys[i]) > 2 else Polygon()
        if not p.is_valid:
            p = p.buffer(0)
        diff = apart(p, q)
        if diff > slack * (q.length + 1.0):
            return f"{what} is not the part of the domain closest to its site: {diff:.4g} of {q.area:.4g} differ"
        if names[i] != m.names[j]:
            return f"{what}: group {names[i]} instead of {m.names[j]}"
        if key == j and abs(areas[i]) > 1e-6 and (areas[i] > 0) != (args.get("orientation", "CCW") == "CCW"):
            return f"{what}: wrong orientation"
    return None


def ready(spec, accepted, args=None):
    try:
        m = Model(spec, accepted)
        m.check_sites((args or {}).get("min_length", 1e-4))
        if m.circles:
            plain_circles(m, m.regions())
    except Ambiguous:
        return None
    return True


def execute(sc):
    return msim.execute(sc, check, ready)


def shrinks(sc):
    yield from msim.shrinks(sc)
    for i, st in enumerate(sc["steps"]):
        for k in ("plain", "constraint", "preference", "padding", "constraint_radius"):
            if k in st.get("a", {}):
                yield {**sc, "steps": sc["steps"][:i] + [{**st, "a": {a: b for a, b in st["a"].items() if a != k}}] + sc["steps"][i + 1:]}
