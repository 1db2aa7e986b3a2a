"""Lasso selection returns exactly what is inside the drawn polygon."""
import itertools

from ..core import Outcome, generic_shrinks
from ..fp import diff, fp
from ..gui import SimPlotter
from ..recipes import gen_polygon_pts, gen_surface, gen_volume, realize
from ..world import np, pvg

ID = "C08"
VIEWS = ["xy", "xz", "yz", "yx", "zx", "zy"]
PLANE = {"xy": (0, 1), "yx": (0, 1), "xz": (0, 2), "zx": (0, 2), "yz": (1, 2), "zy": (1, 2)}


def gen(rng, index, tier):
    view = rng.choice(VIEWS[:3] * 2 + VIEWS)
    u, v = PLANE[view]
    if rng.random() < 0.7:
        mesh = gen_surface(rng, plane={(0, 1): "xy", (0, 2): "xz", (1, 2): "yz"}[u, v] if rng.random() < 0.7 else None, nmax=4)
        if mesh["k"] in ("rect", "ugrid2") and rng.random() < 0.4:
            mesh["relief"] = 0.5
    else:
        mesh = gen_volume(rng, nmax=3)
    m = realize(mesh)
    b = [m.bounds[i] for i in range(6)]
    c = [(b[2 * i] + b[2 * i + 1]) / 2 + rng.uniform(-0.3, 0.3) * (b[2 * i + 1] - b[2 * i]) for i in range(3)]
    r = max(b[2 * u + 1] - b[2 * u], b[2 * v + 1] - b[2 * v], 0.5) * rng.uniform(0.15, 0.9)
    n = rng.choices([0, 3, 4, 5, 6, 8], [1, 3, 3, 3, 3, 3])[0]
    pts = gen_polygon_pts(rng, n, r=r, c=(c[u], c[v])) if n else []
    if rng.random() < 0.4:
        pts = pts[::-1]
    if n >= 5 and rng.random() < 0.3:
        # two lobes that meet at a corner: the pen passes there twice
        mid = [round(c[u], 4), round(c[v], 4)]
        pts = [*pts[:n // 2 + 1], mid, *pts[n // 2 + 1:], mid]
    steps = []
    for p in pts:
        q = [round(rng.uniform(-3, 3), 3) for _ in range(3)]
        q[u], q[v] = p
        while rng.random() < 0.15:
            steps.append({"e": "click", "side": "l", "p": [round(rng.uniform(-3, 3), 3) for _ in range(3)]})
        ev = {"e": "click", "side": "r", "p": q, "array": rng.random() < 0.5}
        if rng.random() < 0.12:
            ev["fail"] = rng.randrange(3)
        steps.append(ev)
    sc = {"mesh": mesh, "view": rng.choice(["", "", "-"]) + view, "mode": rng.choice(["cell", "cell", "point"]), "polygon": rng.random() < 0.6, "steps": steps}
    if rng.random() < 0.05:
        sc["view"] = rng.choice(["xw", "-nonsense", "abc"])
    return sc


def inside(poly, pts):
    """(in, near): crossing number, and points too close to an edge to tell."""
    x, y = pts[:, 0], pts[:, 1]
    res = np.zeros(len(pts), dtype=bool)
    near = np.zeros(len(pts), dtype=bool)
    n = len(poly)
    for i in range(n):
        (x0, y0), (x1, y1) = poly[i], poly[(i + 1) % n]
        cond = (y0 > y) != (y1 > y)
        with np.errstate(all="ignore"):
            t = (x1 - x0) * (y - y0) / (y1 - y0) + x0
        res ^= cond & (x < t)
        d = np.array([x1 - x0, y1 - y0])
        L = float(d @ d)
        s = np.clip(((x - x0) * d[0] + (y - y0) * d[1]) / L, 0, 1) if L else np.zeros(len(pts))
        near |= np.hypot(x - x0 - s * d[0], y - y0 - s * d[1]) < 1e-5
    return res, near


def execute(sc):
    out = Outcome()
    mesh = realize(sc["mesh"])
    pic = fp(mesh)
    events = [dict(ev) for ev in sc["steps"]]
    right = [ev for ev in events if ev["side"] == "r"]
    if 0 < len(right) < 3:
        return out  # not a polygon
    plotter = SimPlotter(events)
    view = sc["view"].lstrip("-")
    kw = {"return_polygon": True} if sc["polygon"] else {}
    try:
        got = pvg.interactive_lasso_selection(mesh, plotter=plotter, view=sc["view"], preference=sc["mode"], **kw)
    except ValueError as exc:
        out.event("ValueError")
        if view in VIEWS and not (sum(not ev.get("_fired") for ev in right) < 3):
            out.fail("raised", f"interactive_lasso_selection raised {exc!r}")
        elif view not in VIEWS:
            out.count("probe:unknown view rejected")
            out.nontrivial = True
        return out
    except Exception as exc:
        out.fail("raised", f"interactive_lasso_selection raised {exc!r}")
        return out
    out.count("steps", len(events))
    if view not in VIEWS:
        out.fail("view", f"view {sc['view']!r} was accepted")
        return out
    if plotter.views != [(view, sc["view"].startswith("-"))]:
        out.fail("view", f"view {sc['view']!r} was asked for, {plotter.views} shown")
        return out
    u, v = PLANE[view]
    verts = [(ev["p"][u], ev["p"][v]) for ev in right]
    failed = [i for i, ev in enumerate(right) if ev.get("_fired")]
    for i in failed:
        out.count(f"fault:{right[i]['_fired']} fails")
    out.count("fault:left click", sum(ev["side"] == "l" for ev in events))
    ids, poly = got if sc["polygon"] else (got, None)
    ids = np.asarray(ids)
    ref = realize(sc["mesh"])
    ref.cell_data.pop("vtkGhostType", None)
    pts = np.asarray(ref.cell_centers().points if sc["mode"] == "cell" else ref.points, dtype=float)[:, [u, v]]
    # a click on which rendering failed may count or not
    options = []
    for k in range(len(failed) + 1):
        for drop in itertools.combinations(failed, k):
            options.append([p for i, p in enumerate(verts) if i not in drop])
    if len(options) > 16:
        return out
    if poly is not None:
        ring = _ring([(float(a), float(b)) for a, b in (poly.exterior.coords if len(verts) else [])])
        match = [o for o in options if len(_ring(o)) == len(ring) and np.allclose(_ring(o), ring, atol=1e-5)] if len(ring) else [o for o in options if not o]
        if not match:
            out.fail("polygon", f"polygon {verts} was clicked (rendering failed on {failed}), {ring} returned")
            return out
        options = match
    n = len(pts)
    mask = np.zeros(n, dtype=bool)
    if ids.ndim != 1 or (ids.size and (ids.min() < 0 or ids.max() >= n)) or (np.diff(ids) <= 0).any():
        out.fail("ids", f"ids are not increasing ids of the mesh: {ids.tolist()}")
        return out
    mask[ids.astype(int)] = True
    out.event(sc["mode"], view, ids.tolist())
    out.sig(sc["mode"], sc["view"], n, tuple(ids.tolist()), len(verts))
    out.nontrivial = True
    out.count("probe:selection compared")
    for o in options:
        if len(o) == 0:
            if not mask.any():
                break
            continue
        res, near = inside(o, pts)
        if not ((res != mask) & ~near).any():
            break
    else:
        res, near = inside(options[0], pts) if len(options[0]) else (np.zeros(n, bool), np.zeros(n, bool))
        wrong = np.flatnonzero((res != mask) & ~near)
        out.fail("selection", f"view {sc['view']}, polygon {verts}: {sc['mode']}s {ids.tolist()} returned, {np.flatnonzero(res).tolist()} are inside ({wrong.tolist()} wrong)")
    d = diff(pic, fp(mesh), exact=True)
    if d and not out.violation:
        out.fail("mesh", f"the mesh changed: {d}")
    return out


def _ring(pts):
    """The polygon, whatever the way it is closed."""
    out = [p for i, p in enumerate(pts) if i == 0 or not np.allclose(p, pts[i - 1], rtol=0.0, atol=1e-9)]
    while len(out) > 1 and np.allclose(out[0], out[-1], rtol=0.0, atol=1e-9):
        out.pop()
    return out


shrinks = generic_shrinks
