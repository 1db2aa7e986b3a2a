"""Builders as simulated nodes: generation and application of histories of calls."""
from .recipes import NAMES, dy, gen_groups, gen_line, gen_surface, gen_volume, make_mesh, realize
from .world import np, pvg

CLASSES = ["MeshStack2D", "MeshStack3D", "MeshExtrude", "MeshMerge", "VoronoiMesh2D"]
AXIS_PLANE = {0: "yz", 1: "xz", 2: "xy"}
FAR = [[512000.0, 4200000.0, 1500.0], [-250000.0, 6500000.0, -300.0], [50000.0, 60000.0, 128.0], [4200000.0, 1024.0, 512000.0]]  # map projections


# ------------------------------------------------------------------ application
def new_builder(spec, pool=None):
    return getattr(pvg, spec["cls"])(**realize(spec["init"], pool))


def apply_op(builder, op, pool=None, args=None):
    args = realize(op.get("a", {}), pool) if args is None else args
    return getattr(builder, op["op"])(**args)


# ------------------------------------------------------------------ generation
def gen_builder(rng, cls=None):
    """A builder specification."""
    cls = cls or rng.choice(CLASSES)
    init = {}
    far = rng.choice(FAR) if rng.random() < 0.12 else None
    spec = {"cls": cls, "init": init, "far": far}
    if rng.random() < 0.3:
        init["default_group"] = rng.choice(NAMES + ["dflt"])

    if cls == "MeshStack2D":
        axis = rng.choice([0, 1, 2, 2])
        run = {0: 1, 1: 0, 2: 0}[axis]
        if rng.random() < 0.25:
            n = rng.randint(2, 6)
            t, v = dy(rng, -2, 2) + (far[(axis + 1) % 3] if far else 0.0), []
            for _ in range(n):
                v.append(t)
                t += dy(rng, 0.25, 1.5)
            init["mesh"] = v if rng.random() < 0.5 else {"$": "arr", "v": v}
        else:
            # a polyline: its cell data hold one value for all its segments
            m = gen_line(rng, axis=run, other=False, deco=False)
            m["poly"] = True
            if far:
                m["p"] = [[x + y for x, y in zip(q, far)] for q in m["p"]]
            if rng.random() < 0.4:
                m["data"] = [[n, rng.choice([1, 1, 3])] for n in rng.sample(["poro", "perm", "age"], rng.randint(1, 2))]
            if rng.random() < 0.3:
                m["pdata"] = [[n, rng.choice([1, 1, 3])] for n in rng.sample(["head", "temp"], rng.randint(1, 2))]
            init["mesh"] = m
        init["axis"] = axis
    elif cls == "MeshStack3D":
        axis = rng.choice([0, 1, 2, 2])
        m = gen_surface(rng, plane=AXIS_PLANE[axis], ghost=False)
        if m["k"] in ("rect", "ugrid2") and rng.random() < 0.3:
            m["relief"] = 0.5
        init["mesh"], init["axis"] = m, axis
    elif cls == "MeshExtrude":
        m = gen_surface(rng, ghost=False)
        init["mesh"] = m
        if rng.random() < 0.3:
            init["scale"] = rng.choice([0.5, 1.5, 2.0])
        if rng.random() < 0.3:
            init["angle"] = rng.choice([30.0, 45.0, 90.0, -60.0])
    elif cls == "VoronoiMesh2D":
        axis = rng.choice([2, 2, 2, 0, 1])
        m = gen_surface(rng, kinds=("rect", "rect", "ugrid2"), plane=AXIS_PLANE[axis], ghost=False, nmax=5)
        m["n"] = [max(2, x) for x in m["n"]]
        m["d"] = [1.0, 1.0]
        m.pop("o", None)
        if rng.random() < 0.4:
            m["o"] = [dy(rng, -8, 8), dy(rng, -8, 8), dy(rng, -8, 8)]
        if m["k"] == "ugrid2":
            m["style"] = rng.choice(["quad", "tri", "mix"])
        init["mesh"], init["axis"] = m, axis
        init["preference"] = "cell" if rng.random() < 0.8 else "point"
        if init["preference"] == "point":
            m.pop("groups", None)
    if far and cls in ("MeshStack3D", "MeshExtrude", "VoronoiMesh2D"):
        m["o"] = [x + y for x, y in zip(m.get("o", (0.0, 0.0, 0.0)), far)]
    if cls.startswith("MeshStack") and rng.random() < 0.3:
        init["bottom_up"] = False
    m = init.get("mesh")
    names = m["groups"]["names"] if isinstance(m, dict) and m.get("groups") else []
    if rng.random() < 0.3:
        init["ignore_groups"] = rng.sample(NAMES, 1) if not names or rng.random() < 0.5 else [rng.choice(names)]
    spec["names"] = names
    if isinstance(m, dict) and m.get("$") == "mesh":
        r = make_mesh(m)
        spec["n_cells"] = int(r.n_cells)
        b = r.bounds
        spec["bounds"] = [round(float(x), 6) for x in (b.x_min, b.x_max, b.y_min, b.y_max, b.z_min, b.z_max)]
        if cls == "MeshStack2D":
            spec["n_cells"] = len(m["p"]) - 1
    elif cls == "MeshStack2D":
        v = m["v"] if isinstance(m, dict) else m
        spec["n_cells"] = len(v) - 1
        b = [0.0] * 6
        k = (init["axis"] + 1) % 3
        b[2 * k], b[2 * k + 1] = v[0], v[-1]
        spec["bounds"] = b
    return spec


def gen_group_arg(rng, spec, kind=None):
    """Group argument: name or mapping."""
    n, names = spec["n_cells"], spec["names"]
    ignored = spec["init"].get("ignore_groups", [])
    if rng.random() < 0.45:
        return rng.choice(NAMES)
    out = {}
    for _ in range(rng.randint(1, 2)):
        key = rng.choice(NAMES)
        ids = sorted({rng.randrange(n) for _ in range(rng.randint(1, max(1, n)))})
        c = rng.random()
        usable = [x for x in names if x not in ignored] or []
        if usable and c < 0.35:
            v = rng.choice(usable)
            v = "~" + v if rng.random() < 0.4 else v
            if rng.random() < 0.4:
                v = [v] + ([rng.choice(usable)] if rng.random() < 0.5 else [])
        elif c < 0.6:
            v = {"$": "gfn", "ids": ids}
            if rng.random() < 0.3:
                v["as"] = rng.choice(["ids", "list"])
        elif c < 0.8:
            v = {"$": "arr", "v": ids, "dtype": rng.choice(["int", "int", "uint32", "int16"])}
            v = ids if rng.random() < 0.2 else v
        else:
            v = {"$": "arr", "v": [i in ids for i in range(n)], "dtype": "bool"}
            v = v["v"] if rng.random() < 0.2 else v
        if rng.random() < 0.15:
            key = "~" + key
        out[key] = v
    return out


def gen_resolution(rng):
    c = rng.random()
    if c < 0.25:
        return None
    if c < 0.8:
        return rng.choices([0, 1, 2, 3, 4, 7], [2, 7, 7, 7, 7, 2])[0]
    v = sorted({0.0, 1.0, *(dy(rng, 0.1, 0.9) for _ in range(rng.randint(1, 3)))})
    if rng.random() < 0.3:
        rng.shuffle(v)
    return v if rng.random() < 0.5 else {"$": "arr", "v": v}


def gen_op(rng, spec, n_items, bad=0.0):
    """One add-like call; *bad*: probability of a call that must be rejected."""
    cls = spec["cls"]
    op = {"op": "add", "a": {}}
    a = op["a"]
    wrong = rng.random() < bad

    if cls.startswith("MeshStack"):
        _gen_stack_op(rng, spec, n_items, op, wrong)
    elif cls == "MeshExtrude":
        plane = spec["init"]["mesh"].get("plane", "xy")
        ax = {"xy": 2, "xz": 1, "yz": 0}[plane]
        vec = [dy(rng, -0.25, 0.25) for _ in range(3)]
        vec[ax] = rng.choice([-1, 1]) * dy(rng, 0.5, 2.0) if n_items <= 1 else spec["_sign"] * dy(rng, 0.5, 2.0)
        spec["_sign"] = 1.0 if vec[ax] > 0 else -1.0
        a["vector"] = vec if rng.random() < 0.5 else {"$": "arr", "v": vec}
        _gen_sub(rng, a)
        if rng.random() < 0.25:
            a["scale"] = rng.choice([0.5, 0.75, 1.0, 1.5])
        if rng.random() < 0.3:
            a["angle"] = rng.choice([15.0, 45.0, -30.0, 0.0, 0])
        if rng.random() < 0.5:
            a["group"] = gen_group_arg(rng, spec)
        if wrong:
            a["vector"] = rng.choice([[1.0, 2.0], [1.0, 2.0, 3.0, 4.0], 3.0])
            op["bad"] = True
    elif cls == "MeshMerge":
        m = rng.choice([gen_surface, gen_volume])(rng, ghost=False)
        if m["k"] in ("rect", "ugrid2") and rng.random() < 0.3:
            m["k"], m["style"] = "poly2", rng.choice(["quad", "tri", "mix"])
        m["tag"] = 1000 * (n_items + 1)
        if spec.get("far"):
            m["o"] = [x + y for x, y in zip(m.get("o", (0.0, 0.0, 0.0)), spec["far"])]
        a["mesh"] = m
        if rng.random() < 0.5:
            a["group"] = rng.choice(NAMES)
        if wrong:
            a["mesh"] = rng.choice([None, 3.0, "mesh"])
            op["bad"] = True
    else:
        _gen_voronoi_op(rng, spec, op, wrong)
    return op


def _gen_sub(rng, a):
    r = gen_resolution(rng)
    if r is not None:
        a["resolution"] = r
    if rng.random() < 0.4:
        a["method"] = rng.choice(["constant", "log", "log_r"])


def _uv(spec):
    axis = spec["init"]["axis"]
    b = spec["bounds"]
    return [(i, b[2 * i], b[2 * i + 1]) for i in range(3) if i != axis]


def _gen_stack_op(rng, spec, n_items, op, wrong):
    a = op["a"]
    init = spec["init"]
    axis, up = init["axis"], init.get("bottom_up", True)
    sgn = 1.0 if up else -1.0
    level = sgn * n_items * 1.0 + dy(rng, -1.25, 1.25) * (1.0 if n_items else 0.0)
    three = spec["cls"] == "MeshStack3D"
    c = rng.random()
    transition = spec.get("_after_transition")
    if transition:
        # Gmsh meshes what lies between: the two lines must not cross
        level = sgn * (n_items + 5.0) + spec.get("_lift", 0.0)
        spec["_lift"] = sgn * 6.0 + spec.get("_lift", 0.0)
    elif "_lift" in spec:
        level += spec["_lift"]
    far = spec.get("far")
    if far:
        level += far[axis]
    coef = [dy(rng, -0.25, 0.25) if rng.random() < 0.6 else 0.0 for _ in range(3)]
    coef[axis] = 0.0
    if not three:
        for i in range(3):
            if i != _run_axis(spec):
                coef[i] = 0.0
    if three and c < 0.15 and not transition:
        op["op"] = "add_plane"
        ang = [rng.choice([-20.0, -10.0, 0.0, 5.0, 15.0]) for _ in range(3)]
        b = spec["bounds"]
        pt = [0.5 * (b[2 * i] + b[2 * i + 1]) for i in range(3)]
        pt[axis] = level
        a["angles"] = ang if rng.random() < 0.4 else {"$": "arr", "v": ang}
        a["point"] = pt if rng.random() < 0.4 else {"$": "arr", "v": pt}
    elif c < 0.4 and not transition:
        a["arg"] = level if n_items == 0 else rng.choice([-1, 1]) * (dy(rng, 0.25, 1.5) if rng.random() < 0.85 else 1 / 64)
    elif c < 0.75:
        f = {"$": "fn", "a": coef[0], "b": coef[1], "c": coef[2], "d": level}
        if not transition and rng.random() < 0.4:
            u, lo, hi = _uv(spec)[0] if three else next(x for x in _uv(spec) if x[0] == _run_axis(spec))
            f["bump"] = [round((lo + hi) / 2 * 16) / 16 + 1 / 64, level + dy(rng, -1.5, 1.5)]
            f["along"] = "xyz"[u]
        if far:
            f["x0"] = far
        a["arg"] = f
    else:
        _gen_surface_dataset(rng, spec, op, coef, level, three)
    _gen_sub(rng, a)
    if rng.random() < 0.35:
        a["priority"] = rng.choice([-1, 0, 1, 2])
    if rng.random() < 0.3:
        a["thickness"] = rng.choice([0.25, 0.5])
    if rng.random() < 0.5:
        a["group"] = gen_group_arg(rng, spec)
    if transition:
        if isinstance(a.get("group"), dict):
            a["group"] = rng.choice(NAMES)
    if not three and n_items >= 2 and not transition and rng.random() < 0.18 and not wrong and abs(spec.get("_lift", 0.0)) < 100.0:
        op["op"] = "set_transition"
        run = _run_axis(spec)
        lo, hi = spec["bounds"][2 * run], spec["bounds"][2 * run + 1]
        n = rng.randint(2, 6)
        op["a"] = {"mesh_or_resolution": {"$": "mesh", "k": "line", "poly": True,
                                          "p": [[(lo + (hi - lo) * i / n) if j == run else spec["bounds"][2 * j] for j in range(3)] for i in range(n + 1)]}}
        if rng.random() < 0.4:
            op["a"] = {"mesh_or_resolution": n}
        spec["_new_cells"] = n
        return
    if wrong:
        op["bad"] = True
        op["op"] = "add"
        c = rng.random()
        if c < 0.3:
            a["arg"] = {"$": "fn", "fail": rng.choice(["raise", "interrupt", "shape"])}
            for k in ("angles", "point"):
                a.pop(k, None)
        elif c < 0.5:
            a.pop("angles", None), a.pop("point", None)
            a["arg"] = {"$": "arr", "v": [[1.0, 2.0], [3.0, 4.0]]}
        elif c < 0.7:
            a.pop("angles", None), a.pop("point", None)
            a["arg"] = {"$": "arr", "v": [1.0, 2.0, 3.0]}
        else:
            a.pop("angles", None), a.pop("point", None)
            op.pop("surf", None)
            # does not enclose the base mesh, no extrapolation
            run = [x[0] for x in _uv(spec)] if three else [_run_axis(spec)]
            p = []
            for i in range(3):
                for j in range(3 if three else 1):
                    q = [0.0, 0.0, 0.0]
                    q[run[0]] = 1000.0 + i
                    if three:
                        q[run[1]] = 1000.0 + j + 0.25 * i
                    q[axis] = level
                    p.append(q)
            if rng.random() < 0.5:
                # only a part of it
                _gen_surface_dataset(rng, spec, op, coef, level, three, partial=True)
            else:
                a["arg"] = {"$": "mesh", "k": "cloud", "p": p}
            a.pop("extrapolation", None)


def _run_axis(spec):
    """Direction of the base line of a 2D stack."""
    axis = spec["init"]["axis"]
    m = spec["init"]["mesh"]
    if isinstance(m, dict) and m.get("$") == "mesh":
        return {0: 1, 1: 0, 2: 0}[axis]
    return (axis + 1) % 3


def _gen_surface_dataset(rng, spec, op, coef, level, three, partial=None):
    a = op["a"]
    axis = spec["init"]["axis"]
    partial = rng.random() < 0.3 if partial is None else partial
    x0 = spec.get("far") or [0.0, 0.0, 0.0]
    profile = three and rng.random() < 0.25
    if three and not profile:
        (u, u0, u1), (v, v0, v1) = _uv(spec)
        lo, hi = [u0 - 0.6, v0 - 0.7], [u1 + 0.55, v1 + 0.65]
        if partial:
            lo[0] = (u0 + u1) / 2 + 0.0371
            a["extrapolation"] = "nearest"
        nu, nv = rng.randint(1, 3), rng.randint(1, 3)
        p = []
        for i in range(nu + 1):
            for j in range(nv + 1):
                x = lo[0] + (hi[0] - lo[0]) * i / nu
                y = lo[1] + (hi[1] - lo[1]) * j / nv
                if 0 < i < nu and 0 < j < nv:
                    x += rng.uniform(-0.05, 0.05)
                    y += rng.uniform(-0.05, 0.05)
                q = [0.0, 0.0, 0.0]
                q[u], q[v] = x, y
                q[axis] = coef[u] * (x - x0[u]) + coef[v] * (y - x0[v]) + level
                p.append(q)
        op["surf"] = {"rect": [lo[0], hi[0], lo[1], hi[1]], "coef": coef, "level": level, "x0": x0}
    else:
        # a profile along one direction
        u = rng.choice(_uv(spec))[0] if three else _run_axis(spec)
        b0, b1 = spec["bounds"][2 * u], spec["bounds"][2 * u + 1]
        lo, hi = b0 - 0.5, b1 + 0.5
        if partial:
            if rng.random() < 0.6:
                lo = 0.75 * b0 + 0.25 * b1 + 0.0371
            else:
                hi = 0.25 * b0 + 0.75 * b1 - 0.0371
            a["extrapolation"] = "nearest"
        n = rng.randint(2, 5)
        p = []
        for i in range(n + 1):
            q = [0.0, 0.0, 0.0]
            q[u] = lo + (hi - lo) * i / n
            q[axis] = level + dy(rng, -0.5, 0.5)
            p.append(q)
        c = rng.random()
        if c < 0.2:
            p.reverse()
        elif c < 0.5:
            rng.shuffle(p)
        op["surf"] = {"line": True}
    c = rng.random()
    if c < 0.4:
        a["arg"] = {"$": "arr", "v": p}
    else:
        a["arg"] = {"$": "mesh", "k": "cloud", "p": p}


def _uneven(rng, t):
    if rng.random() < 0.3:
        rng.shuffle(t)
    return t if rng.random() < 0.4 else {"$": "arr", "v": t}


def _gen_voronoi_op(rng, spec, op, wrong):
    a = op["a"]
    axis = spec["init"]["axis"]
    (u, u0, u1), (v, v0, v1) = _uv(spec)

    def pt(margin=0.1, out=False):
        q = [0.0, 0.0, 0.0]
        q[u] = round(rng.uniform(u0 + margin, u1 - margin), 4)
        q[v] = round(rng.uniform(v0 + margin, v1 - margin), 4)
        if out:
            q[u] = round(u1 + rng.uniform(1.0, 3.0), 4)
        q[axis] = rng.choice([0.0, 0.0, 1.0, -2.0])
        return q

    c = rng.random()
    if rng.random() < 0.5:
        a["group"] = rng.choice(NAMES)
    if rng.random() < 0.5:
        a["priority"] = rng.choice([-2, -1, 0, 1, 2, 3])
    if c < 0.35:
        n = rng.randint(1, 4)
        p = [pt(out=rng.random() < 0.15) for _ in range(n)]
        a["mesh_or_points"] = rng.choice([p, {"$": "arr", "v": p}, {"$": "mesh", "k": "cloud", "p": p}])
        if wrong:
            a["mesh_or_points"] = rng.choice([[[1.0, 2.0, 3.0, 4.0]], [1.0], {"$": "arr", "v": [[[0.0]]]}])
            op["bad"] = True
    elif c < 0.55:
        # patch of cells
        q = pt()
        if q[axis] == 0.0:
            q[axis] = 0.2  # in the plane once moved below
        m = {"$": "mesh", "k": rng.choice(["rect", "ugrid2"]), "n": [rng.randint(1, 2), rng.randint(1, 2)], "d": [0.4375, 0.5625],
             "plane": AXIS_PLANE[axis], "seed": rng.randrange(10**6), "o": [round(x - 0.2, 4) for x in q], "style": "quad"}
        if rng.random() < 0.4:
            m["groups"] = gen_groups(rng)
        a["mesh_or_points"] = m
        if wrong:
            a["mesh_or_points"] = rng.choice([None, "mesh"])
            op["bad"] = True
    elif c < 0.8 and axis == 2:
        op["op"] = "add_circle"
        a["radius"] = round(rng.uniform(0.15, 0.5), 4)
        a["resolution"] = rng.randint(3, 8) if rng.random() < 0.8 else _uneven(rng, [0.0, 0.15, rng.choice([0.4, 0.5]), 0.8, 1.0])
        a["center"] = q = pt()
        if rng.random() < 0.5:
            a["center"] = {"$": "arr", "v": q}
        if u0 + 0.1 < 0 < u1 - 0.1 and v0 + 0.1 < 0 < v1 - 0.1 and rng.random() < 0.3:
            a.pop("center")
        d = rng.random()
        if d < 0.3:
            a["constraint_radius"] = a["radius"]
        elif d < 0.5:
            a["constraint_radius"] = round(a["radius"] * 1.3, 4)
        if wrong:
            op["bad"] = True
            if rng.random() < 0.5:
                a["constraint_radius"] = a["radius"] * 0.5
            else:
                a["center"] = [1.0, 2.0, 3.0, 4.0]
    else:
        op["op"] = "add_polyline"
        a["width"] = round(rng.uniform(0.1, 0.4), 4)
        k = rng.randint(1, 2) if wrong is False else 2
        lines = []
        for _ in range(k):
            p0 = pt(0.3)
            n = rng.randint(2, 4)
            line = [p0]
            du, dv = rng.choice([-1, 1]) * rng.uniform(0.2, 0.5), rng.uniform(-0.3, 0.3)
            for _ in range(n - 1):
                q = list(line[-1])
                q[u] = round(q[u] + du, 4)
                q[v] = round(q[v] + dv + rng.uniform(-0.1, 0.1), 4)
                line.append(q)
            lines.append(line)
        if k == 1 and rng.random() < 0.5:
            a["mesh_or_points"] = lines[0]
        else:
            a["mesh_or_points"] = {"$": "mesh", "k": "lines", "p": lines}
        if rng.random() < 0.3:
            a["preference"] = "point"
        if rng.random() < 0.3:
            a["constraint"] = rng.choice([0, 2, {"$": "tuple", "v": [1, 2]}])
        if rng.random() < 0.3:
            a["resolution"] = rng.randint(1, 3)
            if rng.random() < 0.4:
                a["resolution"] = _uneven(rng, [0.0, rng.choice([0.2, 0.65]), 1.0])
        if rng.random() < 0.2:
            a["padding"] = 0.1
        if wrong:
            op["bad"] = True
            c = rng.random()
            if c < 0.4:
                a["resolution"] = {"$": "arr", "v": [[0.0, 1.0]]}
            elif c < 0.7:
                a["mesh_or_points"] = {"$": "mesh", "k": "lines", "p": [lines[0], lines[1][:1]]}
            else:
                a["constraint"] = {"$": "tuple", "v": [1, 2, 3]}


def gen_generate(rng, spec):
    a = {}
    cls = spec["cls"]
    if cls in ("MeshStack3D", "MeshExtrude", "MeshMerge", "VoronoiMesh2D") and rng.random() < 0.2:
        a["tolerance"] = rng.choice([1e-8, 1e-6])
    if cls == "VoronoiMesh2D" and rng.random() < 0.3:
        a["orientation"] = rng.choice(["CCW", "CW"])
    if cls == "VoronoiMesh2D" and rng.random() < 0.15:
        a["min_length"] = rng.choice([0.0, 1e-5, 1e-3])
    if cls == "VoronoiMesh2D" and rng.random() < 0.1:
        a["infinity"] = 5.0e3
    if cls == "MeshStack3D" and rng.random() < 0.15:
        a["invert_polyhedron_faces"] = False
    return {"op": "generate_mesh", "a": a}


def gen_ops(rng, spec, n, bad=0.0):
    """History of add-like calls; calls flagged "bad" are meant to be rejected."""
    ops, good = [], 0
    n_items = 1 if spec["cls"] == "MeshExtrude" else 0
    while good < n:
        op = gen_op(rng, spec, n_items, bad=bad if len(ops) < 3 * n else 0.0)
        ops.append(op)
        if op.get("bad"):
            continue
        good += 1
        if op["op"] == "set_transition":
            spec["_after_transition"] = True
            spec["n_cells"] = spec.pop("_new_cells")
            n += rng.choice([1, 2, 3])  # and something on top of it
        else:
            n_items += 1
            spec.pop("_after_transition", None)
    return ops


def gen_stray(rng, spec):
    """A call that sets a transition and fails: the item added next is an ordinary one."""
    run = _run_axis(spec)
    lo, hi = spec["bounds"][2 * run], spec["bounds"][2 * run + 1]
    if rng.random() < 0.5:
        v = rng.choice([None, "line", 2.5, {"$": "mesh", "k": "cloud", "p": [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0]]}, -3])
        return {"op": "set_transition", "a": {"mesh_or_resolution": v}, "bad": True, "stray": True}
    n = rng.randint(2, 4)
    line = {"$": "mesh", "k": "line", "poly": True, "p": [[(lo + (hi - lo) * i / n) if j == run else spec["bounds"][2 * j] for j in range(3)] for i in range(n + 1)]}
    return {"op": "set_transition", "a": {"mesh_or_resolution": rng.choice([n, line])}, "stray": True}


def clean_spec(spec):
    return {k: v for k, v in spec.items() if k in ("cls", "init")}


__all__ = ["CLASSES", "new_builder", "apply_op", "gen_builder", "gen_op", "gen_ops", "gen_generate", "clean_spec", "np"]
