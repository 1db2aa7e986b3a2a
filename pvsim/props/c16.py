"""Labels and measure survive any chain of mesh operations."""
from shapely.geometry import Polygon
from shapely.ops import unary_union

from ..bsim import call, count, gen_fault
from ..builders import FAR
from ..core import Outcome, generic_shrinks
from ..disk import reload
from ..fp import _user_dict
from ..geo import apart, cells, same_points, unstructured
from ..model import own_groups
from ..recipes import NAMES, dy, gen_lines, gen_surface, gen_volume, make_mesh
from ..world import np, pv, pvg

ID = "C16"
PLANE = {"xy": (0, 1), "xz": (0, 2), "yz": (1, 2)}


# ------------------------------------------------------------------ generation
def gen_area(rng, tag, plane=None, first=True):
    m = gen_surface(rng, kinds=("rect", "ugrid2", "ugrid2", "image", "rectilinear", "poly2") if first else ("rect", "ugrid2"), plane=plane, nmax=3, ghost=False)
    if m.get("style") == "pixel" and m.get("jit"):
        m.pop("jit")
    return _mark(rng, m, tag)


def gen_vol(rng, tag):
    m = gen_volume(rng, nmax=2, ghost=False)
    if m.get("style") == "voxel":
        m.pop("jit", None)
    return _mark(rng, m, tag)


def _mark(rng, m, tag):
    m.pop("extra_user", None)
    m["tag"] = tag
    m["cat"] = rng.random() < 0.5
    if rng.random() < 0.6:
        m["data"] = [["poro", 1], ["perm", 3]]
    return m


def gen(rng, index, tier):
    kind = rng.choices(["area", "volume", "lines", "cut"], [5, 3, 2, 2])[0]
    sc = {"kind": kind}
    if kind == "lines":
        sc["mesh"] = gen_lines(rng)
        sc["mesh"]["labels"] = rng.random() < 0.5
        sc["mesh"]["data"] = sc["mesh"].get("data", []) + ([["vel", 3]] if rng.random() < 0.5 else [])
        steps = [{"op": rng.choice(["split", "merge"]), "as_lines": rng.random() < 0.5, "pick": [rng.randrange(16) for _ in range(rng.randint(1, 5))]} for _ in range(rng.randint(2, 4))]
    elif kind == "cut":
        two = rng.random() < 0.5
        sc["mesh"] = _mark(rng, gen_surface(rng, kinds=("rect",), nmax=4, ghost=False) if two else gen_volume(rng, kinds=("vol",), nmax=3, ghost=False), 0)
        ax = {"xy": (0, 1), "xz": (0, 2), "yz": (1, 2)}[sc["mesh"]["plane"]] if two else (0, 1, 2)
        steps = [{"op": "merge_s", "axis": rng.choice(ax), "cuts": sorted({rng.randrange(1, 4) for _ in range(rng.randint(1, 2))})} for _ in range(rng.randint(1, 3))]
        for st in steps:
            if rng.random() < 0.3:
                st["gap"] = [rng.choice([0.125, 0.25, -0.25]) if i == (st["axis"] if rng.random() < 0.6 else rng.randrange(3)) else 0.0 for i in range(3)]
        steps += _gen_steps(rng, two, sc["mesh"].get("plane"))[:2]
    else:
        sc["mesh"] = gen_area(rng, 0) if kind == "area" else gen_vol(rng, 0)
        steps = _gen_steps(rng, kind == "area", sc["mesh"].get("plane"))
    for st in steps:
        if kind != "lines" and rng.random() < 0.15:
            st["crash"] = True
        if rng.random() < 0.3 and not st.get("inplace"):
            st["fault"] = gen_fault(rng)
    sc["steps"] = steps
    if rng.random() < 0.12:
        _away(sc, rng.choice(FAR))
    return sc


def _away(sc, far):
    """The same meshes, far away from the origin."""
    for m in [sc["mesh"], *(st["mesh"] for st in sc["steps"] if "mesh" in st)]:
        if sc["kind"] == "lines":
            m["p"] = [[[a + b for a, b in zip(q, far)] for q in line] for line in m["p"]]
        else:
            m["o"] = [a + b for a, b in zip(m.get("o", (0.0, 0.0, 0.0)), far)]


def _gen_steps(rng, flat, plane):
    steps, tag = [], 0
    for _ in range(rng.randint(2, 5)):
        op = rng.choice(["extract", "extract", "dimension", "remap", "remap", "merge", "mmerge", "mmerge"] + ["fuse", "fuse", "fuse"] * flat)
        st = {"op": op}
        if op == "extract":
            st.update(ids=[rng.randrange(64) for _ in range(rng.randint(1, 3))], invert=rng.random() < 0.6, mask=rng.random() < 0.5)
        elif op == "dimension":
            st.update(ndim=rng.choice([None, 2, 3 if not flat else 2]), method=rng.choice(["upper", "lower"]))
        elif op == "remap":
            st.update(key=rng.choice(["CellGroup", "CellGroup", "Cat"]), u=[rng.random() for _ in range(4)], names=rng.random() < 0.6, full=rng.random() < 0.5, inplace=rng.random() < 0.3,
                      to=rng.sample(range(0, 12), 4))
        elif op in ("merge", "mmerge"):
            tag += 1000
            o = gen_area(rng, tag, plane, first=False) if flat else gen_vol(rng, tag)
            if rng.random() < 0.6:
                o["o"] = [dy(rng, 0, 3, 1) if plane is None or i in PLANE[plane] else 0.0 for i in range(3)]
            st.update(mesh=o, first=rng.random() < 0.3)
            if op == "merge":
                st["merge_points"] = rng.random() < 0.6
            else:
                st["group"] = rng.choice([None, None, rng.choice(NAMES)])
        elif op == "fuse":
            st.update(seed=rng.randrange(10**6), n=rng.randint(2, 4), two=rng.random() < 0.3, form=rng.choice(["list", "array", "mask", "nested"]), any=rng.random() < 0.5)
        steps.append(st)
    return steps


# ------------------------------------------------------------------ model
class Rec:
    """A cell as it should be."""

    def __init__(self, t, pts, data, group):
        self.t, self.pts, self.data, self.group, self.poly, self.uv = t, pts, data, group, None, None

    def copy(self):
        r = Rec(self.t, self.pts, dict(self.data), self.group)
        r.poly, r.uv = self.poly, self.uv
        return r


SKIP = ("CellGroup", "vtkOriginalCellIds", "Tag")


def records(mesh):
    own = own_groups(mesh)
    names = own if own is not None else [None] * mesh.n_cells
    g = unstructured(mesh)
    out = {}
    keys = [k for k in mesh.cell_data.keys() if k not in SKIP]
    for i, (t, p) in enumerate(cells(g)):
        out[int(mesh.cell_data["Tag"][i])] = Rec(t, p, {k: np.array(mesh.cell_data[k][i]) for k in keys}, names[i])
    return out


def make(recipe):
    m = make_mesh(recipe)
    if recipe.get("cat"):
        m.cell_data["Cat"] = np.arange(m.n_cells) % 3
        m.user_dict["Cat"] = {"low": 0, "mid": 1, "high": 2}
    return m


def common(recs):
    """Arrays that all cells have, of one type and one number of components."""
    return {k for k in set.intersection(*(set(r.data) for r in recs.values())) if len({(r.data[k].dtype, r.data[k].shape) for r in recs.values()}) == 1}


def check(mesh, recs, order=None, names=True):
    """The mesh is made of these cells, each with its data and the name of its group."""
    if mesh is None:
        return "no mesh"
    if mesh.n_cells != len(recs):
        return f"{mesh.n_cells} cells instead of {len(recs)}"
    if not recs:
        return None
    if "Tag" not in mesh.cell_data:
        return "cell data lost"
    tags = [int(x) for x in mesh.cell_data["Tag"]]
    if len(set(tags)) != len(tags):
        return "a cell appears twice"
    if set(tags) != set(recs):
        return f"cells {sorted(set(recs) - set(tags))} lost"
    if order is not None and tags != order:
        return f"cells in the order {tags} instead of {order}"
    if names:
        got = own_groups(mesh)
        for i, t in enumerate(tags):
            w = recs[t].group
            if w is not None and (got is None or got[i] != w):
                return f"cell {t}: group {None if got is None else got[i]} instead of {w}"
    keys = common(recs)
    for k in sorted(keys):
        if k not in mesh.cell_data:
            return f"array {k} lost"
    for i, ((t, p), tag) in enumerate(zip(cells(mesh), tags)):
        r = recs[tag]
        for k in keys:
            if not np.array_equal(np.array(mesh.cell_data[k][i]), r.data[k]):
                return f"cell {tag}: {k} = {mesh.cell_data[k][i]} instead of {r.data[k]}"
        if t != r.t:
            return f"cell {tag}: type {t} instead of {r.t}"
        if r.poly is not None:
            q = Polygon(p[:, r.uv])
            if not q.is_valid or apart(q, r.poly) > 1e-6 or abs(q.area - r.poly.area) > 1e-6:
                return f"cell {tag}: area {q.area:.6g} instead of {r.poly.area:.6g}, or elsewhere: {np.round(p, 4).tolist()}"
            if len(p) != len(r.pts):
                return f"cell {tag}: {len(p)} corners instead of {len(r.pts)}"
        elif t == 42:
            if len(p) != len(r.pts) or not np.allclose(_sorted(p), _sorted(r.pts), rtol=0.0, atol=1e-6):
                return f"cell {tag} changed"
        elif len(p) != len(r.pts) or not (np.allclose(p, r.pts, rtol=0.0, atol=1e-6) if t > 9 else same_points(t, p, r.pts)):
            return f"cell {tag}: points {np.round(p, 4).tolist()} instead of {np.round(r.pts, 4).tolist()}"
    return None


def _sorted(p):
    return np.array(sorted(map(tuple, np.round(np.asarray(p, dtype=float), 5))))


# ------------------------------------------------------------------ execution
class Sim:
    def __init__(self, sc, out):
        self.sc, self.out = sc, out

    def call(self, st, fn, what):
        """Result of an operation, first aborted if so decided."""
        fault = st.get("fault")
        if fault is not None:
            _, _, k = count(fn, fault)
            got, val, inj = call(fn, fault, k)
            if inj.fired:
                self.out.count(f"fault:{fault['kind']}")
                self.out.event("fault", inj.fired[0], inj.fired[2])
        got, val, _ = call(fn)
        self.out.event(what, got)
        self.out.nontrivial = True
        self.out.count("probe:operation")
        if got != "ok":
            self.out.fail(f"refused:{what}", f"{what} failed: {got} {val!r}")
            return None
        return val

    def run(self):
        if self.sc["kind"] == "lines":
            return self.lines()
        self.mesh = make(self.sc["mesh"])
        self.recs = records(self.mesh)
        self.uv = PLANE.get(self.sc["mesh"].get("plane", "xy"))
        for st in self.sc["steps"]:
            self.out.count("steps")
            if not self.recs:
                break
            if st.get("crash"):
                # the process ends and only the file of the mesh is left
                self.mesh = reload(self.mesh)
                self.out.count("fault:crash and reload")
            getattr(self, "do_" + st["op"])(st)
            if self.out.violation:
                return
            self.out.sig(st["op"], type(self.mesh).__name__, tuple(sorted({r.t for r in self.recs.values()})), len(self.recs))

    def verify(self, what, mesh, recs, order=None, names=True, adopt=True):
        if self.out.violation:
            return
        msg = check(mesh, recs, order, names)
        if msg:
            self.out.fail(f"chain:{what}", f"{what}: {msg}")
        elif adopt:
            keys = common(recs) if recs else ()
            self.mesh, self.recs = mesh, {t: r.copy() for t, r in recs.items()}
            for r in self.recs.values():
                r.data = {k: v for k, v in r.data.items() if k in keys}

    def tags(self):
        return [int(x) for x in self.mesh.cell_data["Tag"]]

    def do_extract(self, st):
        n = self.mesh.n_cells
        ids = sorted({i % n for i in st["ids"]})
        keep = [i for i in range(n) if (i in ids) != st["invert"]]
        if not keep:
            return
        ind = np.isin(np.arange(n), ids) if st["mask"] else ids
        tags = [self.tags()[i] for i in keep]
        val = self.call(st, lambda: pvg.extract_cells(self.mesh, ind, invert=st["invert"]), "extract_cells")
        self.verify("extract_cells", val, {t: self.recs[t] for t in tags}, tags)

    def do_dimension(self, st):
        dim = 2 if self.uv and self.sc["mesh"]["k"] not in ("vol", "ugrid3", "image3") else 3
        n = st["ndim"] if st["ndim"] is not None else dim
        if not (dim >= n if st["method"] == "upper" else dim <= n):
            return
        val = self.call(st, lambda: pvg.extract_cells_by_dimension(self.mesh, st["ndim"], st["method"]), "extract_cells_by_dimension")
        self.verify("extract_cells_by_dimension", val, dict(self.recs), self.tags())

    def do_remap(self, st):
        key = st["key"]
        m = self.mesh
        if key not in m.cell_data:
            return
        labels = _user_dict(m).get(key) or {}
        nums = sorted(set(int(x) for x in m.cell_data[key]))
        if len({v for v in labels.values()}) != len(labels) or np.asarray(m.cell_data[key]).dtype.kind != "i":
            return
        name = {v: k for k, v in labels.items()}
        if labels and not set(nums) <= set(name):
            return
        old = [x for x, u in zip(nums, st["u"] * 8) if st["full"] or u < 0.5]
        rest = [x for x in nums if x not in old]
        to = [x for x in st["to"] if x not in rest]
        mapping, new = {}, {x: x for x in nums}
        for x, y in zip(old, to):
            mapping[name[x] if st["names"] and x in name else x] = y
            new[x] = y
        if len(set(new.values())) != len(new):
            return
        if not mapping:
            return
        recs = {t: r.copy() for t, r in self.recs.items()}
        want = {t: new[int(x)] for t, x in zip(self.tags(), m.cell_data[key])}
        if key != "CellGroup":
            for t, r in recs.items():
                r.data[key] = np.array(want[t])
        order = self.tags()
        val = self.call(st, lambda: pvg.remap_categorical_data(m, key, mapping, inplace=st["inplace"]), "remap_categorical_data")
        if self.out.violation:
            return
        if st["inplace"]:
            val = m
        else:
            self.verify("remap_categorical_data (its input)", m, self.recs, order, adopt=False)
        self.verify(f"remap_categorical_data({mapping})", val, recs, order)
        if self.out.violation:
            return
        got = [int(x) for x in self.mesh.cell_data[key]]
        if got != [want[t] for t in order]:
            self.out.fail("chain:remap_categorical_data", f"remap_categorical_data({key}, {mapping}): {got} instead of {[want[t] for t in order]}")
        after = _user_dict(self.mesh).get(key) or {}
        for x in nums:
            if x in name and after.get(name[x]) != new[x]:
                self.out.fail("chain:remap_categorical_data", f"remap_categorical_data({key}, {mapping}): {name[x]} is {after.get(name[x])} instead of {new[x]}")

    def _other(self, st):
        o = make(st["mesh"])
        ro = records(o)
        return o, ro

    def do_merge(self, st):
        o, ro = self._other(st)
        a, b = unstructured(self.mesh), unstructured(o)
        val = self.call(st, lambda: pvg.merge([b, a] if st["first"] else [a, b], merge_points=st["merge_points"]), "merge")
        if self.out.violation:
            return
        self.verify("merge", val, {**{t: r.copy() for t, r in self.recs.items()}, **ro}, names=False)
        self._unlabel()

    def _unlabel(self):
        """Group numbers of several meshes put together mean nothing: forget them."""
        if self.out.violation:
            return
        for k in ("CellGroup",):
            if k in self.mesh.cell_data:
                self.mesh.cell_data.pop(k)
        if "_PYVISTA_USER_DICT" in self.mesh.field_data:
            self.mesh.field_data.pop("_PYVISTA_USER_DICT")
        for r in self.recs.values():
            r.group = None

    def do_mmerge(self, st):
        o, ro = self._other(st)

        def go():
            b = pvg.MeshMerge()
            x, y = (o, self.mesh) if st["first"] else (self.mesh, o)
            return b.add(x, **({"group": st["group"]} if x is o and st["group"] else {})).add(y, **({"group": st["group"]} if y is o and st["group"] else {})).generate_mesh()

        recs = {t: r.copy() for t, r in self.recs.items()}
        for r in recs.values():
            r.group = r.group or "default"
        for r in ro.values():
            r.group = r.group or st["group"] or "default"
        val = self.call(st, go, "MeshMerge")
        if self.out.violation:
            return
        recs = {**recs, **ro}
        self.verify("MeshMerge", val, recs)

    def do_fuse(self, st):
        import random

        rng = random.Random(st["seed"])
        order = self.tags()
        sets, used = [], set()
        for _ in range(2 if st["two"] else 1):
            cand = [t for t in order if t not in used]
            if not cand:
                break
            s = [rng.choice(cand)]
            for _ in range(st["n"] - 1):
                nxt = [t for t in cand if t not in s and any(_adjacent(self.recs[t], self.recs[q], self.uv) for q in s)]
                if not nxt:
                    break
                s.append(rng.choice(nxt))
            if len(s) > 1 and self._simple(s) is not None:
                # as a mask or sorted, or in any order: the fused cell stands for the first one listed
                sets.append(sorted(s, key=order.index) if st["form"] == "mask" or not st.get("any") else s)
                used.update(s)
        if not sets:
            return
        recs = {t: r.copy() for t, r in self.recs.items()}
        gone = set()
        for s in sets:
            r = recs[s[0]]
            r.poly, n = self._simple(s)
            r.pts, r.t, r.uv = np.zeros((n, 3)), 7, self.uv
            gone.update(s[1:])
        recs = {t: r for t, r in recs.items() if t not in gone}
        for r in recs.values():
            r.uv = self.uv
        ids = [[order.index(t) for t in s] for s in sets]
        if len(ids) == 1 and st["form"] != "nested":
            ind = ids[0] if st["form"] == "list" else np.array(ids[0]) if st["form"] == "array" else [np.isin(np.arange(len(order)), ids[0])]
        else:
            ind = [np.isin(np.arange(len(order)), i) if st["form"] == "mask" else i for i in ids]
        val = self.call(st, lambda: pvg.fuse_cells(self.mesh, ind), "fuse_cells")
        if self.out.violation:
            if "not fully connected" in self.out.violation[1] and any(self._chord(s) for s in sets):
                self.out.violation = ("refused:fuse_cells:chord", self.out.violation[1])
            return
        self.verify(f"fuse_cells({ids})", val, recs, [t for t in order if t not in gone])

    def _chord(self, s):
        """An outer edge of a cell joins two corners of another one, which has no such edge: VTK takes it for an inner edge."""
        rings = [[tuple(np.round(x, 5)) for x in np.array(self._ring(t))] for t in s]
        edges = [{frozenset(e) for e in zip(r, r[1:] + r[:1])} for r in rings]
        return any(e <= set(rings[j]) and e not in edges[j] for i in range(len(s)) for e in edges[i] for j in range(len(s)) if i != j)

    def _ring(self, t):
        i = self.tags().index(t)
        _, p = cells(unstructured(self.mesh))[i]
        return p

    def _simple(self, s):
        """Union of the cells and its number of corners, if it is a plain polygon of whole edges."""
        polys = [self._poly(self.recs[t]) for t in s]
        if any(p is None or not p.is_valid for p in polys):
            return None
        u = unary_union(polys)
        if u.geom_type != "Polygon" or u.interiors or u.buffer(-1e-3).geom_type != "Polygon":
            return None
        edges = {}
        for p in polys:
            c = [(round(x, 6), round(y, 6)) for x, y in list(p.exterior.coords)[:-1]]
            for e in zip(c, c[1:] + c[:1]):
                edges[frozenset(e)] = edges.get(frozenset(e), 0) + 1
        if any(v > 2 for v in edges.values()) or abs(sum(p.area for p in polys) - u.area) > 1e-9:
            return None
        rim = [e for e, v in edges.items() if v == 1]
        nodes = {}
        for e in rim:
            for x in e:
                nodes[x] = nodes.get(x, 0) + 1
        if any(v != 2 for v in nodes.values()):
            return None
        if abs(sum(np.linalg.norm(np.subtract(*map(np.array, tuple(e)))) for e in rim) - u.length) > 1e-6:
            return None  # cells that meet along a part of an edge only
        return u, len(nodes)

    def _poly(self, r):
        if r.poly is not None:
            return r.poly
        return Polygon(r.pts[:, self.uv])

    def do_merge_s(self, st):
        m, axis = self.mesh, st["axis"]
        if type(m) is not pv.StructuredGrid:
            return
        n = m.dimensions[axis] - 1
        cuts = sorted({c for c in st["cuts"] if c < n})
        if not cuts:
            return
        parts = []
        shape = [max(1, d - 1) for d in m.dimensions]
        for a, b in zip([0, *cuts], [*cuts, n]):
            sl = [slice(None)] * 3
            sl[axis] = slice(a, b + 1)
            g = pv.StructuredGrid(*(np.array(c)[tuple(sl)] for c in (m.x, m.y, m.z)))
            sl[axis] = slice(a, b)
            ids = np.arange(m.n_cells).reshape(shape, order="F")[tuple(sl)].ravel(order="F")
            for k in m.cell_data.keys():
                g.cell_data[k] = np.array(m.cell_data[k])[ids]
            parts.append(g)
        if any(st.get("gap", ())):
            # parts that do not meet cannot be made one without changing cells
            apart = [g.copy() for g in parts]
            for g in apart[1:]:
                g.points = np.array(g.points) + np.array(st["gap"])
            got, val, _ = call(lambda: pvg.merge(apart, axis))
            self.out.event("apart", got)
            if got == "ok":
                self.out.fail("chain:merge", f"merge along axis {axis} joined structured grids that are {st['gap']} apart")
                return
        val = self.call(st, lambda: pvg.merge(parts, axis), "merge")
        if self.out.violation:
            return
        if type(val) is not pv.StructuredGrid or tuple(val.dimensions) != tuple(m.dimensions):
            self.out.fail("chain:merge", f"merge of the parts of a structured grid along axis {axis}: {type(val).__name__} {getattr(val, 'dimensions', '')} instead of {m.dimensions}")
            return
        nums = {t: int(x) for t, x in zip(self.tags(), m.cell_data["CellGroup"])} if "CellGroup" in m.cell_data else None
        order = self.tags()
        self.verify(f"merge along axis {axis}", val, self.recs, order, names=False)
        if not self.out.violation and nums is not None and [int(x) for x in val.cell_data["CellGroup"]] != [nums[t] for t in order]:
            self.out.fail("chain:merge", f"merge along axis {axis}: group numbers changed")
        self._unlabel()

    # -------------------------------------------------------------- lines
    def lines(self):
        m = make_mesh(self.sc["mesh"])
        if self.sc["mesh"].get("labels"):
            m.cell_data["label"] = np.array([f"line {i}" * (i + 1) for i in range(m.n_cells)])
        want = line_records(m)
        for st in self.sc["steps"]:
            self.out.count("steps")
            as_lines = st["as_lines"]
            parts = self.call(st, lambda: pvg.split_lines(m, as_lines=as_lines), "split_lines")
            if self.out.violation:
                return
            if len(parts) != len(want):
                return self.out.fail("chain:split_lines", f"split_lines: {len(parts)} lines instead of {len(want)}")
            for p, w in zip(parts, want):
                msg = check_lines(p, segments([w]) if as_lines else [w])
                if msg:
                    return self.out.fail("chain:split_lines", f"split_lines(as_lines={as_lines}): {msg}")
            if st["op"] == "split":
                self.out.sig("split", as_lines, len(parts))
                continue
            pick = [i % len(parts) for i in dict.fromkeys(i % len(parts) for i in st["pick"])]
            src = [parts[i] for i in pick]
            want2 = [x for i in pick for x in (segments([want[i]]) if as_lines else [want[i]])]
            again = self.sc["steps"].index(st) % 2 == 0
            m2 = self.call(st, lambda: pvg.merge_lines(src, as_lines=again), "merge_lines")
            if self.out.violation:
                return
            want2 = segments(want2) if again else want2
            msg = check_lines(m2, want2)
            if msg:
                return self.out.fail("chain:merge_lines", f"merge_lines(as_lines={again}): {msg}")
            m, want = m2, line_records(m2)
            self.out.sig("merge", as_lines, again, len(want))


def _adjacent(a, b, uv):
    if a.poly is not None or b.poly is not None:
        pa, pb = (r.poly if r.poly is not None else Polygon(r.pts[:, uv]) for r in (a, b))
        return pa.intersection(pb).length > 1e-6
    x = {tuple(np.round(p, 6)) for p in a.pts}
    return len(x & {tuple(np.round(p, 6)) for p in b.pts}) >= 2


def line_records(m):
    out = []
    pts = np.array(m.points, dtype=float)
    for i in range(m.n_cells):
        c = m.GetCell(i)
        ids = [c.GetPointId(k) for k in range(c.GetNumberOfPoints())]
        out.append((pts[ids], {k: np.array(m.cell_data[k][i]) for k in m.cell_data.keys()}, {k: np.array(m.point_data[k])[ids] for k in m.point_data.keys()}))
    return out


def segments(recs):
    out = []
    for p, cd, pd in recs:
        for k in range(len(p) - 1):
            out.append((p[k:k + 2], cd, {a: b[k:k + 2] for a, b in pd.items()}))
    return out


def check_lines(m, want):
    got = line_records(m)
    if len(got) != len(want):
        return f"{len(got)} lines instead of {len(want)}"
    if m.n_lines != m.n_cells:
        return "not only lines"
    seen = {}  # lines that meet share a point, and its data are those of one of them
    for p, _, pd in want:
        for j, x in enumerate(np.round(p, 6)):
            seen.setdefault(tuple(x + 0.0), []).append({k: v[j].tolist() for k, v in pd.items()})
    for i, (g, w) in enumerate(zip(got, want)):
        if g[0].shape != w[0].shape or not np.allclose(g[0], w[0], rtol=0.0, atol=1e-6):
            return f"line {i}: {g[0].tolist()} instead of {w[0].tolist()}"
        for a, b, what in ((g[1], w[1], "cell"), (g[2], w[2], "point")):
            for k, v in b.items():
                if k not in a:
                    return f"{what} array {k} lost"
                if what == "point" and a[k].shape == v.shape and all(b.tolist() in [z.get(k) for z in seen[tuple(x + 0.0)]] for b, x in zip(a[k], np.round(w[0], 6))):
                    continue
                if a[k].shape != v.shape or not np.array_equal(a[k], v):
                    return f"line {i}: {what} array {k} is {a[k].tolist()} instead of {v.tolist()}"
    return None


def execute(sc):
    out = Outcome()
    Sim(sc, out).run()
    return out


def shrinks(sc):
    yield from generic_shrinks(sc)
