"""Interactive selection returns exactly what the user left selected."""
from ..core import Outcome, generic_shrinks
from ..fp import diff, fp
from ..gui import SimPlotter, picked
from ..recipes import gen_surface, gen_volume, realize
from ..world import np, pvg

ID = "C07"
VIEWS = ["xy", "xz", "yz", "yx", "zx", "zy", "isometric"]


def gen(rng, index, tier):
    mesh = (gen_surface if rng.random() < 0.6 else gen_volume)(rng, nmax=3)
    mode = rng.choice(["cell", "cell", "point"])
    few = [rng.randrange(1000) for _ in range(rng.randint(1, 5))]
    events = []
    for _ in range(rng.randint(0, 14)):
        ev = {"e": "pick", "i": rng.choice(few)}
        if rng.random() < 0.08:
            ev["i"] = None  # a pick that hits nothing
        if rng.random() < 0.15:
            ev["fail"] = rng.randrange(2)
        events.append(ev)
    sc = {"mesh": mesh, "mode": mode, "steps": events}
    if rng.random() < 0.5:
        sc["view"] = rng.choice(["", "-"]) + rng.choice(VIEWS)
    if rng.random() < 0.06:
        sc["view"] = rng.choice(["xw", "-nonsense", "abc", "XY"])
    if rng.random() < 0.3:
        sc["parallel_projection"] = True
    if rng.random() < 0.3:
        sc["picker"] = rng.choice(["cell", "hardware", "point"])
    return sc


def execute(sc):
    out = Outcome()
    mesh = realize(sc["mesh"])
    mode = sc["mode"]
    base = realize(sc["mesh"])
    base.cell_data.pop("vtkGhostType", None)
    n = mesh.n_cells if mode == "cell" else mesh.n_points
    events = []
    for ev in sc["steps"]:
        i = ev["i"] % n if ev["i"] is not None else None
        events.append({**ev, "i": i, "mode": mode, "_base": base, "_mesh": picked(base, mode, i)})
    plotter = SimPlotter(events)
    pic = fp(mesh)
    kw = {k: sc[k] for k in ("view", "parallel_projection", "picker") if k in sc}
    bad_view = "view" in sc and sc["view"].lstrip("-") not in VIEWS
    try:
        got = pvg.interactive_selection(mesh, plotter=plotter, preference=mode, **kw)
    except ValueError as exc:
        out.event("ValueError")
        if not bad_view:
            out.fail("raised", f"interactive_selection raised {exc!r}")
        else:
            out.count("probe:unknown view rejected")
            out.nontrivial = True
        return out
    except Exception as exc:
        out.fail("raised", f"interactive_selection raised {exc!r}")
        return out
    out.count("steps", len(events))
    if bad_view:
        out.fail("view", f"view {sc['view']!r} was accepted")
        return out
    if "view" in sc and plotter.views != [(sc["view"].lstrip("-"), sc["view"].startswith("-"))]:
        out.fail("view", f"view {sc['view']!r} was asked for, {plotter.views} shown")
        return out
    # reference: selection as an ordered set; what failed picks did to their own id is left open
    sel, unsure, unclear = [], set(), set()
    for ev in events:
        i = ev["i"]
        if i is None:
            out.count("fault:pick that hits nothing")
            continue
        if ev["_fired"]:
            out.count(f"fault:{ev['_fired']} fails")
            unsure.add(i)
            if i in sel or ev["_fired"] == "remove_actor":
                unclear.add(i)  # a highlight that could not be removed stays
        if i in sel:
            sel.remove(i)
        else:
            sel.append(i)
    ids = [int(x) for x in np.asarray(got).ravel()]
    out.event(mode, ids, [(e["i"], e["_fired"]) for e in events])
    out.sig(mode, n, tuple(ids), tuple(sorted(unsure)), tuple(ev["i"] for ev in events))
    out.nontrivial = True
    if np.ndim(got) != 1 or (len(ids) and np.asarray(got).dtype.kind not in "iu"):
        out.fail("type", f"ids are returned as {np.asarray(got).dtype} of {np.ndim(got)} dimensions")
    elif len(set(ids)) != len(ids):
        out.fail("twice", f"an id is returned twice: {ids}")
    elif [i for i in ids if i not in unsure] != [i for i in sel if i not in unsure]:
        out.fail("selection", f"picks {[(e['i'], e['_fired']) for e in events]}: {ids} returned, {sel} expected (failed picks: {sorted(unsure)})")
    elif set(ids) - {e["i"] for e in events}:
        out.fail("selection", f"ids never picked are returned: {ids}")
    else:
        name = "vtkOriginalCellIds" if mode == "cell" else "vtkOriginalPointIds"
        lit = []
        for a in plotter.actors:
            arr = (a.mesh.cell_data if mode == "cell" else a.mesh.point_data).get(name) if a.mesh is not mesh else None
            if arr is not None and any(a.mesh is e["_mesh"] for e in events):
                lit.append(int(arr[0]))
        want = [i for i in ids if i not in unclear]
        lit = [i for i in lit if i not in unclear]
        if sorted(lit) != sorted(want):
            out.fail("highlight", f"picks {[(e['i'], e['_fired']) for e in events]}: {sorted(lit)} highlighted, {sorted(want)} returned")
        elif not any(a.mesh is mesh for a in plotter.actors):
            out.fail("scene", "the mesh itself is not in the scene any more")
    d = diff(pic, fp(mesh), exact=True)
    if d and not out.violation:
        out.fail("mesh", f"the mesh changed: {d}")
    return out


shrinks = generic_shrinks
