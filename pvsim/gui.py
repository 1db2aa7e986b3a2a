"""
Stand-in for the plotter: no rendering is possible here, and the user is simulated.

Methods of pyvista.Plotter that are not written out do nothing; names that pyvista.Plotter
does not have raise AttributeError. Callbacks are called as PyVista does, through
try_callback: an exception in a callback is reported as a warning and forgotten.
"""
import types
import warnings

from .world import np, pv

try_callback = pv.core.utilities.misc.try_callback


class RenderError(RuntimeError):
    pass


class Actor:
    def __init__(self, mesh, kw):
        self.mesh, self.kw = mesh, kw
        self.visibility = True

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: None


class SimPlotter:
    """*events*: what the user does while the window is open."""

    def __init__(self, events):
        self.events = events
        self.actors = []  # what is in the scene, in order
        self.theme = types.SimpleNamespace()
        self.picking = None  # (mode, callback)
        self.clicks = []  # (side, callback)
        self.views = []
        self.in_event = False
        self.fail = None  # (method, nth call within the event)
        self.fired = None
        self.calls = {}
        self.shown = 0

    def _point(self, name):
        if not self.in_event or self.fail is None:
            return
        n = self.calls.get(name, 0)
        self.calls[name] = n + 1
        total = sum(self.calls.values()) - 1
        if total == self.fail and self.fired is None:
            self.fired = name
            raise RenderError(name)

    def add_mesh(self, mesh, *args, **kw):
        self._point("add_mesh")
        a = Actor(mesh, kw)
        name = kw.get("name")
        if name is not None:
            self.actors = [x for x in self.actors if x.kw.get("name") != name]
        self.actors.append(a)
        return a

    def remove_actor(self, actor, *args, **kw):
        self._point("remove_actor")
        if isinstance(actor, (list, tuple)):
            return any([self.remove_actor(a) for a in actor])
        n = len(self.actors)
        self.actors = [x for x in self.actors if x is not actor and not (isinstance(actor, str) and x.kw.get("name") == actor)]
        return len(self.actors) < n

    def update(self, *args, **kw):
        self._point("update")

    def render(self, *args, **kw):
        self._point("render")

    def enable_element_picking(self, callback=None, mode="cell", *args, **kw):
        self.picking = (str(mode), callback)

    def track_click_position(self, callback=None, side="right", double=False, viewport=False, **kw):
        if not double and not viewport:
            self.clicks.append((side[0].lower(), callback))

    def untrack_click_position(self, side="right"):
        self.clicks = [c for c in self.clicks if c[0] != side[0].lower()]

    def _view(self, name, negative=False):
        self.views.append((name, bool(negative)))

    def show(self, *args, **kw):
        self.shown += 1
        for ev in self.events:
            self.in_event, self.fail, self.fired, self.calls = True, ev.get("fail"), None, {}
            try:
                self.happen(ev)
            finally:
                self.in_event = False
            ev["_fired"] = self.fired

    def happen(self, ev):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if ev["e"] == "pick" and self.picking and self.picking[1] is not None:
                # what is picked depends on the mode asked for, not on what the user wants
                mesh = ev["_mesh"] if self.picking[0] == ev.get("mode", self.picking[0]) else picked(ev["_base"], self.picking[0], ev["i"] if ev["i"] is None else ev["i"] % max(1, ev["_base"].n_cells if self.picking[0] == "cell" else ev["_base"].n_points))
                try_callback(self.picking[1], mesh)
            elif ev["e"] == "click":
                for side, cb in list(self.clicks):
                    if side == ev["side"]:
                        try_callback(cb, np.array(ev["p"], dtype=float) if ev.get("array") else tuple(ev["p"]))

    def __getattr__(self, name):
        if name.startswith("view_"):
            if name[5:] in ("xy", "yx", "xz", "zx", "yz", "zy", "isometric"):
                return lambda negative=False, **kw: self._view(name[5:], negative)
            raise AttributeError(name)
        if not name.startswith("__") and hasattr(pv.BasePlotter, name) or hasattr(pv.Plotter, name):
            return lambda *a, **k: None
        raise AttributeError(name)


def picked(mesh, mode, i):
    """What PyVista hands to the callback of enable_element_picking."""
    if i is None:
        return None
    if mode == "cell":
        cell = mesh.extract_cells(i)
        if cell.n_cells != 1:  # a ghost cell cannot be picked
            return None
        cell.cell_data["vtkOriginalCellIds"] = np.array([i])
        return cell
    p = mesh.extract_points(i, include_cells=False)
    if p.n_points != 1:
        return None
    p.point_data["vtkOriginalPointIds"] = np.array([i])
    return p


def scripted(base, events):
    """A plotter and what its user does."""
    base = base.copy() if isinstance(base, pv.DataSet) else pv.PolyData()
    out = []
    for ev in events:
        ev = dict(ev)
        if ev["e"] == "pick":
            n = base.n_cells if ev["mode"] == "cell" else base.n_points
            ev["i"] = ev["i"] % n if n else None
            ev["_base"], ev["_mesh"] = base, picked(base.copy(), ev["mode"], ev["i"])
        out.append(ev)
    return SimPlotter(out)
