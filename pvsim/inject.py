"""
Fault injection at the calls that pvgridder code makes into the engines below it.

sys.monitoring (PEP 669) CALL events are enabled on the code objects of /repo/pvgridder
only. The k-th call into numpy, pyvista, VTK, scipy, shapely or Gmsh (or into a callable
given by the user) raises instead of being made: a failing allocation, an engine error, or
a Ctrl-C delivered at that point. Calls made while handling another exception or while
cleaning up (``finally``/``except`` bodies) are never failed: a second failure during the
clean-up of a first one is outside the fault model.
"""
import ast
import gc
import sys
import types

from . import envinfo, sched

TOOL = 3
MON = sys.monitoring
EV = MON.events
ENGINES = {"numpy", "pyvista", "vtkmodules", "vtk", "scipy", "shapely", "gmsh"}

_codes = set()
_regions = {}  # filename -> list of (first, last) line of except/finally bodies
_state = None  # active Injector
_lines_on = False


class InjectedError(RuntimeError):
    """Failure of an engine."""


KINDS = {
    "memory": MemoryError,
    "interrupt": KeyboardInterrupt,
    "engine": InjectedError,
    "value": ValueError,
    "type": TypeError,
    "os": OSError,
}


class Injector:
    """Counts engine calls, and fails the k-th one (k counted from 0; None: count only)."""

    def __init__(self, k=None, kind="memory", only=None, thread=None, wide=False):
        self.wide = wide  # calls of Python's own built-ins too
        self.thread = thread  # restrict to a simulated thread
        self.k = k
        self.kind = kind
        self.only = only  # restrict to engines, e.g. {"gmsh"}
        self.n = 0
        self.fired = None  # (function, line, callee)
        self.raised = None

    def __enter__(self):
        global _state
        self.prev, _state = _state, self
        return self

    def __exit__(self, *exc):
        global _state
        _state = self.prev


def _top(obj):
    mod = getattr(obj, "__module__", None)
    return mod.split(".", 1)[0] if isinstance(mod, str) else None


def _engine(callable_, arg0):
    for obj in (callable_, type(callable_)):
        t = _top(obj)
        if t in ENGINES:
            return t
    if isinstance(callable_, (types.BuiltinFunctionType, types.MethodType, types.MethodWrapperType)):
        obj = getattr(callable_, "__self__", None)
    elif isinstance(callable_, (types.MethodDescriptorType, types.WrapperDescriptorType)):
        obj = arg0
    else:
        return None
    if obj is None or obj is MON.MISSING or isinstance(obj, types.ModuleType):
        return None
    t = _top(obj if isinstance(obj, type) else type(obj))
    if t in ENGINES:
        return t
    return None


def _builtin(callable_):
    """A function, method or type of Python itself: one that allocates."""
    if isinstance(callable_, type):
        return callable_.__module__ in ("builtins", "itertools")
    return isinstance(callable_, (types.BuiltinFunctionType, types.MethodDescriptorType)) and callable_.__name__ not in ("isinstance", "len", "hasattr", "getattr", "callable")


def _cleanup_lines(filename):
    if filename not in _regions:
        out = []
        try:
            with open(filename) as f:
                tree = ast.parse(f.read())
            for node in ast.walk(tree):
                if isinstance(node, ast.Try):
                    for h in node.handlers:
                        out.append((h.lineno, h.end_lineno))
                    if node.finalbody:
                        out.append((node.finalbody[0].lineno, node.finalbody[-1].end_lineno))
        except (OSError, SyntaxError):
            pass
        _regions[filename] = out
    return _regions[filename]


def _cleaning_up():
    f = sys._getframe(2)
    while f is not None:
        name = f.f_code.co_filename
        if f.f_code.co_name in ("__exit__", "__del__", "__aexit__"):
            return True
        if name.startswith(envinfo.PKG):
            line = f.f_lineno
            for a, b in _cleanup_lines(name):
                if a <= line <= b:
                    return True
        f = f.f_back
    return False


def _on_call(code, offset, callable_, arg0):
    st = _state
    s = sched.CURRENT
    if s is not None:
        if _lines_on:
            s.yield_point((code.co_qualname, "call"))
        if st is not None and st.thread is not None and s.me() != st.thread:
            return
    if st is None:
        return
    eng = _engine(callable_, arg0)
    if eng is None and st.wide and _builtin(callable_):
        eng = "python"
    if eng is None or (st.only and eng not in st.only):
        return
    if _cleaning_up():
        return
    n = st.n
    st.n = n + 1
    if st.k is not None and n == st.k and st.fired is None:
        f = sys._getframe(1)
        name = getattr(callable_, "__qualname__", None) or getattr(callable_, "__name__", None) or type(callable_).__name__
        st.fired = (code.co_qualname, f.f_lineno, f"{eng}:{name}")
        st.raised = KINDS[st.kind]("injected fault")
        raise st.raised


def _on_line(code, line):
    s = sched.CURRENT
    if s is not None:
        s.yield_point((code.co_qualname, line))


def _walk(code, out):
    if code in out:
        return
    out.add(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk(c, out)


def rescan():
    found = set()
    for mod in list(sys.modules.values()):
        fn = getattr(mod, "__file__", None)
        if not (isinstance(fn, str) and fn.startswith(envinfo.PKG)):
            continue
        for obj in gc.get_objects():
            if isinstance(obj, types.FunctionType) and obj.__code__.co_filename.startswith(envinfo.PKG):
                _walk(obj.__code__, found)
        break
    for code in found - _codes:
        MON.set_local_events(TOOL, code, EV.CALL | (EV.LINE if _lines_on else 0))
    _codes.update(found)


def lines(on):
    """Preemption points on or off (they slow every line down)."""
    global _lines_on
    _lines_on = on
    for code in _codes:
        MON.set_local_events(TOOL, code, EV.CALL | (EV.LINE if on else 0))


def install():
    MON.use_tool_id(TOOL, "pvsim")
    MON.register_callback(TOOL, EV.CALL, _on_call)
    MON.register_callback(TOOL, EV.LINE, _on_line)
    rescan()
