"""Results depend on the arguments only, not on the process."""
import decimal
import gc
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import warnings

from vtkmodules.vtkCommonCore import vtkObject, vtkOutputWindow, vtkSMPTools, vtkStringOutputWindow

from ..bsim import call as faulted, count, gen_fault
from ..core import Outcome, generic_shrinks
from ..fp import diff, digest, fp
from ..fresh import ask
from ..ops import Call, gen_call, gen_pool
from ..recipes import realize
from ..world import gmsh, np, pv
from .c01 import _refs
from .c05 import gen_polygon

ID = "C10"
HASHSEEDS = ["0", "1", "77"]


def gen(rng, index, tier):
    pool = gen_pool(rng)
    steps = []
    for _ in range(rng.randint(2, 4)):
        st = {"call": gen_call(rng, pool, gui=True) if rng.random() < 0.93 else gen_polygon(rng), "hash": rng.choice(HASHSEEDS)}
        if rng.random() < 0.35:
            st["fault"] = gen_fault(rng)
        if rng.random() < 0.7:
            st["env"] = rng.sample(["random", "numpy", "err", "warn", "print", "chdir", "environ", "gc", "alloc"], rng.randint(1, 3))
            st["v"] = rng.randrange(10**6)
        steps.append(st)
    used = _refs(steps)
    return {"pool": {k: v for k, v in pool.items() if k in used}, "steps": steps}


# ------------------------------------------------------------------ what the caller sees
_PRINT, _CWD = np.get_printoptions(), os.getcwd()
_SIGNALS = {s: signal.getsignal(s) for s in (signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)}
_LIMIT, _PATH, _SHOW, _LEVEL, _GC = sys.getrecursionlimit(), list(sys.path), warnings.showwarning, logging.root.level, gc.get_threshold()


def settle():
    """Settings as they were: what an earlier call left does not hide what this one does."""
    np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")  # numpy's own
    np.set_printoptions(**{k: v for k, v in _PRINT.items() if k != "override_repr"})
    warnings.resetwarnings()
    warnings.simplefilter("default")
    warnings.showwarning = _SHOW
    os.chdir(_CWD)
    for s, h in _SIGNALS.items():
        if h is not None:
            signal.signal(s, h)
    signal.setitimer(signal.ITIMER_REAL, 0.0)
    sys.setrecursionlimit(_LIMIT)
    sys.path[:] = _PATH
    logging.root.setLevel(_LEVEL)
    logging.disable(logging.NOTSET)
    gc.set_threshold(*_GC)
    vtkOutputWindow.SetInstance(vtkStringOutputWindow())  # displayed, but to nobody
    vtkObject.GlobalWarningDisplayOn()


class settled:
    """Default settings for a while, and nobody to read the warnings."""

    def __enter__(self):
        self.err, self.vtk = sys.stderr, vtkObject.GetGlobalWarningDisplay()
        self.filters, self.np = list(warnings.filters), np.geterr()
        settle()
        self.null = open(os.devnull, "w")
        sys.stderr = self.null

    def __exit__(self, *exc):
        sys.stderr = self.err
        self.null.close()
        vtkObject.SetGlobalWarningDisplay(self.vtk)
        np.seterr(**self.np)
        warnings.filters[:] = self.filters
        warnings._filters_mutated()


def theme():
    try:
        return repr(sorted((k, repr(v)) for k, v in pv.global_theme.to_dict().items()))
    except Exception as exc:
        return repr(exc)


def settings():
    """Settings of the process, shared by all its threads."""
    st = np.random.get_state()
    d = {
        "random generator": repr(random.getstate()),
        "numpy random generator": repr((st[0], st[1].tobytes(), st[2:])),
        "floating-point settings": repr(np.geterr()),
        "print options": repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items())),
        "warning filters": repr(warnings.filters),
        "showwarning": repr(warnings.showwarning),
        "signal handlers": repr([signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)]),
        "timers": repr(signal.getitimer(signal.ITIMER_REAL)),
        "environment": repr(sorted(os.environ.items())),
        "working directory": os.getcwd(),
        "theme": theme(),
        "gc": (gc.isenabled(), gc.get_threshold()),
        "recursion limit": sys.getrecursionlimit(),
        "sys.path": repr(sys.path),
        "excepthook": repr(sys.excepthook),
        "standard streams": repr([id(sys.stdout), id(sys.stderr), id(sys.stdin)]),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
        "gmsh": bool(gmsh.isInitialized()),
        "VTK settings": _vtk(),
        "decimal context": repr(decimal.getcontext()),
        "thread switching": sys.getswitchinterval(),
        "trace functions": (repr(sys.gettrace()), repr(sys.getprofile()), repr(threading.excepthook)),
        "umask": _umask(),
    }
    return d


def snapshot():
    return {
        **settings(), "open files": sorted(_fds()), "threads": sorted(t.name for t in threading.enumerate()), "files": _files(),
    }


def _vtk():
    return (vtkObject.GetGlobalWarningDisplay(), vtkSMPTools.GetBackend(), vtkSMPTools.GetEstimatedNumberOfThreads(), repr(pv.vtk_verbosity()) if hasattr(pv, "vtk_verbosity") else None)


def _umask():
    old = os.umask(0o22)
    os.umask(old)
    return old


def _files():
    return sorted(os.path.join(os.path.relpath(d, _CWD), f) for d, _, fs in os.walk(_CWD) for f in fs)


MODULES = ["numpy", "numpy.linalg", "numpy.random", "pyvista", "scipy.spatial", "scipy.interpolate", "shapely", "gmsh", "warnings", "builtins", "math", "itertools"]
CLASSES = ["DataSet", "PolyData", "UnstructuredGrid", "StructuredGrid", "ImageData", "RectilinearGrid", "ExplicitStructuredGrid", "DataSetAttributes"]


def _namespaces():
    """The engines themselves: what the attributes of their modules and classes are."""
    out = {}
    for n in MODULES:
        m = sys.modules.get(n)
        if m is not None:
            out.update({(n, k): v for k, v in vars(m).items() if not (k.startswith("__") or k == "_")})
    for n in CLASSES:
        c = getattr(pv, n)
        out.update({(f"pyvista.{n}", k): v for k, v in vars(c).items() if not k.startswith("_abc")})
    return out


def patched(before, after):
    """An attribute that is another object now, or gone (new ones are lazy imports)."""
    for k, v in before.items():
        if after.get(k, before) is not v:
            return ".".join(k)
    return None


def _fds():
    out = []
    for x in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink(f"/proc/self/fd/{x}")
        except OSError:
            continue
        if "/proc/" not in t:
            out.append(f"{x}:{t}")
    return out


class environment:
    """The caller's own settings during a call."""

    def __init__(self, names, v):
        self.names, self.v = names, v

    def __enter__(self):
        self.cwd = os.getcwd()
        self.cw = warnings.catch_warnings()
        self.cw.__enter__()
        self.err = np.geterr()
        self.po = np.get_printoptions()
        self.alloc = None
        for n in self.names:
            if n == "random":
                random.seed(self.v)
            elif n == "numpy":
                np.random.seed(self.v)
            elif n == "err":
                np.seterr(**{k: ["ignore", "warn"][self.v >> i & 1] for i, k in enumerate(("divide", "over", "under", "invalid"))})
            elif n == "warn":
                warnings.simplefilter(["ignore", "always", "default"][self.v % 3])
            elif n == "print":
                np.set_printoptions(precision=self.v % 5, threshold=3)
            elif n == "chdir":
                os.chdir(os.path.join(_CWD, "elsewhere"))
            elif n == "environ":
                os.environ["PVSIM_EXTRA"] = str(self.v)
            elif n == "gc":
                gc.disable()
            elif n == "alloc":
                self.alloc = [np.full(1000 + self.v % 977, 3.7) for _ in range(20)]
                self.alloc = None
        return self

    def __exit__(self, *exc):
        gc.enable()
        os.environ.pop("PVSIM_EXTRA", None)
        os.chdir(self.cwd)
        np.seterr(**self.err)
        np.set_printoptions(**{k: v for k, v in self.po.items() if k != "override_repr"})
        self.cw.__exit__(None, None, None)


def execute(sc):
    out = Outcome()
    if gmsh.isInitialized():
        gmsh.finalize()
    global _CWD
    err, home = sys.stderr, _CWD
    # a directory of its own: files left behind are seen
    _CWD = tempfile.mkdtemp(prefix="pvsim-")
    os.mkdir(os.path.join(_CWD, "elsewhere"))
    old, tempfile.tempdir = tempfile.tempdir, _CWD
    quiet = vtkObject.GetGlobalWarningDisplay()
    with open(os.devnull, "w") as null:
        sys.stderr = null  # warnings shown by the settings of the caller
        try:
            for st in sc["steps"]:
                out.count("steps")
                step(out, sc, st)
                if out.violation:
                    break
        finally:
            sys.stderr = err
            os.chdir(home)
            shutil.rmtree(_CWD, ignore_errors=True)
            _CWD, tempfile.tempdir = home, old
            vtkObject.SetGlobalWarningDisplay(quiet)
    return out


def step(out, sc, st):
    call = st["call"]
    name = call["f"] if call["f"] != "history" else call["kw"]["spec"]["cls"]
    fault = st.get("fault")
    used = _refs(call)
    spec = {k: v for k, v in sc["pool"].items() if k in used}
    n = None
    if fault is not None:
        _, _, n = count(Call(call, {k: realize(v) for k, v in spec.items()}).run, fault)
    else:
        want, ref = ask({"call": call, "pool": spec}, st["hash"])
        if want in ("harness", "crash"):
            raise RuntimeError(f"fresh process: {want} {ref}")
    c = Call(call, {k: realize(v) for k, v in spec.items()})
    settle()
    with environment(st.get("env", []), st.get("v", 0)):
        before, spaces = snapshot(), _namespaces()
        got, val, inj = faulted(c.run, fault, n)
        after, p = snapshot(), patched(spaces, _namespaces())
    for e in st.get("env", []):
        out.count(f"fault:caller's {e} settings")
    if inj.fired:
        out.count(f"fault:{fault['kind']}")
    out.event(name, got, inj.fired[0] if inj.fired else None)
    out.sig(name, got, inj.fired[:2] if inj.fired else None, st["hash"], tuple(sorted(st.get("env", []))))
    out.nontrivial = True
    changed = [k for k in before if before[k] != after[k]]
    if changed:
        out.fail(f"state:{name}", f"{name} ({got}) changed the caller's {', '.join(changed)}: {str(before[changed[0]])[:150]} -> {str(after[changed[0]])[:150]}")
        return
    if p:
        out.fail(f"state:{name}", f"{name} ({got}) replaced {p}")
        return
    if fault is not None:
        return
    if got != want:
        out.fail(f"outcome:{name}", f"{name} -> {got} ({val!r:.200}), in a fresh process (hash seed {st['hash']}) -> {want} ({ref if isinstance(ref, str) else ''})")
        return
    if got == "ok":
        pic = fp(val)
        d = diff(ref, pic, tol=1e-9)
        out.count("probe:result compared with a fresh process")
        out.event(digest(pic))
        if d:
            out.fail(f"result:{name}", f"{name} differs from the same call in a fresh process (hash seed {st['hash']}): {d}")
    else:
        out.count("probe:call rejected as in a fresh process")


def shrinks(sc):
    yield from generic_shrinks(sc)
    for i, st in enumerate(sc["steps"]):
        if st.get("env"):
            yield {**sc, "steps": sc["steps"][:i] + [{k: v for k, v in st.items() if k != "env"}] + sc["steps"][i + 1:]}
    used = _refs(sc["steps"])
    if set(sc["pool"]) - used:
        yield {**sc, "pool": {k: v for k, v in sc["pool"].items() if k in used}}
