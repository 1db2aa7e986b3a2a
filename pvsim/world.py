"""
The simulated world: imports the real pvgridder from /repo with every seam in place.

Seams are installed *before* pvgridder is imported, so that code which binds names at
import time gets them too. Each is the identity until a simulation activates it.

* threading.Lock / RLock created by pvgridder code -> SimLock (scheduler decides who runs)
* scipy.spatial.KDTree.query_pairs, scipy.spatial.Voronoi, and pyvista's
  find_cells_intersecting_line / extract_feature_edges: enumeration order of the engine
* every call made by pvgridder code (sys.monitoring CALL): faults
* every line of pvgridder code (sys.monitoring LINE): thread preemption
"""
import os
import sys
import threading
import warnings

from . import envinfo

warnings.simplefilter("ignore")
sys.path.insert(0, str(envinfo.REPO))

import numpy as np  # noqa: E402
import pyvista as pv  # noqa: E402
import scipy.spatial  # noqa: E402
import scipy.interpolate  # noqa: E402,F401
import scipy.spatial.transform  # noqa: E402,F401
import shapely  # noqa: E402,F401
import gmsh  # noqa: E402
import vtk  # noqa: E402,F401

np.seterr(all="ignore")
try:
    import vtkmodules.vtkCommonCore as _vcc

    _vcc.vtkObject.GlobalWarningDisplayOff()
    _vcc.vtkSMPTools.SetBackend("Sequential")
except Exception:  # pragma: no cover
    pass

from . import order, sched  # noqa: E402

_real_lock, _real_rlock = threading.Lock, threading.RLock


def _is_pkg_frame(frame):
    return frame is not None and frame.f_code.co_filename.startswith(envinfo.PKG)


def _lock(*args):
    return sched.SimLock(False) if _is_pkg_frame(sys._getframe(1)) else _real_lock(*args)


def _rlock(*args):
    return sched.SimLock(True) if _is_pkg_frame(sys._getframe(1)) else _real_rlock(*args)


threading.Lock, threading.RLock = _lock, _rlock
order.install()

import pvgridder as pvg  # noqa: E402

assert pvg.__file__.startswith(envinfo.PKG), pvg.__file__

from . import inject  # noqa: E402

inject.install()


def seal():
    """Instrument code objects created since (lazy imports)."""
    inject.rescan()


__all__ = ["np", "pv", "pvg", "gmsh", "seal", "vtk"]
