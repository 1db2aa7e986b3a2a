"""Canonical, comparable pictures of datasets and other values."""
import hashlib
import json

from .world import np, pv

TOL = 1e-6


def _arr(a):
    a = np.asarray(a)
    if a.dtype.kind in "OSU":
        return ["str", list(a.shape), [str(x) for x in a.ravel().tolist()]]
    return np.array(a)  # own copy


def _user_dict(mesh):
    fd = mesh.GetFieldData()
    vtkarr = fd.GetAbstractArray("_PYVISTA_USER_DICT")
    if vtkarr is None:
        return {}
    try:
        s = "".join(vtkarr.GetValue(i) for i in range(vtkarr.GetNumberOfValues()))
        return json.loads(s) if s else {}
    except (ValueError, TypeError, AttributeError) as exc:
        return {"?": repr(exc)}


def _vtk_arrays(attrs, skip=()):
    from vtkmodules.util.numpy_support import vtk_to_numpy

    out = []
    for i in range(attrs.GetNumberOfArrays()):
        a = attrs.GetAbstractArray(i)
        if a is None or a.GetName() in skip:
            continue
        try:
            v = _arr(vtk_to_numpy(a))
        except Exception:
            v = ["raw", [str(a.GetValue(j)) for j in range(a.GetNumberOfValues())]]
        out.append([a.GetName(), v])
    return out


def mesh_fp(mesh, data=True, order=True):
    """Full picture of a dataset, read through VTK so that looking does not touch it."""
    from vtkmodules.util.numpy_support import vtk_to_numpy

    d = {"type": type(mesh).__name__, "n": [mesh.GetNumberOfPoints(), mesh.GetNumberOfCells()]}
    if hasattr(mesh, "GetDimensions") and isinstance(mesh, (pv.ImageData, pv.RectilinearGrid, pv.StructuredGrid)):
        d["dims"] = [int(x) for x in mesh.dimensions]
    if isinstance(mesh, pv.ImageData):
        d["origin"], d["spacing"] = np.array(mesh.GetOrigin()), np.array(mesh.GetSpacing())
    elif isinstance(mesh, pv.RectilinearGrid):
        d["xyz"] = [_arr(vtk_to_numpy(a)) for a in (mesh.GetXCoordinates(), mesh.GetYCoordinates(), mesh.GetZCoordinates())]
    else:
        pts = mesh.GetPoints()
        d["points"] = _arr(vtk_to_numpy(pts.GetData())) if pts is not None else None
    if isinstance(mesh, pv.UnstructuredGrid):
        c = mesh.GetCells()
        d["conn"] = [_arr(vtk_to_numpy(c.GetConnectivityArray())), _arr(vtk_to_numpy(c.GetOffsetsArray()))] if c is not None else None
        t = mesh.GetCellTypesArray()
        d["celltypes"] = _arr(vtk_to_numpy(t)) if t is not None else None
        if t is not None and (np.asarray(d["celltypes"]) == 42).any():
            f, l = mesh.GetPolyhedronFaces(), mesh.GetPolyhedronFaceLocations()
            d["faces"] = [_arr(vtk_to_numpy(a)) for a in (f.GetConnectivityArray(), f.GetOffsetsArray(), l.GetConnectivityArray(), l.GetOffsetsArray())]
    elif isinstance(mesh, pv.PolyData):
        d["conn"] = [
            _arr(vtk_to_numpy(a))
            for c in (mesh.GetVerts(), mesh.GetLines(), mesh.GetPolys(), mesh.GetStrips())
            for a in (c.GetConnectivityArray(), c.GetOffsetsArray())
        ]
    if data:
        skip = ("_PYVISTA_USER_DICT",)
        for name, attrs in (("point", mesh.GetPointData()), ("cell", mesh.GetCellData()), ("field", mesh.GetFieldData())):
            arrs = _vtk_arrays(attrs, skip)
            d[name] = arrs if order else sorted(arrs, key=lambda x: str(x[0]))
        act = []
        for attrs in (mesh.GetPointData(), mesh.GetCellData()):
            s = attrs.GetScalars()
            act.append(s.GetName() if s is not None else None)
        d["active"] = act
        d["user"] = _user_dict(mesh)
    return d


def fp(x):
    """Canonical picture of any value returned by the library."""
    if isinstance(x, pv.DataObject) and hasattr(x, "GetNumberOfCells"):
        return mesh_fp(x)
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, (np.bool_, np.integer)):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, np.ndarray):
        return _arr(x)
    if isinstance(x, dict):
        return {"dict": [[fp(k), fp(v)] for k, v in x.items()]}
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [fp(v) for v in x]]
    if hasattr(x, "geom_type"):
        import shapely

        return ["shapely", x.geom_type, _arr(shapely.get_coordinates(x))]
    return repr(type(x))


def diff(a, b, path="", tol=TOL, exact=False):
    """First difference of two pictures, or None."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f"{path}: {_short(a)} vs {_short(b)}"
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} vs {b.shape}"
        if exact:
            if a.dtype != b.dtype or a.tobytes() != b.tobytes():
                return f"{path}: {_where(a, b)}"
            return None
        if a.dtype.kind == "f" or b.dtype.kind == "f":
            scale = max(1.0, float(np.nanmax(np.abs(a))) if a.size and np.isfinite(a).any() else 1.0)
            if not np.allclose(a, b, rtol=tol, atol=tol * scale, equal_nan=True):
                return f"{path}: {_where(a, b)}"
            return None
        if not np.array_equal(a, b):
            return f"{path}: {_where(a, b)}"
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        ka, kb = list(a), list(b)
        if set(ka) != set(kb):
            return f"{path}: keys {sorted(map(str, set(ka) ^ set(kb)))}"
        for k in ka:
            r = diff(a[k], b[k], f"{path}.{k}", tol, exact)
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} vs {len(b)}: {_short(a)} vs {_short(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, f"{path}[{_name(a, i)}]", tol, exact)
            if r:
                return r
        return None
    if isinstance(a, float) and isinstance(b, float) and not exact:
        return None if np.isclose(a, b, rtol=tol, atol=tol, equal_nan=True) else f"{path}: {a} vs {b}"
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return f"{path}: {_short(a)} vs {_short(b)}"
    if a != b and not (a != a and b != b):
        return f"{path}: {_short(a)} vs {_short(b)}"
    return None


def _name(a, i):
    x = a[i]
    return x[0] if isinstance(x, list) and len(x) == 2 and isinstance(x[0], str) else i


def _short(x):
    s = repr(x)
    return s if len(s) < 120 else s[:117] + "..."


def _where(a, b):
    try:
        d = np.flatnonzero((a != b).reshape(-1) & ~((a != a) & (b != b)).reshape(-1))
        i = int(d[0]) if d.size else 0
        return f"{d.size} of {a.size} values differ, first at {i}: {a.reshape(-1)[i]} vs {b.reshape(-1)[i]}"
    except Exception:
        return "values differ"


def digest(x):
    """Stable digest of a picture (floats rounded)."""
    h = hashlib.sha1()

    def rec(x):
        if isinstance(x, np.ndarray):
            h.update(str(x.shape).encode())
            if x.dtype.kind == "f":
                with np.errstate(all="ignore"):
                    x = np.round(x.astype(float), 6) + 0.0
            h.update(np.ascontiguousarray(x).tobytes())
        elif isinstance(x, dict):
            for k in x:
                h.update(str(k).encode())
                rec(x[k])
        elif isinstance(x, (list, tuple)):
            h.update(b"[")
            for v in x:
                rec(v)
        elif isinstance(x, float):
            h.update(f"{x:.6g}".encode())
        else:
            h.update(repr(x).encode())

    rec(x)
    return h.hexdigest()[:16]
