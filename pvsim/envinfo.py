"""Process environment of every simulated run (no third-party import here)."""
import os
import pathlib
import sys

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
PKG = str(REPO / "pvgridder") + os.sep
OUT = VERIF / "out"
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def child_env(hashseed="0"):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(
        PYTHONPATH=str(VERIF),
        PYTHONHASHSEED=str(hashseed),
        PYTHONDONTWRITEBYTECODE="1",  # bytecode stays out of /repo, always compiled from source
        PYTHONPYCACHEPREFIX=str(OUT / "nopycache"),
        VTK_SMP_BACKEND_IN_USE="Sequential",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        MPLBACKEND="Agg",
        PYVISTA_OFF_SCREEN="true",
        HOME=os.environ.get("HOME", "/root"),
        PVSIM="1",
    )
    env.pop("DISPLAY", None)
    return env
