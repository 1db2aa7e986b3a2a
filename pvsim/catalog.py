"""What each check runs: sizes, levels and the description of its evidence."""

REAL = ["pvgridder (all of it, from /repo)", "numpy", "pyvista", "VTK", "scipy", "shapely", "Gmsh"]
FAULTS_STUB = ["the k-th call of pvgridder into an engine or a user callable raises instead of being made"]
ASSUME = [
    "a fault is an exception at a call pvgridder makes into an engine or a user callable; faults inside an engine's own code and during clean-up are not injected",
]
NT = "a run is counted if it got as far as comparing at least one result with its oracle; runs are distinct by the digest of their event log"


def _c(quick, thorough, rule=NT, measure="", stub=FAULTS_STUB, real=REAL, assumptions=ASSUME, budget=(200, 1500), level="exploration", technique="", note=None, **kw):
    return {
        "runs": {"quick": quick, "thorough": thorough}, "budget": {"quick": budget[0], "thorough": budget[1]}, "level": level, "rule": rule,
        "measure": measure, "real": real, "stub": stub, "assumptions": assumptions,
        "technique": technique, "level_note": note or NOTE, **kw,
    }


BUILDER_MEASURE = "distinct (call, outcome, faulted function, number of accepted calls) and distinct meshes generated"

MODEL_MEASURE = "distinct meshes generated and compared with the model"

GUI_REAL = ["pvgridder.interactive_selection and interactive_lasso_selection (and what they call), from /repo", "pyvista (except the plotter)", "VTK (except rendering)", "shapely"]
GUI_STUB = ["plotter, window and user: scripted picks and clicks handed to the registered callbacks through PyVista's try_callback; the n-th plotter call of a callback fails"]
GUI_ASSUME = ["rendering is not available in this sandbox: the plotter is a stand-in with the methods of pyvista.Plotter", "picks hit the mesh itself, not the highlight of a cell already selected"]

NOTE = "Seeded search over bounded histories on small meshes; real code and engines, no exhaustive enumeration."
CHECKS = {
    "C01": _c(8000, 100000, measure="distinct (function, outcome, faulted call site)",
              technique="seeded sequences of public calls on shared inputs, each optionally aborted at its k-th engine call, with exact pictures of every input before and after"),
    "C02": _c(1600, 20000, measure=BUILDER_MEASURE,
              technique="seeded histories of builder calls with a fault at the k-th engine call or user callable, checked against a fresh builder given the accepted calls only"),
    "C03": _c(1600, 20000, measure=BUILDER_MEASURE,
              technique="seeded histories interleaving successful, failed and aborted generate_mesh calls, each compared with a fresh builder generated once"),
    "C04": _c(1600, 20000, measure=BUILDER_MEASURE,
              technique="seeded histories with in-place edits of inputs, outputs and a twin builder on the same inputs, each mesh compared with a fresh builder on private inputs"),
    "C05": _c(3000, 60000, chunk=500, measure="distinct (call, outcome, faulted call site, caller session or not)",
              stub=FAULTS_STUB + ["a caller who opens, configures and closes Gmsh sessions and changes the SIGINT handler"],
              technique="seeded histories of caller Gmsh sessions and Polygon calls aborted at any engine call; engine state compared before and after, meshes compared with a fresh process"),
    "C06": _c(1500, 30000, measure="distinct interleavings: (step, from thread, to thread, code line) of every preemption",
              stub=FAULTS_STUB + ["thread scheduling: the simulator decides who runs at every line and call of pvgridder code and at its locks"],
              assumptions=ASSUME + ["threads are preempted at lines and calls of pvgridder code, not inside the engines"],
              technique="seeded preemptive schedules of 2-4 real threads calling the package on shared datasets, a shared builder or Gmsh, one of them optionally aborted, compared with the same calls made one after the other"),
    "C07": _c(8000, 150000, chunk=500, measure="distinct (mode, picks, ids returned)", stub=GUI_STUB, real=GUI_REAL, assumptions=GUI_ASSUME,
              technique="seeded sequences of picks with failing plotter calls, compared with an ordered-set model of the selection and with the highlighted actors of the scene"),
    "C08": _c(8000, 150000, chunk=500, measure="distinct (view, mode, polygon size, ids returned)", stub=GUI_STUB, real=GUI_REAL, assumptions=GUI_ASSUME,
              technique="seeded sequences of clicks with failing plotter calls in all views, compared with an independent point-in-polygon test in the plane of the view"),
    "C09": _c(4000, 80000, chunk=250, measure="distinct (function, outcome, enumeration order drawn)",
              stub=["enumeration order of KDTree.query_pairs, scipy Voronoi (vertices, regions, ridges), find_cells_intersecting_line and extract_feature_edges: the real engine's answer, reordered by the simulator"],
              assumptions=["only the orders of the engine answers named above are varied", "boundary polygons and the holes of each are compared as sets; Voronoi cells up to vertices on straight edges"],
              technique="the same call repeated under seeded reorderings of every engine answer it consumes, results compared cell by cell"),
    "C10": _c(1600, 40000, chunk=200, measure="distinct (function, outcome, faulted call site, hash seed, caller settings)",
              stub=FAULTS_STUB + ["the caller's process: random state, floating-point, warning and print settings, working directory, environment, garbage collection and hash seed"],
              technique="seeded sequences of calls under varied caller settings, aborted at any engine call; process state compared before and after, results compared with a fresh process of another hash seed"),
    "C11": _c(4000, 80000, measure=MODEL_MEASURE,
              technique="seeded histories of accepted, rejected and aborted stacking calls; every mesh compared cell by cell with an executable reference model of the accepted calls"),
    "C12": _c(3000, 80000, measure=MODEL_MEASURE,
              technique="seeded histories of accepted, rejected and aborted extrusion calls; every mesh compared cell by cell with an executable reference model of the accepted calls"),
    "C13": _c(3000, 80000, measure=MODEL_MEASURE,
              technique="seeded histories of accepted, rejected and aborted merge calls, items edited in between; every mesh compared cell by cell with an executable reference model of the accepted calls"),
    "C14": _c(3000, 80000, measure=MODEL_MEASURE,
              technique="seeded histories of accepted, rejected and aborted calls; every mesh compared with an independent half-plane construction of the regions of the sites the accepted calls ask for"),
    "C15": _c(4000, 100000, chunk=250, measure="distinct (query, arguments, mesh type, cell types, ghost cells or not)",
              technique="seeded histories of in-place edits, queries and aborted queries on several meshes; every answer compared with a brute-force reading of the mesh, cell by cell, through VTK"),
    "C16": _c(4000, 100000, chunk=250, measure="distinct (operation, mesh type, cell types, number of cells)",
              technique="seeded chains of mesh operations, each optionally aborted at an engine call and repeated; every mesh compared cell by cell with a record of the cells that were kept"),
    "C21": _c(8000, 100000, chunk=250, measure="distinct (function, outcome, faulted call site)",
              technique="seeded public calls and builder histories, each failed at its k-th engine call or user callable by one of seven kinds of failure; what comes back is compared with the failure injected and with the result without it"),
}
