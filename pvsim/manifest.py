"""Writes MANIFEST.json from the catalog."""
import json

from . import catalog, envinfo

NOT_APPLICABLE = {
    "C17": "Pure functions of their arguments: no history, schedule, fault, I/O or party for the property to depend on; a simulator would only be sampling inputs.",
    "C18": "Pure numerical function of its arguments; the only nondeterminism below it (enumeration order of the cells hit) is simulated under C09, the geometry itself has no schedule or fault to search.",
    "C19": "Pure numerical functions of their arguments, without state, schedule or fault.",
    "C20": "Quality of a triangulation computed by Gmsh from its arguments alone; the stateful part (session, interrupts, options) is C05, the rest has no schedule or fault to search.",
}


def write():
    checks = []
    for prop, m in catalog.CHECKS.items():
        checks.append({
            "property": prop,
            "quick_cmd": f"/opt/venv/bin/python -B -m pvsim check {prop} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python -B -m pvsim check {prop} --tier thorough",
            "technique": "deterministic simulation with fault injection: " + m["technique"],
            "level": m["level"],
            "level_note": m["level_note"],
        })
    todo = [json.loads(line)["id"] for line in (envinfo.VERIF / "properties.jsonl").read_text().splitlines()]
    na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "No check yet.")} for p in todo if p not in catalog.CHECKS]
    doc = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
    (envinfo.VERIF / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
