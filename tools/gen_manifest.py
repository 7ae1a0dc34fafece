#!/usr/bin/env python3
"""regenerates MANIFEST.json from properties.jsonl and the checks present in sa/checks"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
TECH = {"C01": "effect and data-sharing analysis of OpenMP regions over the clang AST", "C17": "undefined-value (definite-initialisation) dataflow analysis over the clang AST"}
DEF = "gated value-numbering dataflow analysis (abstract interpretation) over the clang AST, compared with specification terms by normal form and per guard cell"
NOTE = ("Decided from the type-checked syntax tree of /repo's current source, for 2D and 3D and the spline degrees named in the evidence, over all paths, without running the program. Value numbers that differ syntactically are compared "
        "by exact polynomial/rational normalisation in each guard cell, else by valuation of both terms at sample points of the cell, so equality of those terms is established up to the sampled points. Real arithmetic is assumed for floating point; Eigen, "
        "libstdc++ and OpenMP constructs are trusted through the library model in sa/lib.py.")
NA = {
 "C21": "dimensional consistency would need trusted physical units for every field, literal and tuning constant (cut-offs such as 1e-10, 1e-2, 1e-8*dx are dimensionally inconsistent by design), so any static unit inference would alarm on correct code",
 "C90": "quantifies over the numerical energy of whole trajectories (explicit integration with PIC/FLIP dissipation); no sound static argument in reach bounds it",
 "C91": "convergence of Newton iterations depends on runtime magnitudes of stresses and parameters; static analysis cannot bound it (the reaction to non-convergence is covered by C18)",
 "C92": "accumulated floating-point rounding under reordering is a runtime quantity; the absence of races, which is the static part, is C01",
 "C93": "finiteness of all fields over whole runs depends on runtime magnitudes and stability of the scheme",
 "C94": "the geometry lies in a binary OpenVDB file and in OpenVDB's interpolation, outside the source that static analysis inspects",
}
checks = []; na = []
for p in props:
    if os.path.exists(f"{V}/sa/checks/{p.lower()}.py"):
        checks.append(dict(property=p, quick_cmd=f"python3-vt check.py {p} quick", thorough_cmd=f"python3-vt check.py {p} thorough", evidence_file=f"evidence/{p}.json", technique=TECH.get(p, DEF), level="other", level_note=NOTE))
    else: na.append(dict(property=p, reason=NA.get(p, "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3-vt tools/warm.py", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
