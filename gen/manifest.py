"""Writes MANIFEST.json from the registered checks:  python3 gen/manifest.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props  # noqa: E402

NOTE = {
    "full": "Every result of every call of the generated cases equals what the TLA+ specification computes for it, "
            "decided by TLC trace validation; exhaustive over walking bits, narrow field values and the stated "
            "small scopes, sampled (seeded) beyond. Trusts TLC, the transcription of the vendor manuals in "
            "spec/Fields.tla, and that the CPU is what the reader returns.",
    "display": "The lines the real code prints on a terminal, reduced to cells, equal what the TLA+ specification "
               "computes from the same register tables, decided by TLC trace validation. Trusts the terminal "
               "renderer's table layout (widths and colours are not judged) and the recorder's reduction to cells; "
               "texts with characters that the renderer interprets are judged by completion only.",
    "total": "TLC checks that no recorded call of the generated cases panicked, overflowed (debug build with overflow "
             "checks) or ran away; unbounded recursion and endless calls are caught by a watchdog. The model check "
             "proves termination of every enumeration of the model on small lists.",
    "reads": "TLC checks every leaf number the library handed to the reader, for every call of the generated cases, "
             "against the specification's MayRead.",
}
NOT = {}
checks = []
for pid in sorted(props.PROPS):
    e = props.PROPS[pid]
    mode, mcs = e[1], e[2]
    module = e[4] if len(e) > 4 else "Trace"
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s quick" % pid,
        "thorough_cmd": "python3 check.py %s thorough" % pid,
        "technique": "TLA+ specification: TLC model check (%s) and TLC trace validation of the real code (%s)" %
                     (", ".join("MC_" + m for m in mcs), module),
        "level": "model_checking",
        "level_note": NOTE["display" if module == "ReportTrace" else mode],
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT.items()) if p not in props.PROPS],
    "notes": "No hooks: the checks use the public API over a recording CpuIdReader.",
}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
