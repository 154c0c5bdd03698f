"""Writes ../MANIFEST.json from props.py."""
import json, os
import props

TECH = "abstract interpretation (shape analysis) of rustc MIR to a fixpoint"
NOTE = ("Exhaustive over the abstract domain: every path of the compiled code is followed on abstract forests that "
        "stand for forests of every size. Trusted: rustc's MIR, the MIR exporter, the abstract interpreter and its "
        "models of std containers (listed in the evidence).")

out = {
    "version": 1,
    "setup_cmd": "cd mirdump && cargo +nightly build --offline --quiet",
    "checks": [],
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(props.NOT_APPLICABLE.items())],
    "notes": "See DESIGN.md. Checks exit 2 (with UNDECIDED lines) when the source uses something outside the analysis' "
             "domain, rather than claiming either verdict.",
}
for pid, p in sorted(props.PROPS.items()):
    out["checks"].append({
        "property": pid,
        "quick_cmd": "python3 engine/check.py --property %s --tier quick" % pid,
        "thorough_cmd": "python3 engine/check.py --property %s --tier thorough" % pid,
        "technique": p.technique or TECH,
        "level": p.level,
        "level_note": p.note or NOTE,
    })
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
