"""Writes MANIFEST.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Trusts TLC, the drivers that record what the code did, and the Java evaluations of the two round functions "
         "(compared with their TLA+ definitions and with RFC 7693 by SelfCheck).")
CHECKS = {}


def claim(prop, technique, note):
    CHECKS[prop] = (technique, note)


exec(open(os.path.join(VERIF, "lib/claims.py")).read())

manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {
        "guard": "baokeshed_verif",
        "enable": "RUSTFLAGS='--cfg baokeshed_verif' when building the driver crate in harness/ (lib/vp.py, rust_driver)",
        "source_commits": ["32c871f"],
    },
    "checks": [
        {"property": p, "quick_cmd": f"python3 check.py {p}",
         "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
         "evidence_file": f"evidence/{p}.json", "technique": t, "level": "model_checking", "level_note": f"{n} {TRUST}"}
        for p, (t, n) in sorted(CHECKS.items())
    ],
    "not_applicable": [
        {"property": p, "reason": "not built yet"}
        for p in [json.loads(x)["id"] for x in open(os.path.join(VERIF, "properties.jsonl"))] if p not in CHECKS
    ],
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
