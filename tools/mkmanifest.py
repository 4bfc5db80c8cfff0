import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
hook = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if " hooks: " in l]
note = {}
default = ("Every case drawn by TLC from the generator specification runs on the code built from /repo's tree and its recorded events are replayed by TLC on the specification; "
           "the state machine itself is checked exhaustively within the bounds of its configuration. Trusted: TLC, the harness's recording, and the tolerances stated in the specification.")
checks = [{
    "property": p["id"],
    "quick_cmd": "python3 tools/check.py %s quick" % p["id"],
    "thorough_cmd": "python3 tools/check.py %s thorough" % p["id"],
    "evidence_file": "evidence/%s.json" % p["id"],
    "technique": "TLA+ specification checked with TLC; " + ("TLC-simulated command histories executed on the tool and replayed on the specification" if p["id"] in ("C18", "C19", "C20", "C21")
                 else "TLC-simulated call histories executed on the library and replayed on the specification" if p["id"] == "C03"
                 else "TLC-generated cases executed on the library, recorded traces replayed on the specification"),
    "level": "model_checking",
    "level_note": note.get(p["id"], default),
} for p in props]
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": {"guard": "visqol_verif",
              "enable": "RUSTFLAGS=\"--cfg visqol_verif --cfg visqol_verif_probe\" (the second turns on the recording points); the harness falls back to fewer hooks, down to the public API, if a tree no longer offers them",
              "source_commits": hook},
    "checks": checks,
    "not_applicable": [],
    "notes": "Specification in spec/, harness crate in harness/, baseline program for the command line tool in clibase/, driver in tools/check.py. known_findings.txt lists the repaired defects.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
