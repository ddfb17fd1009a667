"""Writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]

NA = {
    "N01": "Parsing is a pure function of one in-memory text: no schedule, clock, I/O, fault or second party that a simulator could control, so this family has nothing to decide there. (Totality as a server meets it is covered through L07.)",
    "N02": "Validation is a pure function of one parsed schema; nothing in it depends on scheduling, time, I/O or faults. (What the tools make of it is covered: its verdict over multi-file projects and faults by F06, its reporting by L01, L03 and F04.)",
    "N03": "Needs the generated Go code to be executed next to the generated Rust code; it is a pure cross-language equivalence without schedule or fault, and a Go process cannot be put inside this single-process simulator.",
    "N04": "Documentation text is a pure function of the schema; no nondeterminism or fault is involved in its correctness. (Completeness of the written files under faults is covered by F03 and F04.)",
    "N05": "A pure function over a schema (static size bounds), without any schedule, time, I/O or fault.",
}
CLAIMED = "W L F"
WIRE = ("Seeded exploration on real generated code, not exhaustive: an error needs to be reached by some seed. Trusts the small "
        "reference codec in sim/wiremodel; the schemas are those of a seeded generator (one set in quick, several in thorough).")
LSP = ("Seeded exploration of the real server's main loop, client, state and handlers in one process on a simulated connection and clock. "
       "Not exhaustive. Trusts the editor-client model and the shim that stands in for lsp-server's Connection.")
FS = ("Seeded exploration of the real binaries on a simulated file system layer (every libc file call is interposed). Not exhaustive. "
      "Trusts the model of what survives a crash and the reference outputs of undisturbed runs, which are compared with independent oracles where they exist.")
TECH = {
    "W": "deterministic simulation with fault injection: seeded transport, fragmentation, damage and version-skew schedules over real generated codecs, judged against a reference codec",
    "L": "deterministic simulation with fault injection: real language server on a simulated connection, clock and editor, seeded message interleavings, delays, loss and disconnects, judged against a fresh-open reference",
    "F": "deterministic simulation with fault injection: real tools over an interposed file system with seeded I/O errors, short and torn writes, full disk, crashes and directory order, judged over the surviving files",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i[0] in CLAIMED.split():
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i}",
            "thorough_cmd": f"./run.sh {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH[i[0]],
            "level": "exploration",
            "level_note": {"W": WIRE, "L": LSP, "F": FS}[i[0]],
        })
    else:
        na.append({"property": i, "reason": "Not claimed yet: its simulator is still being built."})
doc = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every seam is taken from outside (Buf/BufMut implementations, a replacement for the lsp-server crate, an interposed libc). See DESIGN.md. Replays: ./run.sh ID --replay FILE.",
}
json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
