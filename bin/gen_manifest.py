#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "TLA+ codec specification (Wire); TLC judges recorded encode/decode round trips, corpus from TLC models",
 "C02": "TLA+ codec specification (Wire); TLC compares recorded encodings with the specified bytes",
 "C03": "TLA+ codec specification (Wire.Encodable); TLC judges recorded refusals",
 "C04": "TLA+ codec specification (Wire.HeaderOK/DecHeader); TLC judges recorded header decodes and byte sweeps",
 "C05": "TLA+ codec specification (Wire.DecPayload, Decoder); TLC judges recorded payload decodes",
 "C06": "TLA+ stepwise decoder model (termination, allocation); TLC judges recorded outcomes and allocations",
 "C07": "TLA+ trace specification: debug and plain results of one call must be one result",
 "C08": "TLA+ byte channel refining a message queue, model checked; TLC judges recorded receive sessions",
 "C09": "TLA+ store specification with frame conditions; TLC judges recorded histories; race detector events",
 "C10": "TLA+ OID order, model checked to be a total order; TLC judges recorded comparisons",
 "C11": "TLA+ heap of OIDs (arrays and views), model checked; TLC judges recorded alias histories",
 "C12": "TLA+ parser automaton, model checked against the text form; TLC judges recorded texts and parses",
 "C13": "TLA+ OID tree, model checked; its transitions replayed into the code; TLC judges recorded histories",
 "C14": "TLA+ OID tree search, model checked; its cases replayed into the code; TLC judges recorded searches",
 "C15": "TLA+ OID tree traversal, model checked; TLC judges recorded walks",
 "C16": "TLA+ lock-level tree refining the atomic tree; TLC searches linearizations of recorded histories",
 "C17": "TLA+ hex dump specification; TLC judges recorded dumps and diffs",
 "C18": "TLA+ text specification (Show); TLC judges recorded texts",
 "C19": "TLA+ vocabulary tables; TLC judges the exhaustively recorded vocabulary",
 "C20": "TLA+ log specification; TLC judges recorded debug logs and console output",
 "C21": "TLA+ model of results, caches and buffers (Pure), model checked; its histories replayed into the code; TLC judges recorded histories and concurrent calls; race detector events",
 "C22": "TLA+ specification of struct texts and line diffs (Struct), model checked over all pairs of small texts; TLC judges recorded texts and diffs of generated struct types and values",
 "C23": "TLA+ model of the counting descent and the pruning climb (Bulk), model checked; its cases replayed into the code; TLC judges recorded searches and removals",
}
NOTE = {
 "C04": "every call recorded from the real code is judged against the specification; per base header all 256 values of each byte are covered",
 "C16": "linearizability decided exactly for every recorded schedule; schedules are sampled (with forced overlap) and run again under the race detector",
 "C19": "the finite vocabulary (256 tags, 256 flag sets, 65536 errors, all names) is recorded and judged completely",
}
DEF = "the specification is checked exhaustively within the bounds of its models; the code is bound to it by judging every recorded call, history or schedule (model-generated corpus plus seeded generation), so the verdict on the code covers what was recorded. Trusts TLC, the go toolchain and the projection in harness/proj.go"
props = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "sh bin/setup.sh",
     "checks": [{"property": p, "quick_cmd": "python3 bin/check.py " + p,
                 "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + p,
                 "technique": TECH[p], "level": "model_checking",
                 "level_note": (NOTE[p] + ". " if p in NOTE else "") + DEF} for p in props],
     "not_applicable": [],
     "notes": "TLA+ checked with TLC. No hooks in /repo: the driver is compiled into the module by a go build overlay and uses exported API only. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
