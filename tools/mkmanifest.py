"""Writes MANIFEST.json."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": "deterministic simulation: seeded histories of parses with injected aborts and re-entry, judged against pristine instances",
 "C02": "deterministic simulation: seeded thread schedules, re-entry and aborts at line/bytecode level, judged against solo runs",
 "C03": "deterministic simulation: seeded histories and thread schedules of separator changes with injected faults, agreement of settings, parser and formatter",
 "C04": "deterministic simulation: seeded histories of data changes with rejecting data sources, judged against an executable reference model and pristine instances",
 "C05": "deterministic simulation: seeded histories and thread schedules of flagged calls with faults, judged against instances with constant package flags",
 "C06": "deterministic simulation: seeded edit histories, refinement against a list-of-lists model",
 "C07": "deterministic simulation: seeded interleavings of view use and list edits, refinement against a model with item identity",
 "C08": "deterministic simulation: seeded histories of set operations with aborted calls, judged against bit-mask verse sets",
 "C09": "deterministic simulation: seeded histories with failing sources, comparisons, operands and data, atomicity checked against a model",
 "C10": "deterministic simulation: seeded thread schedules and histories of read-only calls on shared operands with faults, judged against solo answers and snapshots",
 "C11": "deterministic simulation: seeded histories of edits and configuration changes with aborted calls, round trip of the text produced",
 "C12": "deterministic simulation: seeded histories with aliasing, long lists, scarce stack and aborted calls under step budgets (bounded liveness), results judged",
 "C13": "deterministic simulation: seeded interleavings of suspended iterators and edits, history checked with item identity",
 "C14": "deterministic simulation: seeded interleavings of suspended verse iterations with flag changes, calls and faults, judged against a reference model",
}
for k, w in (("C15", "name lookups"), ("C16", "verse arithmetic"), ("C17", "splitting and iteration"), ("C18", "constructors"), ("C19", "comparisons and sorting"), ("C20", "counts, bounds and relations"), ("C21", "parses"), ("C22", "error positions"), ("C23", "texts"), ("C24", "set operations"), ("C25", "conversions and copies")):
    T[k] = f"deterministic simulation: seeded histories of data and flag changes, rejected changes, aborted and re-entered calls and thread schedules; {w} judged against an executable reference model"
NOTE = {
 "C01": "Samples histories; the oracle is the same code in a pristine instance, so errors present in every parse alike are outside.",
 "C02": "Samples schedules of 2-4 threads; switches at lines or bytecodes of bibleref and in lark.Lark methods; the oracle is each call alone.",
 "C03": "Samples changes among 34 punctuation characters and unusable values; expected texts are computed by the harness, parses compared both ways.",
 "C04": "Samples data changes; expectations from an independent model of the data (bounds, order, counts, arithmetic, names) and from pristine instances given the same data.",
 "C05": "Samples calls of all public methods with a flags argument; the oracle is the same call without flags in an instance with those package flags.",
 "C06": "Samples edit histories of up to 150 operations on up to 4 lists; the oracle is a plain list of lists.",
 "C07": "Samples histories of views; after operations that may renew items the view may show the group or be refused.",
 "C08": "Samples histories over tiny and default Bibles; the oracle is integer bit masks over an independent verse table.",
 "C09": "Samples failing operations; results of operations that succeed under armed faults are left to the other checks.",
 "C10": "Samples calls and schedules; answers are compared with the same call on fresh objects.",
 "C11": "Samples lists, options and configurations; the oracle is the package's own parser.",
 "C12": "Samples sizes to 3000 and 150 remaining frames; work counted in executed lines of bibleref.",
 "C13": "Samples interleavings of iterators and the edits the statement names.",
 "C14": "Samples interleavings; the oracle is an independent verse table.",
}
for k in ("C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25"):
    NOTE[k] = "Samples histories, schedules and arguments; expectations come from an independent model of the data (sim/model.py). Only data in which every book of the order has names and chapters."
NA = {}
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); import sim.base, sim.props, plan; [sim.props.load(p) for p in plan.TIERS]\"",
     "checks": [{"property": k, "quick_cmd": f"/opt/venv/bin/python check.py {k} --tier quick", "thorough_cmd": f"/opt/venv/bin/python check.py {k} --tier thorough",
                 "technique": T[k], "level": "exploration", "level_note": NOTE[k]} for k in sorted(T)],
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "No hooks in /repo: yield points come from sys.monitoring, locks and configuration from existing seams. Replay a failure with: /opt/venv/bin/python check.py replay FILE"}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
