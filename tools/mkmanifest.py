"""Writes /verif/MANIFEST.json from the table of checks in check.py."""
import json, os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check
FLOW = "TLA+ state machine of the kernels (Machine.tla), laws checked by TLC, histories of the real kernels replayed in TLC (TraceFlow)"
EQ = "TLA+ configuration-independence machine (TraceEq), real observations of every configuration replayed in TLC"
TECH = {p: FLOW for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C13")}
TECH.update({
    "C11": FLOW + "; " + EQ, "C14": FLOW + "; " + EQ,
    "C12": "TLA+ model of the parallel loop explored over all interleavings; recorded launches of the real kernels checked against it; " + EQ,
    "C15": "histories generated by TLC from Plan.tla, executed by the real kernels and solvers, replayed in TLC (TraceFlow)",
    "C16": "TLA+ specification of the free-space convolution on integer tables, traces of the real solver replayed in TLC",
    "C17": "TLA+ specification of the Neumann problem as a relation, traces of the real solver replayed in TLC",
    "C18": "TLA+ specification of the DFT on an integer cosine table, traces of the real wrappers replayed in TLC",
    "C19": "TLA+ specification of supports and delta kernels, traces of the real communicators replayed in TLC",
    "C20": "TLA+ specification of gather and scatter, laws by TLC, traces of the real communicators replayed in TLC",
    "C21": "TLA+ state machine of the PI controller, histories generated by TLC, executed and replayed in TLC",
    "C22": "TLA+ state machine of the Brinkmann forcing, histories generated by TLC, executed and replayed in TLC",
    "C23": "TLA+ state machine of registries and files, histories generated by TLC, executed on the real IO and replayed in TLC",
    "C24": "TLA+ state machine of registries and files with refusals, histories generated by TLC, executed and replayed in TLC",
    "C25": "TLA+ specification of the saved file set, file sets written by the real IO checked in TLC",
    "C26": "TLA+ specification of the accepted configurations, enumerated by TLC and executed on the real generators",
})
NOTE = ("Exhaustive TLC exploration within the small bounds of the law models; the binding to the code is by finitely many recorded "
        "executions (seeded inputs, integer-exact data), each event decided by TLC against the specification.")
t = check.table()
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in t:
        checks.append(dict(property=p, quick_cmd=f"python3 check.py {p} --tier quick", thorough_cmd=f"python3 check.py {p} --tier thorough",
                           technique=TECH[p], level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=p, reason="no check registered yet"))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
