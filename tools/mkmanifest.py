"""Write MANIFEST.json from properties.jsonl and the table of claimed checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
 "C90": "Liveness: whether a waiter is eventually woken is decided by the schedulers and fairness of parking_lot and tokio, runtime quantities no static argument over fieldx's source bounds; the static part (no lock kept, no self-deadlock) is C07.",
 "C91": "Round-trip equality depends on the user's Serialize/Deserialize/PartialEq implementations and on the data format; the part fieldx controls (which value goes to which shadow field, both ways) is C25/C26.",
 "C92": "Quantifies over all token streams given to syn/darling and our macro code, i.e. over unbounded run-time inputs of a large program; no lint in reach soundly bounds its panics, and running it on samples would be testing.",
 "C93": "Span and wording of diagnostics for all erroneous inputs are values computed at macro run time from unbounded inputs; the rejections themselves are C27.",
}
PATHS = "abstract interpretation of the MIR of expanded declarations (typestate of locks, status flags and contents; opaque user code), each path summary compared with the documented outcome"
FACTS = "queries over the type-checked program (items, signatures, types, visibilities, attributes, auto traits) of expanded declarations against a model of the documented argument rules"
WIT = "type-level witnesses: pairs of declarations that must and must not compile, decided by the compiler"
TECH = {}
for p in "C01 C02 C03 C04 C05 C06 C07 C09 C10 C11 C12 C13 C14 C19 C20 C21 C22 C24 C25 C30 C31 C33 C36".split(): TECH[p] = PATHS
TECH["C38"] = "abstract interpretation of the compiler's MIR of fieldx_aux: each public query is summarised over unknown arguments and every path compared with a decision table of what the arguments say"
TECH["C37"] = "lock-order analysis: the graph of blocking acquisitions made while other locks are held, collected over all abstract MIR paths of the container operations and expanded helpers, must be acyclic and independent of argument order"
for p in "C15 C16 C17 C18 C23 C26 C28 C29 C32 C35 C08".split(): TECH[p] = FACTS
TECH["C39"] = "type-level witnesses: declarations placed in modules that shadow the whole prelude must compile, and the path summaries and item facts of what they expand to must match the documented outcome"
for p in "C27 C34".split(): TECH[p] = WIT
UNDONE = set(os.environ.get("UNDONE", "").split()) | set(open(V + "/tools/undone").read().split() if os.path.exists(V + "/tools/undone") else [])
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif i in UNDONE:
        na.append({"property": i, "reason": "The static rules for this property are not built yet."})
    else:
        checks.append({"property": i, "quick_cmd": "python3 spec/check.py %s" % i, "thorough_cmd": "python3 spec/check.py %s --thorough" % i, "technique": TECH[i], "level": "other",
            "level_note": "Static analysis of the current tree's macro expansions and run-time crate: exhaustive over execution paths, field contents and interference by other threads for every declaration analysed; the declarations are an enumerated family covering the argument space, not all declarations."})
json.dump({"version": 1, "setup_cmd": "python3 spec/setup.py", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
