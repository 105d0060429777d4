#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the table of claims below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
C = {
 "C01": ("runtime residual monitor in double-double against the elimination bound", "Sampled systems n<=64, f32/f64; the bound uses validated factorizations, exact equality on dyadic systems. Trusts IEEE arithmetic and the monitor."),
 "C02": ("runtime factorization monitor: multiply out and match rows", "Sampled matrices; exact comparison on dyadic products."),
 "C03": ("runtime verdict monitor on matrices with exactly known first dependent column", "Sampled matrices whose elimination is exact or far from rounding noise."),
 "C04": ("history monitor: bitwise comparison with a fresh object after every operation", "Sampled histories on up to three objects."),
 "C05": ("AddressSanitizer, Miri (Tree Borrows), debug assertions and canary monitors", "No report on the executed workload; Miri on n<=4 only, dimension 0 excluded."),
 "C06": ("runtime norm monitor: double-double reference and metamorphic norm axioms", "Sampled vectors; overflow and underflow of squares excluded."),
 "C07": ("online acceptor over the callback event log of scripted Newton problems", "Random histories and all outcome scripts up to a depth; values are small dyadics so comparisons are exact."),
 "C08": ("online acceptor over the callback event log of scripted Newton problems", "As C07; judges order and arguments of every callback."),
 "C09": ("online acceptor over the callback event log of scripted Newton problems", "As C07; judges refresh and give-up decisions."),
 "C10": ("online acceptor over the callback event log with callback budget", "As C07; a callback budget stands for non-termination."),
 "C11": ("online acceptor over the callback event log with injected callback errors", "As C07; judges error propagation."),
 "C12": ("online acceptor over the callback event log with independent counters", "As C07; judges the reported counters."),
 "C13": ("end-to-end runtime monitor against known roots with contraction bounds", "Sampled affine and quadratic systems with provable contraction."),
}
C.update(json.load(open(here + "/bin/ida_claims.json")) if os.path.exists(here + "/bin/ida_claims.json") else {})
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in C:
        m["checks"].append({"property": i, "quick_cmd": f"bash bin/check.sh {i} quick", "thorough_cmd": f"bash bin/check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": C[i][0], "level": "exploration", "level_note": C[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "No check registered yet."})
m["notes"] = "No hooks in /repo: the crates are observed through their public traits, the integrator (src/, which does not build in the repository) is compiled from a copy with stand-ins for missing dependencies and a module reading private state. See DESIGN.md."
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
