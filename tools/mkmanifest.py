#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the table below.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "explicit-state exploration of all operation sequences on the real code against a reference model"
CONC = "stateless model checking of the real code: all interleavings up to a preemption bound under a controlled scheduler"
FRAG = "exhaustive enumeration of inputs, fragmentations and truncations on the real code against a reference encoder"
NET = "stateless model checking of the real code against a scripted peer: all faults and interleavings within bounds"
TRUST = " Trusted: the instrumenter and controlled runtime (go/instr, go/vs), the reference model, sequential consistency between scheduling points; data races are reported separately, so weak-memory effects show up as races."
T = {}
for i in (1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13):
    T["C%02d" % i] = (SEQ, "Every operation sequence of the listed universes up to the stated depth is executed on the real cache under a virtual clock and compared with the reference model, with every reading command observed after each step; states are merged on the concrete cache state." + TRUST)
for i in (8, 14, 15, 16, 17, 18):
    T["C%02d" % i] = (CONC, "Every interleaving of the listed small programs up to 2 (quick) or 3 (thorough) preemptions is executed on the real cache; each history is checked for linearizability against the reference model, and for data races, deadlocks and panics. Larger programs and more preemptions are not covered." + TRUST)
for i in (19, 20, 25, 26, 27, 28, 29, 35):
    T["C%02d" % i] = (FRAG, "Every case of the bounded domain (inputs x encodings x read fragmentations x truncation points) is executed on the real code and compared with an independent reference written from the Redis formats; inputs outside the domain are not covered." + TRUST)
for i in (21, 22, 23, 24, 30, 31, 32, 33, 34, 36):
    T["C%02d" % i] = (NET, "Every scripted behaviour of the peer in the bounded domain (replies, faults at every point, fragmentations, refused dials) is executed against the real code over an in-memory network and virtual clock, with all interleavings up to the stated preemption bound where several goroutines take part; longer histories and more preemptions are not covered." + TRUST)
exec(open(os.path.join(V, "tools", "claims_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "claims_more.py")) else None
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        tech, note = T[i]
        checks.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
                           technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard="none: /repo holds no hooks", enable="check.sh instruments /repo's working tree in a scratch directory (go/instr) and builds it with 'go build -overlay'", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="check.sh ID [quick|thorough]; check.sh replay FILE re-executes a recorded violation. Every check rebuilds from /repo's working tree in a temporary directory.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
