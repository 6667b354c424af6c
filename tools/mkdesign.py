#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/.
import json, os, re, collections, subprocess
V = "/verif"
t = open(V + "/DESIGN.md").read()
by = collections.defaultdict(list)
for s in sorted(os.listdir(V + "/seeded")):
    by[json.load(open(V + "/seeded/%s/meta.json" % s))["property"]].append("`%s`" % s)
n = sum(map(len, by.values()))
tab = "| property | caught changes |\n|---|---|\n" + "".join("| %s | %s |\n" % (k, ", ".join(by[k])) for k in sorted(by))
t = re.sub(r"\| property \| caught changes \|\n\|---\|---\|\n(\|.*\n)*", lambda m: tab, t)
t = re.sub(r"\d+ changes are kept in `seeded/`", "%d changes are kept in `seeded/`" % n, t)
f = int(subprocess.run("git -C /repo log --format=%s 3455bed..HEAD | grep -c '^fix:'", shell=True, capture_output=True, text=True).stdout)
t = re.sub(r"\d+ `fix:` commits", "%d `fix:` commits" % f, t)
t = re.sub(r"The \d+ repairs of section 5", "The %d repairs of section 5" % f, t)
open(V + "/DESIGN.md", "w").write(t)
print(n, "planted", f, "fixes")
