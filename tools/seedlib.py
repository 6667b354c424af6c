# Plants one bug per entry in a scratch copy of /repo, confirms it (builds, stable tests pass, the demo tells
# the trees apart) and writes /verif/seeded/<id>/. Usage: seedlib.py seeds.py [id...]
import json, os, re, shutil, subprocess, sys, tempfile
V = "/verif"
BASE = "3455bed"
DEMO = '''#!/bin/bash
# Runs demo_go.txt as a test of %(pkg)s; fails when the bug is there.
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp "$D/demo_go.txt" "$T/zz_demo_test.go"
printf '{"Replace":{"%%s/%(file)s":"%%s/zz_demo_test.go"}}' "$PWD" "$T" > "$T/overlay.json"
cd "%(dir)s" && TMPDIR=$T go test -vet=off -count=1 -timeout 200s %(flags)s -overlay "$T/overlay.json" -run TestZZDemo . 
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for s in ns["SEEDS"]:
        if only and s["id"] not in only: continue
        one(s)
def one(s):
    w = "/tmp/seedwork"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    def fail(m):
        print(s["id"], "REJECTED:", m); shutil.rmtree(w, ignore_errors=True)
    # demo on the clean copy
    d = tempfile.mkdtemp(prefix="seeddemo")
    pkgdir = s["pkg"]
    f = (pkgdir + "/" if pkgdir != "." else "") + "zz_demo_test.go"
    open(d + "/demo_go.txt", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO % dict(pkg="./" + pkgdir, file=f, dir=pkgdir, flags=s.get("flags", "")))
    os.chmod(d + "/demo.sh", 0o755)
    try:
        for k in range(s.get("cleanruns", 2)):
            r = sh("timeout 280 bash %s/demo.sh" % d, cwd=w)
            if r.returncode != 0: return fail("demo fails on the clean tree: " + (r.stdout + r.stderr)[-1500:])
        warn = ""
        for (file, old, new) in s["edits"]:
            p = w + "/" + file
            t = open(p).read()
            if t.count(old) != 1: return fail("%s: old text occurs %d times" % (file, t.count(old)))
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", cwd=w).stdout
        # which removed lines are original
        orig = tot = 0
        cur = None
        for l in diff.split("\n"):
            m = re.match(r"--- a/(.*)", l)
            if m: base = set(sh("git show %s:%s" % (BASE, m.group(1)), cwd=w).stdout.split("\n")); continue
            if l.startswith("-") and not l.startswith("---") and l[1:].strip() not in ("", "}"):
                tot += 1
                if l[1:] in base: orig += 1
        if orig == 0: return fail("no original line is changed")
        if orig < tot: warn = " (%d of %d changed lines are original)" % (orig, tot)
        r = sh(". /opt/vp/env.sh; go build ./... && go vet ./... 2>/dev/null; go build ./...", cwd=w)
        if r.returncode != 0: return fail("does not build: " + r.stderr[-800:])
        r = sh(". /opt/vp/env.sh; go test -json -vet=off -count=1 $(go list ./... | grep -vx github.com/liujiangwei/xxcache)", cwd=w)
        passed = set()
        for l in r.stdout.split("\n"):
            try: j = json.loads(l)
            except ValueError: continue
            if j.get("Action") == "pass" and "Test" in j: passed.add(j["Package"] + "/" + j["Test"])
        need = stable()
        miss = [x for x in need if x not in passed]
        if miss: return fail("stable tests fail: %s" % miss[:3])
        for k in range(s.get("bugruns", 3)):
            r = sh("timeout 280 bash %s/demo.sh" % d, cwd=w)
            if r.returncode == 0: return fail("the demo passes with the bug (run %d)" % k)
            out = r.stdout + r.stderr
            if "build failed" in out: return fail("demo does not build: " + out[-500:])
        o = V + "/seeded/" + s["id"]
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        shutil.copy(d + "/demo.sh", o + "/demo.sh"); shutil.copy(d + "/demo_go.txt", o + "/demo_go.txt")
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(o + "/meta.json", "w"), indent=1)
        print(s["id"], "ok" + warn)
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(w, ignore_errors=True)
_st = None
def stable():
    global _st
    if _st is None: _st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return _st
main()
