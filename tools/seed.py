#!/usr/bin/env python3
"""Makes a planted bug: seed.py SPEC.py, where SPEC.py sets id, prop, needs, breaks, edits=[(file, old, new)], demo (text after the prelude).
It is verified in a scratch copy of /repo, and the property's quick check is run against that copy."""
import sys, os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd=None, env=None, timeout=900):
    p = subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")
def build(d):
    e = dict(os.environ)
    return sh(". /opt/vp/env.sh; cd %s && go build ./... && go build -o bin/ticat ./pkg/main && go test ./... 2>&1 | tail -15; exit ${PIPESTATUS[0]}" % d)
g = {}
exec(open(sys.argv[1]).read(), g)
W = "/tmp/sw-" + g["id"]
shutil.rmtree(W, ignore_errors=True)
sh("cp -a /repo " + W)
assert sh("git status --short", W)[1] == "", "repo not clean"
out = os.path.join(V, "seeded", g["id"])
os.makedirs(out, exist_ok=True)
pre = open(os.path.join(V, "tools/prelude.sh")).read()
open(out + "/demo.sh", "w").write(pre + "\n" + g["demo"].strip() + "\nexit 0\n")
rc, o = sh("bash -c '%s'" % ". /opt/vp/env.sh; go build -o bin/ticat ./pkg/main", W)
rc, o = sh("bash %s/demo.sh" % out, W)
print("unchanged demo:", rc, o[-600:])
ok = rc == 0
for f, old, new in g["edits"]:
    p = os.path.join(W, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
rc, o = sh("bash -c '. /opt/vp/env.sh; gofmt -l pkg; go build ./... && go build -o bin/ticat ./pkg/main && go test ./... 2>&1 | grep -v \"no test files\"'", W)
print("build+test:", rc, o[-700:])
ok = ok and rc == 0 and "FAIL" not in o
rc, o = sh("bash %s/demo.sh" % out, W)
print("changed demo:", rc, o[-600:])
ok = ok and rc not in (0, 2)
open(out + "/patch.diff", "w").write(sh("git diff -- pkg", W)[1])
json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(out + "/meta.json", "w"), indent=1)
print("VALID" if ok else "INVALID")
if ok and "-n" not in sys.argv:
    e = dict(os.environ, VERIF_REPO=W, VERIF_SEED="1")
    rc, o = sh("bash %s/check.sh %s quick" % (V, g["prop"]), V, e)
    print("check:", rc, o[-1500:])
    print("CAUGHT" if rc == 1 and "VIOLATION property=" + g["prop"] in o else "MISSED")
sh("chmod -R u+w %s" % W)
shutil.rmtree(W, ignore_errors=True)
