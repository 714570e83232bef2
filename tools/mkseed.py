#!/usr/bin/env python3
"""mkseed.py ID PROPERTY PKG NEEDS BREAKS < demo test body
Stores the current diff of /repo as a planted bug and undoes it."""
import sys, os, subprocess, json
id, prop, pkg, needs, breaks = sys.argv[1:6]
body = sys.stdin.read()
d = "/verif/seeded/" + id
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True, check=True).stdout
assert diff.strip(), "no change"
open(d + "/patch.diff", "w").write(diff)
subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
helper = open(os.path.dirname(os.path.abspath(__file__)) + "/demo_helper.go.txt").read() if "verifhelper" in body else ""
body = body.replace("// verifhelper\n", helper)
open(d + "/demo_test.go", "w").write(body)
open(d + "/demo.sh", "w").write('''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"/repo/%s/zz_demo_test.go":"%s/demo_test.go"}}' PKG "$D" > "$T/o.json"
cd /repo
go test -modfile=$MODFILE -overlay "$T/o.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./PKG
'''.replace("PKG", pkg))
os.chmod(d + "/demo.sh", 0o755)
r = subprocess.run(["bash", d + "/demo.sh"], capture_output=True, text=True, cwd="/repo")
print("unpatched:", r.returncode, r.stdout[-300:] if r.returncode else "", r.stderr[-300:] if r.returncode else "")
subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
r = subprocess.run(["bash", d + "/demo.sh"], capture_output=True, text=True, cwd="/repo")
print("patched:", r.returncode, r.stdout[-400:])
if "-t" in sys.argv:
    b = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
    t = subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/seed/o.json"], capture_output=True, text=True)
    print("build", b.returncode, "tests", t.stdout.strip()[-60:])
if "-c" in sys.argv:
    c = subprocess.run(["bash", "/verif/check.sh", prop], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    print("check", c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l or "harness" in l][:4])
subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
