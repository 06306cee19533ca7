#!/usr/bin/env python3
"""mkbug.py ID PROP PKGDIR < spec: spec is python defining edits=[(file, old, new)], needs, breaks, demo (Go test source).
Makes seeded/ID in place from /repo's HEAD without touching /repo."""
import sys, os, json, subprocess, tempfile, shutil
id, prop, pkg = sys.argv[1:4]
ns = {}
exec(sys.stdin.read(), ns)
d = f"/verif/seeded/{id}"
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="/tmp/mk-")
try:
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r", "HEAD"])
    for f, old, new in ns["edits"]:
        p = f"{w}/r/{f}"
        s = open(p).read()
        assert s.count(old) >= 1, (f, "not found", old)
        assert s.count(old) == 1, (f, "ambiguous", s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
    open(d + "/patch.diff", "w").write(diff)
finally:
    subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
    shutil.rmtree(w, ignore_errors=True)
open(d + "/demo_test.go.txt", "w").write(ns["demo"])
open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# Exit 0 when the behaviour is right, non-zero when it is broken. Runs in the repository's root.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh; export GOWORK=$PWD/go.work
tmp=$(mktemp -d /tmp/demo-XXXXXX); trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/demo_test.go"
printf '{{"Replace":{{"%s":"%s"}}}}' "$PWD/{pkg}/zz_demo_test.go" "$tmp/demo_test.go" > "$tmp/overlay.json"
cd "$PWD/{pkg}" && timeout 120 go test -overlay "$tmp/overlay.json" -run '^TestZZDemo$' -count=1 .
''')
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
