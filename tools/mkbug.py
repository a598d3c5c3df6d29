"""Authoring helper for planted bugs: bug(id, prop, needs, breaks, edits, demo, pkg, race)."""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO = r'''#!/bin/bash
# Exits 0 when the property's demonstration passes, nonzero otherwise. Run in the repository.
d=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{\"Replace\":{\"$PWD/@PKG@/zz_demo_test.go\":\"$d/demo_test.go\"}}" > "$t/overlay.json"
cd "$PWD" && TMPDIR=$t timeout 200 go test -vet=off -count=1 @FLAGS@ -overlay "$t/overlay.json" -run '^TestZZDemo' ./@PKG@
'''

def bug(id, prop, needs, breaks, edits, demo, pkg, flags=""):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkbug-")
    w = os.path.join(t, "w")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w])
    try:
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) >= 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new, 1))
        diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
        assert diff
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", w])
        shutil.rmtree(t, ignore_errors=True)
    open(os.path.join(d, "demo_test.go"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@PKG@", pkg).replace("@FLAGS@", flags))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", id)
