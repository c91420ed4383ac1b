# Development only: writes a planted change below /verif/seeded from edits.
import json, os, subprocess, tempfile, shutil, sys
SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = """#!/bin/bash
# Runs demo_test.go as a test of {pkg} (in an overlay; /repo is not written to).
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{{"Replace":{{"%s/{pkg}/zz_planted_demo_test.go":"%s/demo_test.go"}}}}' "$PWD" "$d" >"$t/overlay.json"
go test -count=1 -vet=off {flags}-overlay "$t/overlay.json" -run 'TestPlantedDemo' ./{pkg}
"""
def plant(id, prop, edits, pkg, test, needs, breaks, flags=""):
    d = os.path.join(SEED, id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="pb.", dir="/tmp")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
        for path, old, new in edits:
            p = f"{t}/r/{path}"
            s = open(p).read()
            assert s.count(old) == 1, (id, path, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
            subprocess.call(["gofmt", "-l", p])
        diff = subprocess.check_output(["git", "-C", t + "/r", "diff"]).decode()
        # every removed line must be an original one
        base = {}
        for path, _, _ in edits:
            base[path] = set(subprocess.check_output(["git", "-C", "/repo", "show", "1c95dec:" + path]).decode().split("\n"))
        touched = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
        alls = set().union(*base.values())
        mine = [l for l in touched if l not in alls]
        if mine: print(id, "NOT ORIGINAL:", mine)
        if not touched: print(id, "changes no line")
        open(d + "/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(t)
    open(d + "/demo.sh", "w").write(DEMO.format(pkg=pkg, flags=flags))
    open(d + "/demo_test.go", "w").write(test)
    subprocess.call(["gofmt", "-w", d + "/demo_test.go"])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/meta.json", "a").write("\n")
