#!/usr/bin/env python3
"""Development tool for planted bugs (no check uses it).
  seed.py add SPEC.py [ID...]   make seeded/<ID>/ from the specs and confirm it in a scratch copy
  seed.py run ID...|all         run the property's check on a scratch copy with the change
"""
import json, os, re, subprocess, sys
import ns
V = "/verif"
DEMO = '''#!/bin/bash
# Exits 0 if the property holds, nonzero if the demonstration in %(test)s fails.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/opt/veriftools/go1.23.12/bin:$PATH" GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOSUMDB=off
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/%(test)s" > "$tmp/o.json"
TMPDIR="$tmp" go test %(flags)s-vet=off -count=1 -timeout 200s -overlay "$tmp/o.json" -run '^TestDemo$' ./%(pkg)s
'''


def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", timeout=timeout)


def original(tree, diff):
    """Whether the change touches lines of the original repository."""
    n, gone = 0, 0
    f = None
    for l in diff.split("\n"):
        if l.startswith("--- a/"):
            f = l[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m:
            line = int(m.group(1))
        elif f and l.startswith("-") and not l.startswith("---"):
            if l[1:].strip() and not l[1:].strip().startswith("//"):
                b = tree.sh("git blame -s -l -L %d,%d HEAD -- %s" % (line, line, f)).stdout
                n += b.startswith("^")
                gone += 1
            line += 1
        elif l.startswith(" "):
            line += 1
    return n if gone else "only additions"


def add(spec):
    d = os.path.join(V, "seeded", spec["id"])
    os.makedirs(d, exist_ok=True)
    with ns.Tree() as clean, ns.Tree() as tree:
        for f, old, new in spec["edits"]:
            p = os.path.join(tree.repo, f)
            s = open(p).read()
            assert s.count(old) == 1, (spec["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = tree.sh("git diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        test = "demo_test.go"
        open(os.path.join(d, test), "w").write(spec["test"])
        open(d + "/demo.sh", "w").write(DEMO % dict(pkg=spec["pkg"], test=test, flags=spec.get("flags", "")))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["breaks"]),
                  open(d + "/meta.json", "w"), indent=1)
        b = tree.sh("source /opt/vp/env.sh; cd /repo && go build ./...")
        demo = tree.sh("bash %s/demo.sh" % d)
        base = json.load(open("/opt/vp/BASELINE.json"))
        bad = ["?"]
        for k in range(3):
            t = tree.sh("bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; cat /tmp/o.json").stdout
            bad = missing(base, json.loads(t[t.index("{"):]))
            if not bad:
                break
        cl = clean.sh("bash %s/demo.sh" % d)
        orig = original(tree, diff)
    ok = b.returncode == 0 and demo.returncode != 0 and cl.returncode == 0 and not bad and orig
    print("%s: %s build=%d demo-with=%d demo-without=%d tests-lost=%s original-lines=%s" % (
        spec["id"], "OK" if ok else "BAD", b.returncode, demo.returncode, cl.returncode, bad, orig), flush=True)
    if not ok:
        print(demo.stdout[-1500:], "\n----\n", cl.stdout[-1500:], b.stdout[-500:])
    elif "[build failed]" in demo.stdout:
        print("demo does not build with the change:", demo.stdout[-800:])
    return ok


def names(o):
    for k in ("passed", "stable", "pass", "tests"):
        if isinstance(o, dict) and k in o:
            v = o[k]
            return set(v if isinstance(v, list) else [n for n, s in v.items() if s in (True, "pass", "passed", "PASS")])
    raise SystemExit("unknown format: %s" % list(o))


def missing(base, got):
    return sorted(names(base) - names(got))


def run(i):
    d = os.path.join(V, "seeded", i)
    pid = json.load(open(d + "/meta.json"))["property"]
    with ns.Tree() as tree:
        r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=tree.repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(i, "does not apply", r.stdout)
            return False
        r = tree.sh("VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s quick" % pid, "/verif")
    caught = r.returncode == 1 and "VIOLATION property=%s" % pid in r.stdout
    first = r.stdout.split("\n")[0] if caught else r.stdout[-600:]
    print("%s (%s): %s  %s" % (i, pid, "CAUGHT" if caught else "MISSED rc=%d" % r.returncode, first[:220]), flush=True)
    return caught


def orig(i):
    with ns.Tree() as tree:
        n = original(tree, open(os.path.join(V, "seeded", i, "patch.diff")).read())
    print(i, n, "" if n else "<- does not count")


if sys.argv[1] == "add":
    g = {}
    exec(open(sys.argv[2]).read(), g)
    for s in g["SPECS"]:
        if len(sys.argv) == 3 or s["id"] in sys.argv[3:]:
            add(s)
else:
    ids = sys.argv[2:]
    if ids == ["all"]:
        ids = sorted(os.listdir(V + "/seeded"))
    if sys.argv[1] == "orig":
        for i in ids:
            orig(i)
    else:
        res = [run(i) for i in ids]
        print(sum(res), "of", len(res), "caught")
