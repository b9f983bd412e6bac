#!/usr/bin/env python3
"""check.py ID [quick|thorough] [--only CASE] [--seed N]

Builds the monitor (harness/) against /repo's working tree, runs it and turns
what it observed into a verdict: exit 0 (held on everything observed), exit 1
with VIOLATION lines, exit 2 (no verdict)."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
MOD = "github.com/coniks-sys/coniks-go"
GO = "/opt/veriftools/go1.23.12/bin"

# per property: number of processes, race detector, programs to build
CONF = {
    "C14": dict(shards=8), "C15": dict(shards=6, race=True), "C16": dict(shards=8),
    "C17": dict(shards=4, race=True), "C19": dict(shards=8, race=True),
    "C25": dict(cli=True), "C27": dict(shards=8, race=True), "C28": dict(shards=8, race=True, cli=True),
}
LIMIT = {"quick": 800, "thorough": 6 * 3600}


def env():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME") or "/root", PATH=GO + ":" + e.get("PATH", "/usr/bin:/bin"), GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOTOOLCHAIN="local", GOWORK="off", GO111MODULE="on",
             GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


def sh(cmd, cwd, timeout=700, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout, text=True, errors="replace", **kw)


def build(tmp, race, cli):
    for f in ("go.mod", "go.sum"):
        if not os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join("/opt/vp/mod", f), os.path.join(REPO, f))
    src = os.path.join(tmp, "src")
    shutil.copytree(os.path.join(HERE, "harness"), src)
    ov = os.path.join(tmp, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": {
            REPO + "/merkletree/zz_verif.go": HERE + "/overlay/merkletree_verif.go",
            REPO + "/crypto/verifx/verifx.go": HERE + "/overlay/verifx.go"}}, f)
    out = os.path.join(tmp, "vh")
    base = ["go", "build", "-o", out] + (["-race"] if race else [])
    r = sh(base + ["-overlay", ov, "-tags", "overlay", "."], src)
    if r.returncode != 0:
        print("note: built without the overlay:", r.stdout.strip()[:300])
        r = sh(base + ["."], src)
    if r.returncode != 0:
        print("cannot build the monitor:", r.stdout[:3000])
        return None
    if cli:
        for p in ("coniksserver", "coniksclient", "coniksbot"):
            r = sh(["go", "build"] + (["-race"] if race else []) + ["-o", os.path.join(tmp, p), "./cli/" + p], REPO)
            if r.returncode != 0:
                print("cannot build", p, r.stdout[:2000])
                return None
    return out


def repo_frame(l):
    l = l.strip()
    return l.startswith(MOD) or l.startswith("created by " + MOD)


def races(text):
    """Race reports with a frame of the code under test, one per pair of stacks."""
    out = {}
    for blk in text.split("=================="):
        if "WARNING: DATA RACE" not in blk:
            continue
        acc = blk.split("\n\n")[:2]  # the two accesses
        tops = [[l.strip() for l in a.split("\n") if l.startswith("  ") and not l.startswith("      ")] for a in acc]
        if any(any(f.startswith(MOD) for f in t) for t in tops):
            key = tuple(next((re.sub(r"\(.*", "", f) for f in t if f.startswith(MOD)), "?") for t in tops)
            out.setdefault(key, blk.strip())
    return out


def crash(text):
    """The witness if the process died in the code under test, else None."""
    m = re.search(r"^(panic: |fatal error: |unexpected fault address)", text, re.M)
    if not m:
        return None
    t = text[m.start():]
    gs = t.split("\n\n")
    head = "\n".join(gs[:2])
    if t.startswith("fatal error: all goroutines are asleep") or "out of memory" in gs[0]:
        head = t
    body = head
    i = body.rfind("\npanic(")
    if i >= 0:
        body = body[i:]
    for l in body.split("\n"):
        if repo_frame(l):
            return t[:4000]
        if l.startswith("main."):
            break
    # concurrent map access and the like: raised in the runtime on behalf of
    # a goroutine of the code under test
    if t.startswith("fatal error") and MOD in head:
        return t[:4000]
    return None


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opts = dict(zip([a for a in sys.argv[1:] if a.startswith("--")], [None] * 9))
    for k in list(opts):
        i = sys.argv.index(k)
        opts[k] = sys.argv[i + 1] if i + 1 < len(sys.argv) else None
        if opts[k] in args:
            args.remove(opts[k])
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(opts.get("--seed") or os.environ.get("VERIF_SEED") or 1)
    only = opts.get("--only")
    t0 = time.time()
    conf = dict(shards=8, race=False, cli=False)
    conf.update(CONF.get(pid, {}))
    tmp = tempfile.mkdtemp(prefix="vc-%s-" % pid)
    try:
        return run(pid, tier, seed, only, conf, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, tier, seed, only, conf, tmp, t0):
    exe = build(tmp, conf["race"], conf["cli"])
    if exe is None:
        return 2
    shards = 1 if only else conf["shards"]
    procs = []
    for k in range(shards):
        d = os.path.join(tmp, "d%d" % k)
        os.mkdir(d)
        e = env()
        e["GORACE"] = "halt_on_error=0 exitcode=0 atexit_sleep_ms=20 log_path=%s/race" % d
        e["VERIF_BIN"] = tmp
        e["TMPDIR"] = d
        e.setdefault("GOMAXPROCS", "4") if shards > 2 else None
        cmd = [exe, "-seed", str(seed), "-tier", tier, "-dir", d, "-out", d + "/ev.json",
               "-shard", str(k), "-shards", str(shards)] + (["-only", only] if only else []) + [pid]
        log = open(d + "/log", "w")
        procs.append((k, d, subprocess.Popen(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=log,
                                             stderr=log, start_new_session=True)))
    end = t0 + LIMIT.get(tier, 800)
    viol, errs, evs = [], [], []
    cut, ended = float("inf"), set()
    for k, d, p in procs:
        late = False
        while p.poll() is None and time.time() < min(end, cut):
            for _, d2, p2 in procs:
                # one process has found a violation: the others need not finish
                if p2.poll() is not None and p2.pid not in ended:
                    ended.add(p2.pid)
                    try:
                        if json.load(open(d2 + "/ev.json")).get("witnesses"):
                            cut = min(cut, time.time() + 20)
                    except (OSError, ValueError):
                        pass
            time.sleep(0.02)
        if p.poll() is None:
            late = True
            if time.time() >= end:
                errs.append("shard %d: stopped after the time limit" % k)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        text = open(d + "/log", errors="replace").read()
        ev = None
        if os.path.exists(d + "/ev.json"):
            try:
                ev = json.load(open(d + "/ev.json"))
            except ValueError:
                pass
        if ev:
            evs.append(ev)
            viol += ev.get("witnesses") or []
            errs += ev.get("errors") or []
        elif not late:
            w = crash(text)
            if w:
                viol.append(dict(what="the process dies in the code under test", case="", detail=w))
            else:
                errs.append("shard %d: exit %s without a result: %s" % (k, p.returncode, text[-3000:]))
        for f in os.listdir(d):
            if f.startswith("race."):
                for key, blk in races(open(d + "/" + f, errors="replace").read()).items():
                    viol.append(dict(what="data race between %s and %s" % key, case="", detail=blk[:3500]))
    known = json.load(open(HERE + "/known_findings.json"))
    listed = {k["key"]: k for k in known["findings"] if k["property"] == pid}
    found = {}
    for ev in evs:
        for f in ev.get("findings") or []:
            found.setdefault(f["what"], f)
    for key, f in sorted(found.items()):
        if key not in listed:
            viol.append(f)
    cov = merge(evs)
    if not viol and not errs and not only:
        need = {}
        for ev in evs:
            need.update(ev.get("need") or {})
        for n, v in sorted(need.items()):
            if cov["observed"].get(n, 0) < v:
                errs.append("observed %d %r events, need %d: no verdict" % (cov["observed"].get(n, 0), n, v))
    cov["processes"] = shards
    if conf["race"]:
        cov["race_detector"] = "on"
    out = dict(property=pid, tier=tier, seed=seed, level=(evs[0]["level"] if evs else "exploration"),
               coverage=cov, assumptions=sorted({a for ev in evs for a in ev.get("assumptions") or []}),
               wall_s=round(time.time() - t0, 2), violations=len(viol),
               known_findings=sorted(k for k in found if k in listed), errors=errs[:10])
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open(HERE + "/evidence/%s.json" % pid, "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")
    for key in sorted(found):
        if key in listed:
            print("KNOWN-FINDING: property=%s %s" % (pid, listed[key]["what"]))
    if viol:
        seen = set()
        for v in viol:
            if v["what"] in seen and len(seen) > 2:
                continue
            seen.add(v["what"])
            path = HERE + "/evidence/replay-%s-%d.json" % (pid, len(seen))
            with open(path, "w") as f:
                json.dump(dict(property=pid, seed=seed, tier=tier, witness=v,
                               replay="python3 %s/check.py %s %s --seed %d%s" % (
                                   HERE, pid, tier, seed, " --only '%s'" % v["case"] if v.get("case") else "")), f, indent=1)
            print("%s: %s [%s]" % (pid, v["what"], v.get("case")))
            print("\n".join("    " + l for l in (v.get("detail") or "").split("\n")[:25]))
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    if errs:
        for e in errs[:5]:
            print("NO VERDICT", e, file=sys.stderr)
        return 2
    print("%s held on %d evaluations (%d distinct), %.0f s: %s" % (
        pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0,
        ", ".join("%s=%d" % kv for kv in sorted(cov["observed"].items()))))
    return 0


def merge(evs):
    obs, hashes, samples, n = {}, set(), [], 0
    rule = ""
    for ev in evs:
        c = ev["coverage"]
        n += c["evaluations"]
        rule = c["rule"]
        for k, v in c["observed"].items():
            obs[k] = obs.get(k, 0) + v
        hashes.update(ev.get("hashes") or [])
        samples += c["samples"][:4]
    return dict(evaluations=n, distinct_nontrivial=len(hashes), rule=rule, samples=samples[:24], observed=obs)


if __name__ == "__main__":
    sys.exit(main())
