#!/usr/bin/env python3
"""Runs one check:  python3 check.py P03 [--replay FILE]   (tier from VERIF_TIER, default quick)
                    python3 check.py --setup               (builds everything once, runs nothing)

The check is rebuilt from /repo's working tree in a scratch directory that is removed afterwards:
the tools with `go build ./cmd/...`, the harness with a build overlay that places /verif/harness/* at
/repo/internal/zzverif/* (nothing is written to /repo)."""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(VERIF, "tools"))
import props  # per-check settings
import instrument  # toolchain overlays (map order, fault injection)

ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=readonly -buildvcs=false",
           GO111MODULE="on", CGO_ENABLED="0", LC_ALL="C", TZ="")
ENV.setdefault("HOME", "/root")
for k in ("GOROOT", "GOOS", "GOARCH", "GOEXPERIMENT", "GODEBUG"):
    ENV.pop(k, None)


def die(msg, code=3):
    print("ERROR:", msg, file=sys.stderr)
    sys.exit(code)


def run(cmd, **kw):
    return subprocess.run(cmd, env=kw.pop("env", ENV), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


def overlay(scratch, extra=None, name="overlay.json"):
    rep = dict(extra or {})
    base = os.path.join(VERIF, "harness")
    for pkg in sorted(os.listdir(base)):
        d = os.path.join(base, pkg)
        if os.path.isdir(d):
            for f in sorted(os.listdir(d)):
                if f.endswith(".go") and not f.endswith("_test.go"):
                    rep[os.path.join(REPO, "internal/zzverif", pkg, f)] = os.path.join(d, f)
    path = os.path.join(scratch, name)
    with open(path, "w") as fh:
        json.dump({"Replace": rep}, fh)
    return path


def build_tools(scratch, kind="bin"):
    """kind: bin (plain), maporder, faults."""
    out = os.path.join(scratch, kind)
    os.makedirs(out, exist_ok=True)
    cmd = ["go", "build", "-o", out + "/"]
    if kind != "bin":
        rep, flags = instrument.prepare(kind, scratch, REPO, run)
        path = os.path.join(scratch, "overlay-%s.json" % kind)
        with open(path, "w") as fh:
            json.dump({"Replace": rep}, fh)
        cmd += ["-overlay", path] + flags
    p = run(cmd + ["./cmd/..."], cwd=REPO)
    if p.returncode != 0:
        die("building the tools (%s) failed:\n%s" % (kind, p.stdout))
    return out


def build_harness(scratch, pkg, kind=None):
    out = os.path.join(scratch, "harness-" + pkg)
    rep, flags = instrument.prepare(kind, scratch, REPO, run) if kind else ({}, [])
    p = run(["go", "build", "-overlay", overlay(scratch, rep), "-o", out] + flags + ["./internal/zzverif/" + pkg], cwd=REPO)
    if p.returncode != 0:
        die("building harness %s failed:\n%s" % (pkg, p.stdout))
    return out


def load_known():
    known = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k.get("status") == "finding":
                    known[(k["property"], k["sig"])] = k
    return known


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = tempfile.mkdtemp(prefix="rtcgv-")
    os.chmod(scratch, 0o755)
    try:
        if args and args[0] == "--setup":
            build_tools(scratch)
            kinds = {k for p in props.CHECKS.values() for k in p.get("kinds", [])}
            for k in sorted(kinds):
                build_tools(scratch, k)
            for pid in sorted(props.CHECKS):
                build_harness(scratch, pid.lower(), props.CHECKS[pid].get("harness_kind"))
            print("setup ok")
            return 0
        if not args:
            die("usage: check.py PID")
        return check(args[0], tier, seed, scratch, args[1:])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def supervise(cmd, env, cwd, limit, errpath):
    """Runs the harness; one that does not end is made to print its stacks."""
    why = ""
    with open(errpath, "w+b") as err:
        p = subprocess.Popen(cmd, env=env, cwd=cwd, stderr=err,
                             preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
        try:
            p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            why = "the code under test does not terminate"
            p.send_signal(signal.SIGQUIT)
            try:
                p.wait(timeout=30)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        err.seek(0)
        log = err.read(4 << 20).decode("utf-8", "replace")
    if not why:
        m = re.search(r"^(?:runtime: goroutine stack exceeds|fatal error: |panic: ).*", log, re.M)
        why = "the code under test ends the process: " + (m.group(0)[:300] if m else "")
    if p.returncode == 0:
        sys.stderr.write(log)
    return p.returncode, why, log


def crash_site(log):
    """The function of the code under test that was running when the harness died, from the Go stacks it left."""
    blocks = [b for b in re.split(r"\n\n(?=goroutine )", log) if re.search(r"^goroutine \d+.*\[(running|runnable)", b, re.M)]
    if "SIGQUIT" not in log and "18 GB of memory" not in log:
        blocks = blocks[:1]  # the goroutine that crashed
    for block in blocks:
        for fn in re.findall(r"^(github\.com/UoY-RoboStar/rtcg/\S+?)\(", block, re.M):
            if "/zzverif/" not in fn:
                return fn
    return None


def check(pid, tier, seed, scratch, rest):
    t0 = time.time()
    conf = props.CHECKS[pid]
    opts = []
    build_tools(scratch)
    for k in conf.get("kinds", []):
        opts.append("%s=%s" % (k, build_tools(scratch, k)))
    harness = build_harness(scratch, pid.lower(), conf.get("harness_kind"))
    work = os.path.join(scratch, "work")
    os.makedirs(work)
    os.chmod(work, 0o755)
    res_path = os.path.join(scratch, "result.json")
    spent = time.time() - t0
    deadline = (conf.get("deadline", 420) if tier == "quick" else 3 * 3600) - spent
    opts.append("verif=" + VERIF)
    cmd = [harness, "-out", res_path, "-tier", tier, "-bin", os.path.join(scratch, "bin"), "-work", work, "-repo", REPO,
           "-deadline", "%.0f" % max(60, deadline), "-opts", ",".join(opts)]
    env = dict(ENV, VERIF_SEED=str(seed), TMPDIR=work)
    limit = float(os.environ.get("VERIF_LIMIT", 0)) or (720 if tier == "quick" else 4 * 3600) - spent
    code, why, log = supervise(cmd, env, work, limit, os.path.join(scratch, "harness.err"))
    if code == 0 and os.path.exists(res_path):
        res = json.load(open(res_path))
    else:
        sys.stderr.write(log[:6000] + "\n")
        sys.stderr.flush()
        at = crash_site(log)
        if not at:
            die("harness for %s exited with %d" % (pid, code))
        # The code under test took the whole process down (a stack overflow, a data race on a map, a panic in a
        # goroutine of its own, an endless loop): nothing in-process can report that, so it is reported here.
        res = dict(states=1, transitions=1, validated=1, evaluations=1, nontrivial=1, outcomes={}, samples=[], exhaustive=False,
                   violations=[dict(sig="crash in " + at, detail=why + ", in " + at)])
    if res.get("broken"):
        die("%s: %s" % (pid, res["broken"]))

    known = load_known()
    evdir = os.path.join(VERIF, "evidence")
    repdir = os.path.join(evdir, "replay")
    os.makedirs(repdir, exist_ok=True)
    for f in os.listdir(repdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(repdir, f))
    fresh, hit = [], []
    for v in res.get("violations") or []:
        (hit if (pid, v["sig"]) in known else fresh).append(v)
    for v in hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[(pid, v["sig"])]["what"]))
    for i, v in enumerate(fresh[:10]):
        path = os.path.join(repdir, "%s-%d.json" % (pid, i))
        with open(path, "w") as fh:
            json.dump(dict(property=pid, sig=v["sig"], detail=v["detail"], repro=v.get("repro"),
                           rerun="VERIF_TIER=%s python3 %s/check.py %s" % (tier, VERIF, pid)), fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  sig:    %s\n  detail: %s" % (v["sig"], v["detail"][:1500]))
    cov = {"samples": res["samples"] or ["none"], "outcomes": res["outcomes"], "exhaustive": bool(res["exhaustive"])}
    if conf["level"] == "fault_enumeration":
        cov.update(evaluations=res["evaluations"], distinct_nontrivial=res["nontrivial"], rule=conf["rule"])
    else:
        cov.update(states=res["states"], transitions=res["transitions"], traces_validated_against_impl=res["validated"])
        if res["evaluations"]:
            cov["evaluations"] = res["evaluations"]
    cov.update({k: v for k, v in (res.get("notes") or {}).items() if k not in cov})
    cov["known_findings_seen"] = [v["sig"] for v in hit]
    ev = dict(property=pid, tier=tier, seed=seed, level=conf["level"], coverage=cov,
              assumptions=conf.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(fresh))
    with open(os.path.join(evdir, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write("\n")
    print("%s %s: %d states, %d transitions, %d validated, %d evaluations, exhaustive=%s, violations=%d, known=%d, %.1fs" % (
        pid, tier, res["states"], res["transitions"], res["validated"], res["evaluations"], res["exhaustive"], len(fresh),
        len(hit), time.time() - t0))
    return 1 if fresh else 0


if __name__ == "__main__":
    sys.exit(main())
