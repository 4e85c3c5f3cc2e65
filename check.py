#!/usr/bin/env python3
"""Decides one property: builds the monitors against /repo's working tree,
runs them in worker processes and turns their reports into a verdict.

usage: check.py <property id>

exit 0  the property held on everything observed
exit 1  VIOLATION property=<id> replay=<path>
exit 2  the machinery itself failed, no verdict
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
MODULE = "github.com/superisaac/jlib"

# per property: worker processes, race detector
CONF = json.load(open(os.path.join(VERIF, "tools", "conf.json")))


def go_env():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    for d in ("/opt/veriftools/go1.27.3/bin", "/usr/local/go/bin"):
        if os.path.isdir(d):
            env["PATH"] = d + ":" + env.get("PATH", "")
            break
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
               GOWORK="off", CGO_ENABLED="1", GONOSUMDB="*", GONOSUMCHECK="1",
               GOFLAGS_EXTRA="")
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY",
              "GORACE", "GODEBUG", "JSONRPC_CONNECT"):
        env.pop(k, None)
    return env


def die(msg):
    print("CHECK-ERROR " + msg[:6000], flush=True)
    sys.exit(2)


def run(cmd, **kw):
    return subprocess.run(cmd, text=True, errors="replace",
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def build(work, env, conf):
    mod = os.path.join(work, "go.mod")
    txt = open(os.path.join(HARNESS, "go.mod")).read()
    txt = txt.replace("=> /repo", "=> " + REPO)
    open(mod, "w").write(txt)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(work, "go.sum"))
    out = os.path.join(work, "props.test")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile=" + mod, "-o", out]
    if conf.get("race"):
        cmd.append("-race")
    cmd.append("./props")
    p = run(cmd, cwd=HARNESS, env=env)
    if p.returncode != 0:
        die("build failed\n" + p.stdout)
    return out


def build_bins(work, env, bins):
    """command line tools under test, built from /repo"""
    d = os.path.join(work, "bin")
    os.makedirs(d, exist_ok=True)
    for name, spec in bins.items():
        cmd = ["go", "build", "-o", os.path.join(d, name)]
        mod = os.path.join(work, "repo.mod")
        shutil.copy(os.path.join(REPO, "go.mod"), mod)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(work, "repo.sum"))
        cmd.append("-modfile=" + mod)
        if spec.get("race"):
            cmd.append("-race")
        cmd.append(spec["pkg"])
        p = run(cmd, cwd=REPO, env=env)
        if p.returncode != 0:
            die("build of %s failed\n%s" % (name, p.stdout))
    return d


# --- judging dead workers ---

def crash_goroutine(text):
    """the goroutine a Go process died in: (reason, frames)"""
    m = re.search(r"^(panic: .*|fatal error: .*|SIG[A-Z]+: .*)$", text, re.M)
    if not m:
        return None
    tail = text[m.start():]
    g = re.search(r"^goroutine \d+[^\n]*\[running[^\n]*\n(.*?)(?:\n\n|\Z)", tail, re.M | re.S)
    if not g:
        g = re.search(r"^goroutine \d+[^\n]*\n(.*?)(?:\n\n|\Z)", tail, re.M | re.S)
    reason = tail[:tail.find("\ngoroutine ")] if "\ngoroutine " in tail else m.group(1)
    return reason.strip(), (g.group(1) if g else "")


def frames(stack):
    out = []
    for line in stack.splitlines():
        if line.startswith("\t") or not line or line.startswith("created by"):
            continue
        out.append(line)
    return out


def first_user_frame(stack):
    for f in frames(stack):
        if f.startswith(("runtime.", "runtime/", "panic(", "internal/", "sync.", "reflect.", "testing.", "syscall.")):
            continue
        return f
    return ""


def func_of(frame):
    i = frame.rfind("(")
    return frame[:i] if i > 0 else frame


def jlib_sig(stack):
    for f in frames(stack):
        if MODULE in f:
            return func_of(f).replace(MODULE, "jlib")
    return ""


# --- races ---

def race_reports(text):
    out = []
    for blk in re.findall(r"WARNING: DATA RACE\n(.*?)\n==================", text, re.S):
        parts = re.split(r"\n\n", blk)
        funcs, raw = [], []
        for p in parts[:2]:
            fs = [l.strip() for l in p.splitlines()[1:] if l.startswith("  ") and not l.startswith("      ")]
            raw.append(fs)
            own = [func_of(f) for f in fs if MODULE in f]
            funcs.append(own[0].replace(MODULE, "jlib") if own else "")
        out.append((funcs, raw, blk))
    return out


def owner(fs):
    for f in fs:
        if MODULE in f:
            return "jlib"
        if f.startswith("verif/harness"):
            return "harness"
    return ""


def setup():
    """builds everything once so that the checks find a warm build cache"""
    env = go_env()
    work = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        build(work, env, {})
        build(work, env, {"race": True})
        bins = {}
        for c in CONF.values():
            bins.update(c.get("bins", {}))
        build_bins(work, env, bins)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print("setup done")
    return 0


def main():
    if len(sys.argv) != 2:
        die("usage: check.py <property>")
    prop = sys.argv[1]
    if prop == "--setup":
        sys.exit(setup())
    if prop not in CONF:
        die("unknown property " + prop)
    conf = CONF[prop]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    env = go_env()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        code = decide(prop, conf, tier, seed, env, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(prop, conf, tier, seed, env, work, t0):
    binary = build(work, env, conf)
    if conf.get("bins"):
        env["VERIF_BIN"] = build_bins(work, env, conf["bins"])
    build_s = time.time() - t0
    shards = conf.get("shards", {}).get(tier, 4)
    only = os.environ.get("VERIF_ONLY")
    if only:
        shards = 1
    limit = 780 if tier == "quick" else 6 * 3600
    deadline = t0 + limit

    def start(s, turn, skip):
        e = dict(env)
        out = os.path.join(work, "report.%d.%d" % (s, turn))
        scratch = os.path.join(work, "scratch.%d" % s)
        os.makedirs(scratch, exist_ok=True)
        e.update(VERIF_PROP=prop, VERIF_TIER=tier, VERIF_SEED=str(seed),
                 VERIF_SHARD=str(s), VERIF_SHARDS=str(shards), VERIF_OUT=out,
                 VERIF_KNOWN=" ".join(load_known(prop)[0]), VERIF_SCRATCH=scratch, VERIF_REPO=REPO, TMPDIR=scratch,
                 VERIF_SKIP=str(skip), GOTRACEBACK="all")
        if conf.get("race") or any(b.get("race") for b in conf.get("bins", {}).values()):
            e["GORACE"] = "halt_on_error=0 exitcode=0 history_size=4 log_path=%s" % os.path.join(work, "race.%d" % s)
        if conf.get("maxprocs"):
            e["GOMAXPROCS"] = str(conf["maxprocs"])
        logname = os.path.join(work, "log.%d.%d" % (s, turn))
        log = open(logname, "w")
        p = subprocess.Popen([binary, "-test.run", "^TestProp$", "-test.timeout", "0"],
                             cwd=scratch, env=e, stdout=log, stderr=subprocess.STDOUT,
                             start_new_session=True)
        return {"s": s, "turn": turn, "p": p, "log": log, "logname": logname, "out": out, "timed_out": False}

    def finish(w):
        try:
            w["p"].wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            w["timed_out"] = True
            try:
                os.killpg(w["p"].pid, 3)  # SIGQUIT: goroutine dump
                w["p"].wait(timeout=5)
            except Exception:
                pass
        try:
            os.killpg(w["p"].pid, 9)
        except Exception:
            pass
        w["p"].wait()
        w["log"].close()

    def worker(w):
        """one shard; a case the bubble can't settle ends a turn"""
        mine = [w]
        while True:
            finish(w)
            if w["p"].returncode != 9 or w["turn"] >= 6 or not os.path.exists(w["out"]):
                return mine
            w = start(w["s"], w["turn"] + 1, json.load(open(w["out"]))["seq"])
            mine.append(w)

    first = [start(s, 0, 0) for s in range(shards)]
    with concurrent.futures.ThreadPoolExecutor(shards) as pool:
        procs = [w for ws in pool.map(worker, first) for w in ws]

    viols, inconc, errors, samples, assume = [], [], [], [], []
    counters, distinct, evals, rule = {}, set(), 0, ""
    for w in procs:
        s, p, out = w["s"], w["p"], w["out"]
        text = open(w["logname"], errors="replace").read()
        rep = None
        if os.path.exists(out):
            rep = json.load(open(out))
            evals += rep["evaluations"]
            distinct.update(rep["distinct"])
            for k, v in (rep["counters"] or {}).items():
                counters[k] = counters.get(k, 0) + v
            rule = rep["rule"] or rule
            for v in rep["violations"] or []:
                viols.append(v)
            for v in rep["inconclusive"] or []:
                inconc.append("worker %d: %s" % (s, v))
            for v in rep["errors"] or []:
                errors.append("worker %d: %s" % (s, v))
            samples += (rep["samples"] or [])[:3]
            for a in rep["assumptions"] or []:
                if a not in assume:
                    assume.append(a)
        journal = None
        if os.path.exists(out + ".journal"):
            try:
                journal = json.load(open(out + ".journal"))
            except ValueError:
                pass
        if w["timed_out"]:
            inconc.append("worker %d did not end in time, running %s\n%s" % (s, json.dumps(journal)[:500], text[-2000:]))
        elif rep and p.returncode == 1 and conf.get("race") and "race detected during execution" in text:
            pass  # judged by the reports of the race detector
        elif rep is None or (p.returncode not in (0, 7, 8, 9) and not (
                p.returncode == 1 and (rep["violations"] or rep["errors"] or rep["inconclusive"]))):
            c = crash_goroutine(text)
            if c is None:
                errors.append("worker %d ended with %s without report\n%s" % (s, p.returncode, text[-3000:]))
            else:
                reason, stack = c
                sig = jlib_sig(stack)
                if not sig and "all goroutines are asleep" in reason:
                    sig = ""
                if "synctest" in reason:
                    sig = ""  # the harness mixed bubbles
                if sig and not first_user_frame(stack).startswith("verif/harness"):
                    viols.append({"sig": "crash:" + sig, "case": journal,
                                  "detail": "the process died: %s\n%s" % (reason, stack[:5000])})
                elif "concurrent map" in reason and MODULE in text:
                    viols.append({"sig": "crash:concurrent map", "case": journal, "detail": reason + "\n" + text[:5000]})
                else:
                    errors.append("worker %d died: %s\n%s" % (s, reason, stack[:4000]))

    # data races
    if conf.get("race"):
        n = 0
        for name in sorted(os.listdir(work)):
            if not name.startswith("race."):
                continue
            for funcs, raw, blk in race_reports(open(os.path.join(work, name), errors="replace").read() + "\n=================="):
                n += 1
                if os.environ.get("VERIF_DEBUG"):
                    print(blk[:4000])
                if not any(funcs):
                    continue
                # whose access it is: the innermost frame of jlib or harness
                if "jlib" not in [owner(fs) for fs in raw]:
                    continue
                sig = "race:" + "|".join(sorted(set(funcs)))
                viols.append({"sig": sig, "case": None, "detail": blk[:6000]})
        counters["race_reports"] = n

    known, fixed = load_known(prop)
    fresh, seen_known = [], {}
    for v in viols:
        if v["sig"] in known:
            seen_known.setdefault(v["sig"], v)
        else:
            fresh.append(v)
    for sig in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[sig]))

    wall = round(time.time() - t0, 2)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": conf.get("level", "exploration"),
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(distinct),
            "rule": rule, "samples": samples[:6], "observed": counters,
            "workers": shards, "build_s": round(build_s, 2),
            "inconclusive": inconc[:10],
        },
        "assumptions": assume,
        "violations": len(fresh),
        "wall_s": wall,
    }
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for e in errors:
        print("HARNESS-ERROR " + e[:3000])
    for i in inconc:
        print("INCONCLUSIVE " + i[:3000])
    if fresh:
        replay = os.path.join(evdir, "%s.replay.json" % prop)
        with open(replay, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier,
                       "rerun": "VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (seed, tier, prop),
                       "violations": fresh[:20]}, f, indent=1)
            f.write("\n")
        for v in fresh[:8]:
            print("-- %s\n   case %s\n   %s" % (v["sig"], json.dumps(v.get("case"))[:1500], v["detail"][:2500].replace("\n", "\n   ")))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(replay, VERIF)))
        return 1
    print("%s %s: %d evaluations, %d distinct non-trivial, %.1f s (%s)" % (
        prop, tier, evals, len(distinct), wall,
        ", ".join("%s=%d" % kv for kv in sorted(counters.items()))))
    if evals == 0 or not distinct:
        print("CHECK-ERROR nothing observed")
        return 2
    return 0


def load_known(prop):
    """known findings by signature; fixed entries suppress nothing"""
    known, fixed = {}, []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("fixed:"):
                fixed.append(line)
                continue
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)$", line)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known, fixed


if __name__ == "__main__":
    main()
