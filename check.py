#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE]

Builds the harness package of the property against /repo's working tree, runs
its generated cases in parallel shards, and writes evidence/<property>.json.

exit 0  the property held on everything explored
exit 1  violated: a line "VIOLATION property=<id> replay=<path>" per violation
exit 2  the tree (or the harness against it) does not compile
exit 3  the machinery failed (no verdict)
"""
import argparse, collections, glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import PLAN  # noqa: E402

REPO_MARK = "/repo/"


def go_env():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE, env=env).stdout
    for kv in out.decode(errors="replace").split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            env[k] = v
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off")
    return env


def known_findings():
    known, path = [], os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m:
                known.append(m.groups())
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.setup:
        env = go_env()
        for pkg in sorted({p["pkg"] for p in PLAN.values()}):
            tmp = tempfile.mkdtemp(prefix="verif_setup_")
            try:
                if build({"pkg": pkg}, tmp, env) is None:
                    return 2
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        return 0
    if a.property not in PLAN:
        print("unknown property", a.property)
        return 3
    plan, pid = PLAN[a.property], a.property
    start = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        return run(a, plan, pid, tmp, start)
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)


def dep_overlay(src, mod, tmp, env):
    """Four changes to the fairOS-dfs dependency, for the harness build only.
    It reads the wall clock twice per feed update and loses the update when a second
    passes in between: compiled with one reading, from a logical clock (kit/clock.go),
    so that histories do not depend on the time they run at. It gives up on a chunk after 2 s, which a busy machine can exceed:
    an hour. It publishes a feed's cache entry before filling it, and changes it while others read it, so that a reader can
    find an empty one: compiled to replace entries. And NewDfsAPI, which would
    connect to a Bee node and an Ethereum RPC, can be given the in-memory node (kit/fave.go)."""
    d = subprocess.run(["go", "list", "-modfile", mod, "-m", "-f", "{{.Dir}}", "github.com/fairdatasociety/fairOS-dfs"],
                       cwd=src, env=env, stdout=subprocess.PIPE, check=True).stdout.decode().strip()
    edits = {
        "pkg/feed/handler.go": (("\treq.Epoch.Time = uint64(time.Now().Unix())\n", "\treq.Epoch.Time = TimestampProvider.Now().Time\n"),
                                ("\treq.Time = uint64(time.Now().Unix())\n", ""),
                                ("\tentry, err := h.get(&request.Feed)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tif entry == nil {\n\t\tentry = &CacheEntry{}\n"
                                 "\t\terr := h.set(&request.Feed, entry)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t}\n", "\tentry := &CacheEntry{}\n"),
                                ("\tentry.Reader = bytes.NewReader(entry.data)\n\treturn entry, nil\n", "\tentry.Reader = bytes.NewReader(entry.data)\n\treturn entry, h.set(&request.Feed, entry)\n")),
        "pkg/feed/cacheentry.go": (("\tdefaultRetrieveTimeout = 2 * time.Second\n", "\tdefaultRetrieveTimeout = time.Hour\n"),),
        "pkg/dfs/api.go": (("\nfunc NewDfsAPI(ctx context.Context, opts *Options) (*API, error) {\n",
                            "\nfunc NewDfsAPI(ctx context.Context, opts *Options) (*API, error) {\n\tif Connect != nil {\n\t\treturn Connect(ctx, opts)\n\t}\n"),
                           ("\n// API is the go api for fairOS\n", "\n// Connect replaces NewDfsAPI if set.\nvar Connect func(ctx context.Context, opts *Options) (*API, error)\n\n// API is the go api for fairOS\n")),
    }
    replace = {}
    for name, subs in edits.items():
        f = os.path.join(d, name)
        txt = open(f).read()
        for old, new in subs:
            assert txt.count(old) == 1, "fairOS-dfs is not the pinned one"
            txt = txt.replace(old, new)
        out = os.path.join(tmp, name.replace("/", "_") + ".txt")
        open(out, "w").write(txt)
        replace[f] = out
    ov = os.path.join(tmp, "overlay.json")
    json.dump({"Replace": replace}, open(ov, "w"))
    return ov


def build(plan, tmp, env):
    # the module files are copied so that a build can never edit committed files
    src = os.path.join(HERE, "harness")
    mod = os.path.join(tmp, "go.mod")
    shutil.copy(os.path.join(src, "go.mod"), mod)
    shutil.copy(os.path.join(src, "go.sum"), os.path.join(tmp, "go.sum"))
    binary = os.path.join(tmp, "check.test")
    p = subprocess.run(["go", "test", "-c", "-vet=off", "-modfile", mod, "-overlay", dep_overlay(src, mod, tmp, env), "-o", binary] + plan.get("flags", []) + ["./" + plan["pkg"]],
                       cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    if p.returncode != 0 or not os.path.exists(binary):
        print(p.stdout.decode(errors="replace")[-4000:])
        return None
    return binary


def launch(binary, pid, out, env, extra):
    e = dict(env)
    e.update(extra)
    log = open(os.path.join(out, "log." + extra.get("VERIF_SHARD", "0")), "wb")
    return subprocess.Popen([binary, "-test.run", "^Test%s(_|$)" % pid, "-test.timeout", "0"], cwd=out, env=e,
                            stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT)


def crash_text(path):
    """The Go crash report in a shard's log, if the process died of one."""
    try:
        txt = open(path, "rb").read().decode(errors="replace")
    except OSError:
        return None
    m = re.search(r"^(panic: |fatal error: |SIG\w+: )", txt, re.M)
    return txt[m.start():m.start() + 20000] if m else None


def journal_of(out, shard):
    best = None
    for f in glob.glob(os.path.join(out, "journal.*.%s.json" % shard)):
        if best is None or os.path.getmtime(f) > os.path.getmtime(best):
            best = f
    return best


def first_repo_frames(txt):
    # the goroutine that crashed is printed first
    for block in txt.split("\n\n"):
        if re.search(r"^goroutine \d+ .*running", block, re.M):
            return block
    return txt.split("\n\n")[0]


def run(a, plan, pid, tmp, start):
    env = go_env()
    binary = build(plan, tmp, env)
    if binary is None:
        print("ERROR: harness does not build against /repo")
        return 2
    t_build = time.time() - start
    workers = plan.get("shards", 8)
    shards = 1 if a.replay else workers * plan.get("rounds", (1, 1))[0 if a.tier == "quick" else 1]
    out = os.path.join(tmp, "out")
    os.mkdir(out)
    budget = plan.get("budget", 420) if a.tier == "quick" else plan.get("budget_thorough", 3600)
    base = {"VERIF_OUT": out, "VERIF_TIER": a.tier, "VERIF_SEED": str(a.seed), "VERIF_SHARDS": str(shards),
            "VERIF_BUDGET_S": str(budget), "VERIF_CORPUS": os.path.join(HERE, "corpus"), "GOTRACEBACK": "all",
            "TMPDIR": tmp, "VERIF_REPLAY": os.path.abspath(a.replay) if a.replay else "",
            "GOMAXPROCS": str(plan.get("procs", 2)), "GOMEMLIMIT": "2GiB"}
    if a.cases is not None:
        base["VERIF_CASES"] = str(a.cases)
    hard = start + (870 if a.tier == "quick" else budget + 1200)
    # a shard is a process; more of them than run at a time (rounds) bounds the memory of each
    ends, budget_end = {}, time.time() + budget
    running = {}
    errors, violations = [], []
    todo = list(range(shards))
    while todo or running:
        while todo and len(running) < workers:
            s = todo.pop(0)
            left = str(max(1, int(budget_end - time.time())))
            running[s] = launch(binary, pid, out, env, dict(base, VERIF_SHARD=str(s), VERIF_BUDGET_S=left))
        time.sleep(0.05)
        late = time.time() > hard - 60
        for s, p in list(running.items()):
            if p.poll() is not None:
                ends[s] = p
                del running[s]
            elif late:
                p.kill()
                p.wait()
                errors.append("shard %d ran out of time" % s)
                del running[s]
        if late:
            errors += ["shard %d was not run" % s for s in todo]
            todo = []
    for s, p in sorted(ends.items()):
        if p.returncode == 97:
            j = journal_of(out, s)
            # a hang counts only if the same case hangs again, with nothing else
            # running; it may need a particular schedule, so it is tried repeatedly
            hung = False
            for attempt in range(4):
                if not j or hung or time.time() > hard - 200:
                    break
                qs = []
                for w in range(1 if attempt == 0 else 4):
                    o2 = os.path.join(tmp, "again%d_%d_%d" % (s, attempt, w))
                    os.mkdir(o2)
                    qs.append((o2, launch(binary, pid, o2, env, dict(base, VERIF_OUT=o2, VERIF_SHARD="0", VERIF_SHARDS="1", VERIF_REPLAY=j))))
                for o2, q in qs:
                    try:
                        again = q.wait(timeout=max(1, hard - time.time() - 20))
                    except subprocess.TimeoutExpired:
                        q.kill()
                        q.wait()
                        continue
                    dump = "".join(open(f, errors="replace").read() for f in glob.glob(os.path.join(o2, "hang.*")))
                    if again == 97 and REPO_MARK in dump and not hung:
                        hung = True
                        v = json.load(open(j))
                        v["message"] = "the call never returned (twice, second time alone): " + summarize(dump)
                        violations.append(v)
            if hung:
                continue
            errors.append("shard %d: a case hung (not reproduced alone)" % s)
        elif p.returncode not in (0, 1):
            ct = crash_text(os.path.join(out, "log.%d" % s))
            j = journal_of(out, s)
            if ct and j and REPO_MARK in first_repo_frames(ct):
                v = json.load(open(j))
                v["message"] = "the process crashed: " + ct[:3000]
                violations.append(v)
            else:
                errors.append("shard %d exited with %s: %s" % (s, p.returncode, (ct or tail(os.path.join(out, "log.%d" % s)))[-1500:]))
    # a process that ended in a panic exits 2: handled above. collect reports
    reps = [json.load(open(f)) for f in sorted(glob.glob(os.path.join(out, "report.*.json")))]
    subs = collections.OrderedDict()
    known_met = set()
    for r in reps:
        key = r["sub"] or "main"
        x = subs.setdefault(key, {"evaluations": 0, "hashes": set(), "classes": collections.Counter(), "samples": [], "rule": r["rule"], "skipped": 0})
        x["evaluations"] += r["evaluations"]
        x["hashes"] |= set(r["hashes"] or [])
        x["classes"].update(r["classes"] or {})
        x["samples"] += (r["samples"] or [])[:1]
        x["skipped"] += r["skipped_deadline"]
        violations += r["violations"] or []
        errors += r["harness_errors"] or []
        known_met |= set(r["known"] or [])
        if not r["done"]:
            errors.append("a shard did not finish")
    if not reps and not violations:
        errors.append("no report was written: " + tail(os.path.join(out, "log.0")))
    evals = sum(x["evaluations"] for x in subs.values())
    nontriv = sum(len(x["hashes"]) for x in subs.values())
    if not violations and not a.replay and (evals == 0 or nontriv == 0):
        errors.append("nothing non-trivial was explored")
    skipped = sum(x["skipped"] for x in subs.values())
    # write replays
    rdir = os.path.join(HERE, "evidence", "replays")
    lines = []
    seen = set()
    for v in violations:
        key = (v["sub"], v["message"][:60])
        if key in seen and len(lines) >= 1:
            continue
        seen.add(key)
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.abspath(a.replay) if a.replay else os.path.join(rdir, "%s-%d.json" % (pid, len(lines)))
        if not a.replay:
            json.dump(v, open(rp, "w"), indent=1)
        print("  ", (v["sub"] + ": " if v["sub"] else "") + v["message"][:2500])
        lines.append("VIOLATION property=%s replay=%s" % (pid, rp))
    if not a.replay:
        cov = {"evaluations": evals, "distinct_nontrivial": nontriv,
               "rule": "; ".join("[%s] %s" % (k, x["rule"]) for k, x in subs.items()) or "none",
               "samples": [s for x in subs.values() for s in x["samples"][:2]][:8],
               "per_check": {k: {"evaluations": x["evaluations"], "distinct_nontrivial": len(x["hashes"]),
                                 "skipped_at_deadline": x["skipped"], "classes": dict(sorted(x["classes"].items()))} for k, x in subs.items()}}
        ev = {"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": plan["level"],
              "coverage": cov, "assumptions": plan.get("assumptions", []), "wall_s": round(time.time() - start, 2), "violations": len(lines)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for p_, i_, text in known_findings():
        if p_ == pid and i_ in known_met:
            print("KNOWN-FINDING: property=%s %s" % (pid, text))
    unknown = known_met - {i for p_, i, _ in known_findings() if p_ == pid}
    if unknown:
        errors.append("findings met that KNOWN_FINDINGS does not list: %s" % sorted(unknown))
    print("%s %s: %d cases, %d distinct non-trivial, %d skipped at the deadline, build %.1fs, total %.1fs" %
          (pid, a.tier, evals, nontriv, skipped, t_build, time.time() - start))
    if lines:
        print("\n".join(lines))
        return 1
    if errors:
        for e in errors[:6]:
            print("ERROR:", e[:3000])
        return 3
    return 0


def tail(path):
    try:
        return open(path, "rb").read()[-1500:].decode(errors="replace")
    except OSError:
        return ""


def summarize(dump):
    keep = [g for g in dump.split("\n\n") if REPO_MARK in g]
    return "\n\n".join(keep[:3])[:2500]


if __name__ == "__main__":
    sys.exit(main())
