#!/usr/bin/env python3
"""Runs one check: builds the monitors against /repo's working tree, runs the case list in parallel
processes, collects what the monitors and the race detector reported, writes the evidence file.

usage: run.py <property> [--replay <file>]
Development only: VERIF_REPO=<dir> checks another tree, VERIF_ONLY=<scenario[:seed]> a part.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
DEV = REPO != "/repo"
GOROOT = "/opt/veriftools/go1.25.14"
HARN = os.path.join(VERIF, "harness")
# property -> package
PKG = {
    "C01": "core", "C02": "core", "C03": "core", "C04": "core", "C05": "core",
    "C06": "core", "C07": "core", "C08": "core", "C09": "core", "C10": "core",
    "C11": "oneoff", "C12": "watch", "C13": "forward", "C14": "adapters", "C15": "busctl",
    "C16": "loaderc", "C17": "lookup", "C18": "csctl", "C19": "csenc", "C20": "execreq",
    "C21": "plug", "C22": "codegen", "C23": "ready", "C24": "daemon",
    "C25": "stack", "C26": "steady",
}
LEVEL = "exploration"


def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)


def goenv(work):
    e = dict(os.environ)
    e.update(GOROOT=GOROOT, PATH=GOROOT + "/bin:" + e.get("PATH", "/usr/bin:/bin"), GOTOOLCHAIN="local",
             GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="",
             GOCACHE=os.environ.get("VERIF_GOCACHE", os.path.join(VERIF, ".work", "gocache")), CGO_ENABLED="1")
    e.setdefault("HOME", "/root")
    e.pop("GOFLAGS_EXTRA")
    return e


def build(pkg, work):
    env = goenv(work)
    out = os.path.join(work, "t.bin")
    cmd = [GOROOT + "/bin/go", "test", "-race", "-c", "-vet=off", "-o", out]
    mod = os.path.join(work, "go.mod")
    src = open(os.path.join(HARN, "go.mod")).read()
    open(mod, "w").write(src.replace("=> /repo", "=> " + REPO))
    shutil.copy(os.path.join(HARN, "go.sum"), os.path.join(work, "go.sum"))
    cmd.append("-modfile=" + mod)
    cmd.append("./" + pkg)
    r = sh(cmd, cwd=HARN, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        print(r.stdout)
        print("ERROR: the check does not build against the tree")
        sys.exit(2)
    # commands and plugins which are run and loaded by the check
    ps = []
    lst = os.path.join(HARN, pkg, "cmds")
    for c in open(lst).read().split() if os.path.exists(lst) else []:
        so = os.path.join(work, "cmd", os.path.basename(c))
        pc = [GOROOT + "/bin/go", "build", "-race", "-modfile=" + mod, "-o", so, c]
        ps.append((so, subprocess.Popen(pc, cwd=HARN, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for d in sorted(glob.glob(os.path.join(HARN, pkg, "so", "*"))):
        so = os.path.join(work, "so", os.path.basename(d) + ".cbus.so")
        pc = [GOROOT + "/bin/go", "build", "-race", "-buildmode=plugin", "-ldflags=-s -w", "-modfile=" + mod, "-o", so, d]
        ps.append((so, subprocess.Popen(pc, cwd=HARN, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for so, p in ps:
        o = p.communicate()[0]
        if p.returncode != 0 or not os.path.exists(so):
            print(o)
            print("ERROR: the commands and plugins do not build against the tree")
            sys.exit(2)
    return out, env


def parse_races(text):
    """yields (key, harness_only, block)"""
    out = []
    for block in text.split("=================="):
        if "WARNING: DATA RACE" not in block:
            continue
        tops = []
        for sec in re.split(r"\n\n", block):
            m = re.search(r"((?:Previous )?(?:[Rr]ead|[Ww]rite|[Aa]tomic \w+) (?:at|by)[^\n]*)\n((?:  .*\n?)*)", sec)
            if not m:
                continue
            frames = re.findall(r"^  (\S+)\(.*?\)?\n      (\S+):(\d+)", m.group(2), re.M)
            top = None
            for fn, path, _ in frames:
                if path.startswith(GOROOT) or "/src/runtime/" in path or path.startswith("<"):
                    continue
                top = (fn, path)
                break
            tops.append(top or ("?", "?"))
        if not tops:
            tops = [("?", "?")]
        harness = all(p.startswith(HARN) for _, p in tops)
        key = "race " + " <-> ".join(sorted(re.sub(r"\.func\d+.*", "", f) for f, _ in tops))
        out.append((key, harness, block.strip()))
    return out


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith("{"):
                continue
            d = json.loads(l)
            if d.get("property") == pid and d.get("status") == "known":
                out.append(d)
    return out


def match_known(known, v):
    for k in known:
        if k.get("sig") and k["sig"] != v["sig"]:
            continue
        if k.get("scenario") and k["scenario"] != v["scenario"]:
            continue
        if k.get("match") and not re.search(k["match"], v["msg"], re.S):
            continue
        return k
    return None


def main():
    pid = sys.argv[1]
    pkg = PKG[pid]
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        replay = json.load(open(sys.argv[3]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    work = os.path.join(VERIF, ".work", "%s.%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rc = 2
    try:
        rc = run(pid, pkg, replay, tier, seed, work, t0)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(pid, pkg, replay, tier, seed, work, t0):
    binp, env = build(pkg, work)
    tb = time.time() - t0
    shards = 1 if replay else int(os.environ.get("VERIF_NSHARDS", "8"))
    budget = 800 - tb if tier == "quick" else 3600 * 3
    only = os.environ.get("VERIF_ONLY", "")
    if replay:
        only = "%s:%d" % (replay["scenario"], replay["seed"])
        seed = replay.get("base_seed", seed)
    procs = []
    maxv = ["1", "2", "4", "8"]
    for s in range(shards):
        e = dict(env)
        d = os.path.join(work, "s%d" % s)
        os.makedirs(d)
        e.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_SHARD=str(s), VERIF_SHARDS=str(shards), VERIF_PROP=pid,
                 VERIF_OUT=d + "/out.json", VERIF_CASE=only, VERIF_SCRATCH=d, TMPDIR=d, VERIF_REPO=REPO, VERIF_DIR=VERIF, VERIF_SO=os.path.join(work, "so"), VERIF_CMD=os.path.join(work, "cmd"),
                 GORACE="log_path=%s/race halt_on_error=0 history_size=3" % d, GOTRACEBACK="all",
                 GOMAXPROCS=maxv[s % 4])
        if tier == "quick" and not replay:
            e["VERIF_SOFT"] = str(max(60, int(480 - tb)))
        for k in ("VERIF_ONLY", "VERIF_VERBOSE"):
            e.pop(k, None)
        log = open(d + "/log", "wb")
        procs.append((subprocess.Popen([binp, "-test.timeout=0"], cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT,
                                       start_new_session=True), d, log))
    deadline = time.time() + budget
    timed = []
    for p, d, log in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            timed.append(d)
        try:
            os.killpg(p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
        log.close()
    cases, events, evals, sigs, samples, incon, viol, skipped = {}, {}, 0, {}, [], [], [], {}
    hraces = {}
    for p, d, _ in procs:
        r = None
        try:
            r = json.load(open(d + "/out.json"))
        except (OSError, ValueError):
            pass
        cur = ""
        try:
            cur = open(d + "/out.json.cur").read()
        except OSError:
            pass
        logtxt = open(d + "/log", "rb").read().decode("utf8", "replace")
        if r:
            for k, v in (r["cases"] or {}).items():
                cases[k] = cases.get(k, 0) + v
            for k, v in (r["events"] or {}).items():
                events[k] = events.get(k, 0) + v
            for k, v in (r["sigs"] or {}).items():
                sigs.setdefault(k, set()).update(v)
            for k, v in (r.get("skipped") or {}).items():
                skipped[k] = skipped.get(k, 0) + v
            evals += r["evals"]
            samples += r["samples"] or []
            incon += r["inconclusive"] or []
            viol += r["violations"] or []
        sc, _, sd = cur.partition(":")
        for f in glob.glob(d + "/race.*"):
            for key, hon, block in parse_races(open(f, errors="replace").read()):
                if hon:
                    hraces[key] = hraces.get(key, 0) + 1
                    continue
                viol.append({"scenario": sc, "seed": int(sd or 0), "sig": "race", "msg": key + "\n" + block[:6000], "key": key})
        if not r or not r["done"]:
            if d in timed:
                incon.append("shard ran out of time in case " + cur)
            elif r and (r["violations"] or r["inconclusive"]) and p.returncode == 3:
                pass
            else:
                m = re.search(r"^(panic: .*|fatal error: .*)$", logtxt, re.M)
                if m:
                    i = logtxt.find(m.group(1))
                    viol.append({"scenario": sc, "seed": int(sd or 0), "sig": "crash", "msg": logtxt[i:i + 8000]})
                else:
                    incon.append("shard ended with %s in case %s: %s" % (p.returncode, cur, logtxt[-1500:]))
    # dedup and known findings
    known = load_known(pid)
    seen, fresh, hits = set(), [], {}
    for v in viol:
        k = match_known(known, v)
        if k:
            hits.setdefault(k["id"], [k, 0])[1] += 1
            continue
        key = (v["scenario"] if v["sig"] != "race" else "", v["sig"], v.get("key", ""))
        if key in seen:
            continue
        seen.add(key)
        fresh.append(v)
    for k in known:
        n = hits.get(k["id"], [k, 0])[1]
        print("KNOWN-FINDING: property=%s %s (observed %d times in this run)" % (pid, k["what"], n))
    ncase = sum(cases.values())
    distinct = sum(len(v) for v in sigs.values())
    nviol = len(fresh)
    paths = []
    rd = os.path.join(VERIF, "replays")
    os.makedirs(rd, exist_ok=True)
    for n, v in enumerate(fresh):
        v = dict(v, property=pid, base_seed=seed, tier=tier,
                 how="python3 run.py %s --replay <this file> (scheduling is not replayed; repeat if needed)" % pid)
        name = "%s-%s-%s.json" % (pid, v["sig"], hashlib.sha1((v["scenario"] + str(v["seed"]) + v["msg"][:200]).encode()).hexdigest()[:8])
        path = os.path.join(rd, name)
        json.dump(v, open(path, "w"), indent=1)
        paths.append((path, v))
    meta = {}
    mp = os.path.join(VERIF, "tools", "rules.json")
    if os.path.exists(mp):
        meta = json.load(open(mp)).get(pid, {})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "evaluations": ncase,
            "distinct_nontrivial": distinct,
            "rule": meta.get("rule", "") + " A case is distinct and non-trivial when the hash of the sequence of events the monitors observed in it differs from every other case of its scenario.",
            "samples": samples[:6] or ["none"],
            "cases_per_scenario": cases,
            "cases_skipped_for_lack_of_time": skipped,
            "events_observed": events,
            "oracle_evaluations": evals,
            "race_detector": "on, GOMAXPROCS 1/2/4/8 across processes",
            "races_between_harness_frames_only": hraces,
            "known_findings_observed": {k: v[1] for k, v in hits.items()},
            "build_s": round(tb, 1),
            "inconclusive": incon[:10],
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    if not DEV and not replay and not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d cases (%d distinct), %d oracle evaluations, %d events, %.1fs (build %.1fs)" % (
        pid, ncase, distinct, evals, sum(events.values()), time.time() - t0, tb))
    if nviol:
        for path, v in paths[:10]:
            print("  [%s] %s:%s %s" % (v["sig"], v["scenario"], v["seed"], v["msg"][:600]))
        for path, v in paths[:3]:
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if incon:
        print("INCONCLUSIVE: " + "; ".join(incon[:5]))
        return 2
    if ncase == 0 or evals == 0:
        print("INCONCLUSIVE: nothing was observed")
        return 2
    return 0


main()
