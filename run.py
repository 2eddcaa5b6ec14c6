#!/usr/bin/env python3
"""Driver of every check:  run.py <property> [--tier quick|thorough] [--replay FILE]

Builds the property's explorer from /repo's working tree, lets it enumerate its bounded space on all
cores, replays every violation it reports in a fresh process, filters the listed known findings and
writes evidence/<property>.json.   exit 0: held   exit 1: VIOLATION   exit 2: the check itself failed.
"""
import sys, os, json, time, hashlib, subprocess, shutil, fnmatch, struct, signal, argparse, concurrent.futures

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import checks as registry

BUILD = os.path.join(HERE, "build")
NCPU = os.cpu_count() or 4
ASAN = "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
UBSAN = "print_stacktrace=0:halt_on_error=1:exitcode=98"

def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)

def files_under(*roots):
    for root in roots:
        for d, sub, fs in os.walk(root):
            sub[:] = sorted(x for x in sub if x not in ("__pycache__",))
            for f in sorted(fs):
                yield os.path.join(d, f)

def tree_key(extra):
    h = hashlib.sha256(extra.encode())
    for f in files_under(REPO + "/include", REPO + "/src", HERE + "/harness", HERE + "/stubs"):
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as fd: h.update(fd.read())
        h.update(b"\0")
    return h.hexdigest()[:24]

BASE_FLAGS = ["-std=c++17", "-w", "-include", "boost/serialization/base_object.hpp",
    "-DBLASBOOSTER_CORE_FAILURE_TO_EXCEPTION", "-DBLASBOOSTER_USE_TRACKER", "-DWITH_OPENBLAS", "-DWITH_EIGEN", "-DWITH_BLAZE", "-DUSE_BOOST",
    "-DHAVE_SHARED_POINTER", "-mavx", "-mfma", "-ftrivial-auto-var-init=pattern", "-DEIGEN_DONT_PARALLELIZE"]

def build(pid, spec, tier):
    """returns list of explorer binaries (one per variant)"""
    variants = spec.get("variants", {}).get(tier) or [dict(name="asan", flags=["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"])]
    inc = ["-I" + HERE + "/stubs", "-I" + HERE + "/harness", "-I" + REPO + "/include", "-I/usr/include/eigen3"]
    jobs, bins = [], []
    key = tree_key(json.dumps([BASE_FLAGS, variants, spec.get("srcs"), spec.get("flags"), spec.get("gen")]))
    out = os.path.join(BUILD, pid + "-" + tier + "-" + key)
    if os.path.exists(out + "/ok"):
        return [(v["name"], os.path.join(out, v["name"], "explorer")) for v in variants], 0.0
    if os.path.isdir(BUILD):
        for old in os.listdir(BUILD):
            if old.startswith(pid + "-" + tier + "-"): shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
    t0 = time.time()
    os.makedirs(out, exist_ok=True)
    gen = []
    if spec.get("gen"):
        r = subprocess.run([sys.executable, os.path.join(HERE, "harness", spec["gen"]), REPO, out], capture_output=True, text=True)
        if r.returncode: die("generator failed:\n" + r.stdout + r.stderr)
        inc = ["-I" + out] + inc
    for v in variants:
        vd = os.path.join(out, v["name"]); os.makedirs(vd, exist_ok=True)
        objs = []
        cxx = v.get("cxx", "g++")
        for n, s in enumerate(spec["srcs"]):
            src = s.replace("@H", HERE + "/harness").replace("@R", REPO).replace("@G", out)
            parts = spec.get("split", {}).get(s, 1)
            for k in range(parts):
                o = os.path.join(vd, "%d_%d.o" % (n, k)); objs.append(o)
                jobs.append([cxx] + BASE_FLAGS + v["flags"] + spec.get("flags", []) + inc +
                    (["-DMC_PART=%d" % k, "-DMC_PARTS=%d" % parts] if parts > 1 else []) + ["-c", src, "-o", o])
        b = os.path.join(vd, "explorer"); bins.append((v["name"], b, objs, cxx, v))
    def run(cmd):
        for pause in (5, 15, 0):
            r = subprocess.run(cmd, capture_output=True, text=True)
            # a compiler killed from outside (memory ran out) says nothing about the code
            if not pause or not (r.returncode < 0 or "Killed signal" in r.stderr): break
            time.sleep(pause)
        return r.returncode, cmd, r.stderr
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for rc, cmd, err in ex.map(run, jobs):
            if rc: shutil.rmtree(out, ignore_errors=True); die("compilation failed: %s\n%s" % (cmd[-3], "\n".join([l for l in err.split("\n") if "error" in l or "required from here" in l][:12])))
    for name, b, objs, cxx, v in bins:
        rc, cmd, err = run([cxx] + v["flags"] + objs + ["-o", b] + [l.replace("@G", out) for l in spec.get("libs", [])] + ["-lpthread"])
        if rc: shutil.rmtree(out, ignore_errors=True); die("link failed: %s\n%s" % (" ".join(cmd), err[:4000]))
    open(out + "/ok", "w").close()
    return [(name, b) for name, b, *_ in bins], time.time() - t0

JSZ = struct.Struct("=Q128si")
def read_journal(path):
    with open(path, "rb") as f: d = f.read()
    seq, scn, n = JSZ.unpack_from(d, 0)
    n = max(0, min(n, 512))
    ch = struct.unpack_from("=%di" % n, d, JSZ.size)
    note = d[JSZ.size + 512 * 4: JSZ.size + 512 * 4 + 1024]
    return seq, scn.split(b"\0")[0].decode(), list(ch), note.split(b"\0")[0].decode(errors="replace")

def env():
    e = dict(os.environ); e["ASAN_OPTIONS"] = ASAN; e["UBSAN_OPTIONS"] = UBSAN
    e["OPENBLAS_NUM_THREADS"] = "1"; e["OMP_NUM_THREADS"] = "1"; e["LC_ALL"] = "C"; e["TZ"] = "UTC"
    return e

def replay_once(binary, scn, choices, scratch, tier, timeout):
    """-> (kind, sig, msg): kind in ok|fail|crash|hang"""
    os.makedirs(scratch, exist_ok=True)
    j = os.path.join(scratch, "replay.journal")
    cmd = [binary, "--replay", scn, ",".join(map(str, choices)) or ",", "--journal", j] + (["--thorough"] if tier == "thorough" else [])
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, env=env(), cwd=scratch)
    except subprocess.TimeoutExpired:
        return [("hang", "hang:" + scn + ":" + read_journal(j)[3], "no answer within %ds" % timeout)]
    if p.returncode == 3: die("replay machinery failed: " + p.stderr[:2000])
    if p.returncode != 0:
        note = read_journal(j)[3]
        return [("crash", "crash:" + scn + ":" + note, ("exit status %d\n" % p.returncode) + p.stderr[:3000])]
    try: res = json.loads(p.stdout)
    except ValueError: die("replay produced no result: " + p.stdout[:500] + p.stderr[:500])
    return [("fail", f["sig"], f["msg"]) for f in res["fails"]] or [("ok", "", "")]

def run_shards(binary, tier, work, budget, hang_s):
    """-> (results, abnormal[])"""
    procs = []
    for i in range(NCPU):
        w = os.path.join(work, "s%d" % i); os.makedirs(w, exist_ok=True)
        cmd = [binary, "--shard", str(i), str(NCPU), "--out", os.path.join(w, "out.json"), "--journal", os.path.join(w, "journal")]
        if tier == "thorough": cmd += ["--thorough"]
        if budget: cmd += ["--budget", str(budget)]
        err = open(os.path.join(w, "stderr"), "w")
        procs.append(dict(p=subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=env(), cwd=w), w=w, i=i, seq=-1, t=time.time(), done=False))
    abnormal = []
    while any(not q["done"] for q in procs):
        time.sleep(0.05)
        for q in procs:
            if q["done"]: continue
            rc = q["p"].poll()
            if rc is None:
                try: seq = read_journal(q["w"] + "/journal")[0]
                except Exception: seq = q["seq"]
                if seq != q["seq"]: q["seq"] = seq; q["t"] = time.time()
                elif time.time() - q["t"] > hang_s:
                    q["p"].kill(); q["p"].wait(); q["done"] = True
                    seq, scn, ch, note = read_journal(q["w"] + "/journal")
                    abnormal.append(("hang", scn, ch, note, q["i"], "no progress for %ds" % hang_s))
                continue
            q["done"] = True
            if rc == 3: die("explorer failed: " + open(q["w"] + "/stderr").read()[:2000])
            if rc != 0:
                try: seq, scn, ch, note = read_journal(q["w"] + "/journal")
                except Exception: die("explorer died at start (%d): %s" % (rc, open(q["w"] + "/stderr").read()[:2000]))
                abnormal.append(("crash", scn, ch, note, q["i"], "exit status %d\n%s" % (rc, open(q["w"] + "/stderr", errors="replace").read()[:3000])))
    results, states = [], set()
    for q in procs:
        o = q["w"] + "/out.json"
        if os.path.exists(o):
            results.append(json.load(open(o)))
            for f in results[-1]["fails"]: f["shard"] = q["i"]
            d = open(o + ".states", "rb").read()
            states.update(struct.unpack("=%dQ" % (len(d) // 8), d))
    return results, abnormal, len(states)

def replay_shard(binary, i, tier, w):
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    cmd = [binary, "--shard", str(i), str(NCPU), "--out", os.path.join(w, "out.json"), "--journal", os.path.join(w, "journal")]
    if tier == "thorough": cmd += ["--thorough"]
    p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env(), cwd=w, timeout=1200)
    if p.returncode == 0: return {f["sig"] for f in json.load(open(w + "/out.json"))["fails"]}
    seq, scn, ch, note = read_journal(w + "/journal")
    return {"crash:%s:%s" % (scn, note)}

def load_findings(pid):
    known = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("#") or not line.strip() or line.startswith("fixed:"): continue
            # property=<id> | <signature> | <description>
            f = [x.strip() for x in line.split("|", 2)]
            if f[0] == "property=" + pid: known[f[1]] = f[2] if len(f) > 2 else ""
    return known

def bounds_of(pid):
    try:
        for l in open(HERE + "/properties.jsonl"):
            p = json.loads(l)
            if p["id"] == pid: return p["quantifier"]["text"]
    except (OSError, ValueError): pass
    return ""

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    pid = a.property
    if pid not in registry.CHECKS: die("unknown property " + pid)
    spec = registry.CHECKS[pid]
    t0 = time.time()
    work = os.path.join(HERE, "work", pid); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    if a.replay:
        r = json.load(open(a.replay))
        bins, _ = build(pid, spec, r.get("tier", "quick"))
        b = dict(bins)[r["variant"]]
        if r.get("mode") == "shard":
            bad = r["sig"] in replay_shard(b, r["shard"], r["tier"], os.path.join(work, "r"))
            if bad: print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            sys.exit(1 if bad else 0)
        res = replay_once(b, r["scenario"], r["choices"], os.path.join(work, "r"), r.get("tier", "quick"), 300)
        for k, s, m in res: print("%s %s\n%s" % (k, s, m))
        bad = any(k != "ok" for k, _, _ in res)
        if bad: print("VIOLATION property=%s replay=%s" % (pid, a.replay))
        shutil.rmtree(work, ignore_errors=True)
        sys.exit(1 if bad else 0)

    bins, build_s = build(pid, spec, tier)
    known = load_findings(pid)
    hang_s = spec.get("hang_s", 40)
    found, used = {}, set()
    tot = dict(executions=0, transitions=0, points=0, states=0, pruned=0)
    outcomes, per_scn, samples, trunc, variants = {}, {}, [], set(), []
    for vi, (vname, b) in enumerate(bins):
        budget = spec.get("budget", {}).get(tier, 600 if tier == "quick" else 1500) / len(bins)
        results, abnormal, nstates = run_shards(b, tier, os.path.join(work, vname), budget, hang_s)
        variants.append(dict(name=vname, executions=sum(r["executions"] for r in results), states=nstates))
        tot["states"] = max(tot["states"], nstates)
        for r in results:
            for k in ("executions", "transitions", "points", "pruned"): tot[k] += r[k]
            for k, n in r["outcomes"].items(): outcomes[k] = outcomes.get(k, 0) + n
            for k, n in r["per_scenario"].items(): per_scn[k] = per_scn.get(k, 0) + n
            samples += r["samples"][:3]; trunc.update(r["truncated"])
            for f in r["fails"]:
                if f["sig"] not in found: found[f["sig"]] = dict(kind="fail", variant=vname, bin=b, **f)
                else: found[f["sig"]]["count"] += f["count"]
        for kind, scn, ch, note, shard, msg in abnormal:
            sig = "%s:%s:%s" % (kind, scn, note)
            found.setdefault(sig, dict(kind=kind, variant=vname, bin=b, sig=sig, msg=msg, scenario=scn, choices=ch, count=1, shard=shard))
    # every reported failure is replayed alone before it is believed
    violations = []
    todo = sorted(found.values(), key=lambda f: (len(f["choices"]), f["choices"]))
    for f in todo:
        if f["sig"] in known and f["kind"] == "fail": used.add(f["sig"]); continue
        if len(violations) >= 4 or (f["kind"] == "hang" and any(v["kind"] == "hang" for v in violations)): continue
        res = replay_once(f["bin"], f["scenario"], f["choices"], os.path.join(work, "r"), tier, max(90, 2 * hang_s))
        sigs = {s for k, s, m in res if k != "ok"}
        f["mode"] = "path"
        if not sigs:
            # timing (a slow machine) is not a violation
            if f["kind"] == "hang": print("note: %s made progress when run alone" % f["sig"]); continue
            # state carried from one execution to the next: repeat the worker's whole deterministic sequence
            r2 = replay_shard(f["bin"], f["shard"], tier, os.path.join(work, "r2"))
            if f["sig"] not in r2: die("a reported failure did not reproduce: %s %s %s" % (f["sig"], f["scenario"], f["choices"]))
            f["mode"] = "shard"; sigs = {f["sig"]}
        if f["kind"] == "fail" and f["sig"] not in sigs: f["sig"] = sorted(sigs)[0]
        if f["kind"] != "fail": f["sig"] = sorted(sigs)[0]
        if f["sig"] in known: used.add(f["sig"]); continue
        violations.append(f)
    os.makedirs(HERE + "/replays", exist_ok=True)
    for old in os.listdir(HERE + "/replays"):
        if old.startswith(pid + "-"): os.remove(os.path.join(HERE, "replays", old))
    for n, f in enumerate(violations):
        path = os.path.join(HERE, "replays", "%s-%d.json" % (pid, n))
        json.dump(dict(property=pid, tier=tier, variant=f["variant"], scenario=f["scenario"], choices=f["choices"], sig=f["sig"], msg=f["msg"], kind=f["kind"], mode=f["mode"], shard=f["shard"], count=f["count"]), open(path, "w"), indent=1)
        f["replay"] = path
    wall = time.time() - t0
    min_exec = spec.get("min_executions", 1)
    cov = dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["executions"],
        choice_points=tot["points"], samples=[s for s in samples[:10]] or ["(none)"],
        exhaustive=not trunc, truncated_scenarios=sorted(trunc), distinct_outcomes=len(outcomes),
        outcomes=dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:25]), per_scenario=per_scn, variants=variants, bounds=bounds_of(pid),
        known_findings_seen=sorted(used), build_s=round(build_s, 1),
        note="every trace is an execution of the real code built from /repo's working tree; no separate model is trusted")
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking", coverage=cov, wall_s=round(wall, 2))
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(HERE + "/evidence/%s.json" % pid, "w"), indent=1)
    if not a.keep: shutil.rmtree(work, ignore_errors=True)
    for s in sorted(used): print("KNOWN-FINDING: property=%s %s -- %s" % (pid, s, known[s]))
    print("%s %s: %d executions, %d transitions, %d states, %d outcomes, build %.1fs, total %.1fs%s" % (pid, tier, tot["executions"],
        tot["transitions"], tot["states"], len(outcomes), build_s, wall, " TRUNCATED " + ",".join(sorted(trunc)) if trunc else ""))
    if violations:
        for f in violations:
            print("--- %s (%d executions)\n    scenario %s choices %s\n    %s" % (f["sig"], f["count"], f["scenario"], f["choices"], f["msg"][:1500]))
        for f in violations: print("VIOLATION property=%s replay=%s" % (pid, f["replay"]))
        sys.exit(1)
    if tot["executions"] < min_exec: die("only %d executions explored (expected at least %d)" % (tot["executions"], min_exec))
    sys.exit(0)

if __name__ == "__main__":
    main()
