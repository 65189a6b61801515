#!/usr/bin/env python3
"""Driver of the bounded model checker.

  run.py P01 --tier quick|thorough     decide one property
  run.py --replay FILE                 re-execute one recorded counterexample
  run.py --all [--tier T]              every property in turn

Each property owns harness programs (harness/*.cpp) that enumerate *every*
case (input, configuration or operation history) of a stated finite space on
the real headers in /repo/viennagrid and compare each with a reference model.
The driver compiles them from /repo's working tree, splits the case space over
the cores, confirms every reported failure by re-running that one case alone,
and writes the evidence file.
exit 0: held everywhere; 1: VIOLATION line(s); 2: no answer (build/harness error)
"""
import sys, os, subprocess, json, time, re, hashlib, shutil, signal, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
CXX = os.environ.get("VERIF_CXX", "g++")
STD = "gnu++11"
LIBS = {"serial.cpp": ["-lboost_serialization"]}
FLAGS = ["-O1", "-w", "-fno-omit-frame-pointer", "-fsanitize=address",
         "-D_GLIBCXX_ASSERTIONS", "-ftemplate-depth=2000"]
FAST = ["-O2", "-w", "-D_GLIBCXX_ASSERTIONS", "-ftemplate-depth=2000"]   # geometry harnesses: no sanitizer, ten times the cases
NCPU = min(8, os.cpu_count() or 8)

sys.path.insert(0, HERE)
from registry import PROPS            # noqa: E402  property -> programs and bounds
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4000:detect_stack_use_after_return=0:malloc_context_size=6", LC_ALL="C")


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "viennagrid"), os.path.join(HERE, "harness")):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    h.update(" ".join([CXX] + FLAGS + FAST).encode())
    return h.hexdigest()[:16]


def compile_one(args):
    src, defs, th, std, fast = args
    name = os.path.splitext(src)[0] + "".join("-" + d.replace("=", "") for d in defs) + ("-fast" if fast else "")
    out = os.path.join(BUILD, th, name)
    if os.path.exists(out):
        return name, out, None
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    cmd = [CXX, "-std=" + std] + (FAST if fast else FLAGS) + ["-I" + REPO, "-I" + os.path.join(HERE, "harness")] + ["-D" + d for d in defs] + \
          [os.path.join(HERE, "harness", src), "-o", tmp] + LIBS.get(src, [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        return name, None, p.stdout
    os.rename(tmp, out)
    return name, out, None


MEM = {"quick": 3000, "thorough": 0}      # MB per process: a runaway allocation is a crash of its case, not of the machine


def run_proc(cmd, timeout, cwd, mem=0):
    scratch = tempfile.mkdtemp(prefix="vgmc-")
    try:
        return run_in(cmd, timeout, cwd, scratch, mem)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_in(cmd, timeout, cwd, scratch, mem):
    env = dict(ENV, MC_SCRATCH=scratch, MC_MEM=str(mem))
    if mem:
        env["ASAN_OPTIONS"] += ":hard_rss_limit_mb=%d" % mem
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd=cwd, env=env, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e, False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return -9, o, e, True


def parse(out):
    r = {"fails": [], "crash": None, "stats": None, "samples": [], "groups": {}, "done": False, "notes": []}
    for l in out.splitlines():
        if l.startswith("FAIL key="):
            m = re.match(r"FAIL key=(\S+) group=(\S+) case=(\d+) trace=(.*?) :: (.*)$", l)
            if m:
                r["fails"].append({"key": m.group(1), "group": m.group(2), "case": int(m.group(3)), "trace": m.group(4).strip(), "msg": m.group(5)})
        elif l.startswith("CRASH ") or l.startswith("HANG "):
            m = re.match(r"(CRASH|HANG) group=(\S+) case=(\d+) trace=(.*)$", l)
            if m:
                r["crash"] = {"key": m.group(1).lower(), "group": m.group(2), "case": int(m.group(3)), "trace": m.group(4).strip(), "msg": m.group(1)}
        elif l.startswith("SAMPLE "):
            r["samples"].append(l[7:])
        elif l.startswith("NOTE "):
            r["notes"].append(l[5:])
        elif l.startswith("GROUP "):
            _, g, n = l.split()
            r["groups"][g] = int(n)
        elif l.startswith("STATS "):
            r["stats"] = dict((k, int(v)) for k, v in (x.split("=") for x in l.split()[1:]))
        elif l == "DONE":
            r["done"] = True
    return r


def load_known():
    """entries: property|program|key|group|trace-regex|text  (text after the last bar)"""
    known = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if not l.startswith("finding:"):
                continue
            known.append([x.strip() for x in l[len("finding:"):].split("|")])
    return known


def match_known(known, pid, f):
    for k in known:
        if k[0] == pid and (k[1] == f["program"]) and k[2] == f["key"] and k[3] == f["group"] and re.fullmatch(k[4], f["trace"]):
            return k
    return None


def check(pid, tier):
    t0 = time.time()
    prop = PROPS[pid]
    th = tree_hash()
    if os.path.isdir(BUILD):              # keep only the current tree's binaries
        for d in os.listdir(BUILD):
            if d != th and not d.startswith("w-"):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    jobs = [(p["src"], tuple(p.get("defs", ())), th, p.get("std", STD), bool(p.get("fast"))) for p in prop["programs"] if tier == "thorough" or not p.get("thorough_only")]
    progs = [p for p in prop["programs"] if tier == "thorough" or not p.get("thorough_only")]
    with ThreadPoolExecutor(NCPU) as ex:
        built = list(ex.map(compile_one, jobs))
    bad = [b for b in built if b[1] is None]
    if bad:
        for b in bad:
            print("build of %s failed:\n%s" % (b[0], b[2][-3000:]))
        print("NO-ANSWER property=%s: a harness does not compile against the tree" % pid)
        return 2
    t_build = time.time() - t0
    scratch_root = os.path.join(BUILD, "w-%s-%d" % (pid, os.getpid()))
    shutil.rmtree(scratch_root, ignore_errors=True)
    os.makedirs(scratch_root)
    limit = prop.get("limit", {}).get(tier, 600 if tier == "quick" else 6 * 3600)
    ct = prop.get("case_timeout", 20) * (1 if tier == "quick" else 6)
    tasks = []
    for p, b in zip(progs, built):
        n = p.get("shards", NCPU)
        for i in range(n):
            d = os.path.join(scratch_root, "%s.%d" % (b[0], i))
            os.makedirs(d)
            tasks.append((b[0], b[1], ["--tier", tier, "--shard", str(i), str(n), "--case-timeout", str(ct)], d, i, n))
    results = []
    known = load_known()
    stop = []                             # new failures: once there are enough, the rest is not run

    def go(t):
        name, exe, args, d, i, n = t
        if len(stop) >= 24:
            return None
        rc, o, e, to = run_proc([exe] + args, limit, d, MEM[tier])
        r = parse(o)
        r.update(program=name, exe=exe, rc=rc, timeout=to, stderr=e, shard=i, nshards=n, args=args)
        for f in r["fails"]:
            if not match_known(known, pid, dict(f, program=name)):
                stop.append(1)
        if r["crash"] and not match_known(known, pid, dict(r["crash"], program=name)):
            stop.extend([1] * 3)
        return r
    with ThreadPoolExecutor(NCPU) as ex:
        results = list(ex.map(go, tasks))
    skipped = results.count(None)
    results = [r for r in results if r is not None]

    viol, kn, errors = [], {}, []
    tot = {"executions": 0, "transitions": 0, "checks": 0, "states": 0, "outcomes": 0}
    groups, samples, capped = {}, [], skipped > 0
    cands = []
    for r in results:
        if r["stats"]:
            for k in tot:
                tot[k] += r["stats"][k]
            capped |= bool(r["stats"]["capped"])
        for g, n in r["groups"].items():
            groups[r["program"] + ":" + g] = groups.get(r["program"] + ":" + g, 0) + n
        if len(samples) < 12:
            samples += r["samples"][:2]
        fl = list(r["fails"])
        if r["crash"]:
            fl.append(r["crash"])
            capped = True
        for f in fl:
            f["program"], f["exe"], f["stderr"], f["args"] = r["program"], r["exe"], r["stderr"][-3000:], r["args"]
            cands.append(f)
        if not fl and not r["done"]:
            errors.append("%s shard %d: rc=%s timeout=%s\n%s" % (r["program"], r["shard"], r["rc"], r["timeout"], r["stderr"][-2000:]))
    seen, shard_tries = {}, []
    for f in cands:
        k = match_known(known, pid, f)
        if k:
            kn[k[5]] = kn.get(k[5], 0) + 1
            continue
        key = (f["program"], f["key"])
        seen[key] = seen.get(key, 0) + 1
        if seen[key] > 2 or len(viol) >= 6:
            continue
        # confirm: the single case alone; failures which depend on the history of the process
        # (memory reuse) do not show there, so the whole run of the shard is the second try
        d = os.path.join(scratch_root, "replay")
        os.makedirs(d, exist_ok=True)
        for args in (["--tier", tier, "--case", f["group"], str(f["case"]), "--case-timeout", str(ct * (1 if f["key"] == "hang" else 2))], f["args"]):
            if args is f["args"] and (viol or len(shard_tries) >= 3):
                continue
            shard_tries += [1] if args is f["args"] else []
            rc, o, e, to = run_proc([f["exe"]] + args, limit, d, MEM[tier])
            r2 = parse(o)
            again = [x["key"] for x in r2["fails"]] + ([r2["crash"]["key"]] if r2["crash"] else [])
            if f["key"] in again or (again and (f["key"] == "crash" or args is f["args"])):
                break
        else:
            errors.append("%s: failure %s of case %s/%d did not reproduce" % (f["program"], f["key"], f["group"], f["case"]))
            continue
        os.makedirs(REPLAYS, exist_ok=True)
        rp = os.path.join(REPLAYS, "%s-%s-%s-%d.json" % (pid, f["key"].replace("/", "_"), re.sub(r"\W+", "_", f["group"]), f["case"]))
        prog = next(p for p, b in zip(progs, built) if b[0] == f["program"])
        json.dump({"property": pid, "src": prog["src"], "defs": list(prog.get("defs", ())), "std": prog.get("std", STD), "fast": bool(prog.get("fast")), "args": args, "key": f["key"], "trace": f["trace"], "message": f["msg"], "stderr": e[-3000:]}, open(rp, "w"), indent=1)
        viol.append((f, rp))
    shutil.rmtree(scratch_root, ignore_errors=True)
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {"states": tot["states"], "transitions": tot["transitions"], "traces_validated_against_impl": tot["executions"],
                       "property_checks": tot["checks"], "distinct_outcomes": tot["outcomes"], "cases_per_group": groups,
                       "samples": samples, "exhaustive": not capped and not errors,
                       "bounds": prop["bounds"][tier] if isinstance(prop["bounds"], dict) else prop["bounds"],
                       "explanation": "every case of the bounded space is executed on the real headers and compared with the reference model; states = distinct reference-model states (summed over shards), transitions = operations executed on the implementation, traces_validated_against_impl = complete executions compared"},
          "assumptions": prop.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(viol), "build_s": round(t_build, 2),
          "known_findings_seen": kn}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for k, n in sorted(kn.items()):
        print("KNOWN-FINDING: property=%s %s (%d cases)" % (pid, k, n))
    for f, rp in viol:
        print("  %s [%s] group=%s case=%d trace=%s :: %s" % (f["program"], f["key"], f["group"], f["case"], f["trace"], f["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    for e in errors:
        print("ERROR " + e)
    print("%s %s: executions=%d transitions=%d states=%d checks=%d outcomes=%d violations=%d build=%.1fs wall=%.1fs%s" %
          (pid, tier, tot["executions"], tot["transitions"], tot["states"], tot["checks"], tot["outcomes"], len(viol), t_build, wall, " CAPPED" if capped else ""))
    if viol:
        return 1
    if errors:
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    name, exe, err = compile_one((d["src"], tuple(d["defs"]), tree_hash(), d.get("std", STD), bool(d.get("fast"))))
    if err:
        print(err)
        return 2
    w = os.path.join(BUILD, "w-replay-%d" % os.getpid())
    os.makedirs(w)
    rc, o, e, to = run_proc([exe] + d["args"], 900, w)
    shutil.rmtree(w, ignore_errors=True)
    print(o[-4000:])
    print(e[-4000:])
    r = parse(o)
    if r["fails"] or r["crash"]:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    return 0


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if a and a[0] == "--replay":
        return replay(a[1])
    if a and a[0] == "--all":
        rc = 0
        for p in sorted(PROPS):
            rc = max(rc, check(p, tier))
        return rc
    return check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
