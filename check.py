#!/usr/bin/env python3
"""Driver: check.py <PROPERTY-ID>   (tier from VERIF_TIER, seed from VERIF_SEED)

Compiles the property's harness together with /repo's current sources, runs the
bounded-exhaustive exploration on all cores, confirms any violation by replay,
writes evidence/<id>.json, and exits 0 (held) or 1 (VIOLATION line printed).
Any other exit code is an error of the check itself.
    check.py --replay <file>   replays one recorded case
"""
import glob, hashlib, json, os, re, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "source")
H = os.path.join(VERIF, "harness")
sys.path.insert(0, H)
from props import PROPS  # noqa: E402

JOBS = max(2, min(8, os.cpu_count() or 2))
SAN = ["-fsanitize=address,bounds,integer-divide-by-zero,return,vptr,null",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
BASE = ["-std=c++17", "-O1", "-g0", "-DENABLE_MLPACK=false", "-D_GLIBCXX_ASSERTIONS",
        "-ftrivial-auto-var-init=pattern", "-w", "-pthread",
        "-I" + SRC, "-I" + os.path.join(H, "stub"), "-I" + H]
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=66:"
                       "max_malloc_fill_size=4096:malloc_fill_byte=165:detect_stack_use_after_return=1")
ENV["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:print_stacktrace=0"


class CheckError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors="replace", **kw)


def find_sources(kind):
    if kind == "header":
        return []
    if kind == "dnn":
        out = sorted(glob.glob(os.path.join(SRC, "dnn", "*.cpp")))
        # concatenate.cpp is not part of the library (commented out of
        # source/dnn/CMakeLists.txt): take what the library takes.
        cm = os.path.join(SRC, "dnn", "CMakeLists.txt")
        if os.path.exists(cm):
            listed = set()
            for line in open(cm):
                line = line.split("#", 1)[0]
                listed.update(re.findall(r"([\w/]+\.cpp)", line))
            sel = [f for f in out if os.path.basename(f) in listed]
            if sel:
                out = sel
        mid = sorted(glob.glob(os.path.join(SRC, "middleware", "*.cpp")))
        return out + mid
    raise CheckError("unknown source kind " + kind)


def build(pid, spec, bdir):
    flags = list(BASE)
    if not spec.get("nosan"):
        flags += SAN
    flags += spec.get("flags", [])
    units = [os.path.join(H, spec["harness"])] + [os.path.join(H, x) for x in spec.get("extra", [])]
    units += find_sources(spec.get("sources", "header"))
    plain = {os.path.join(H, x) for x in spec.get("uninstrumented", [])}
    objs, cmds = [], []
    for u in units:
        o = os.path.join(bdir, os.path.basename(os.path.dirname(u)) + "_" + os.path.basename(u) + ".o")
        objs.append(o)
        fl = [f for f in flags if not (u in plain and f in spec.get("flags", []))]
        cmds.append(["g++"] + fl + ["-c", u, "-o", o])
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(run, cmds))
    for c, r in zip(cmds, res):
        if r.returncode != 0:
            raise CheckError("compilation failed: %s\n%s" % (" ".join(c), r.stdout[-6000:]))
    exe = os.path.join(bdir, "harness")
    link = ["g++"] + [f for f in flags if f not in spec.get("nolink", [])] + objs + ["-o", exe] + spec.get("libs", [])
    r = run(link)
    if r.returncode != 0:
        raise CheckError("link failed: %s\n%s" % (" ".join(link), r.stdout[-6000:]))
    return exe


def known_findings(pid):
    """id -> description, for unfixed findings of this property."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"^KNOWN-FINDING: property=(\S+) \[(\S+)\] (.*)$", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def harness_args(tier, seed, scratch, known, hang):
    a = ["--tier", tier, "--seed", str(seed), "--scratch", scratch, "--hang", str(hang)]
    for k in known:
        a += ["--known", k]
    return a


def replay_case(exe, args, case, timeout):
    """-> (reproduced, text)"""
    try:
        p = subprocess.run([exe] + args + ["--replay", case], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV, timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, "replay did not finish within %ds (hang)" % timeout
    if p.returncode == 0:
        return False, p.stdout
    if p.returncode == 4:
        raise CheckError("harness error on replay: " + p.stdout[-2000:])
    return True, p.stdout[-6000:]


def read_hashes(path):
    if not os.path.exists(path):
        return set()
    b = open(path, "rb").read()
    return set(struct.unpack("<%dQ" % (len(b) // 8), b))


def explore(pid, spec, tier, seed, bdir, exe, t_limit, slow=1):
    known = known_findings(pid)
    nsh = spec.get("shards", JOBS)
    procs = []
    hang = spec.get("hang", 40) * slow
    for i in range(nsh):
        sc = os.path.join(bdir, "scratch%d" % i)
        os.makedirs(sc, exist_ok=True)
        args = harness_args(tier, seed, sc, known, hang)
        cmd = [exe] + args + ["--shard", str(i), "--shards", str(nsh),
                              "--out", os.path.join(bdir, "out%d.json" % i),
                              "--cur", os.path.join(bdir, "cur%d" % i)]
        log = open(os.path.join(bdir, "log%d.txt" % i), "w")
        procs.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=ENV, cwd=sc), args, cmd))
    deadline = time.time() + t_limit
    viol = None
    pending = dict(enumerate(procs))
    results = {}
    while pending:
        for i, (p, args, cmd) in list(pending.items()):
            rc = p.poll()
            if rc is None:
                continue
            del pending[i]
            log = open(os.path.join(bdir, "log%d.txt" % i), errors="replace").read()
            if rc == 4:
                raise CheckError("harness error in shard %d: %s" % (i, log[-3000:]))
            op = os.path.join(bdir, "out%d.json" % i)
            if rc in (0, 1) and os.path.exists(op):
                results[i] = json.load(open(op))
                if rc == 1 and viol is None:
                    viol = (i, results[i]["case"], results[i]["message"], results[i]["desc"], args, cmd)
            else:
                cur = open(os.path.join(bdir, "cur%d" % i), "rb").read().split(b"\0")[0].decode()
                kind = "hang" if rc == 7 else "crash (exit %d)" % rc
                m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|Assertion '[^\n]*|terminate called[^\n]*)", log)
                if viol is None:
                    viol = (i, cur, kind + (": " + m.group(1) if m else ""), log[-3000:], args, cmd)
        if viol:
            break
        if time.time() > deadline:
            for i, (p, a, c) in pending.items():
                p.kill()
            raise CheckError("exploration exceeded its time limit of %ds" % t_limit)
        if pending:
            time.sleep(0.05)
    for i, (p, a, c) in pending.items():
        p.kill()
        p.wait()
    return viol, results, known


def confirm(exe, viol, spec, bdir):
    i, case, msg, desc, args, cmd = viol
    hang = spec.get("hang", 40)
    if "hang" in msg:
        # alone, with a much longer limit, before calling it a hang
        args = [a for a in args]
        args[args.index("--hang") + 1] = str(hang * 3)
    texts = []
    for _ in range(3):
        ok, text = replay_case(exe, args, case, hang * 3 + 30) if case else (False, "")
        texts.append(text)
        if ok:
            return True, text, "case"
    if "hang" in msg:
        return False, "\n".join(texts)[-3000:], "slow"   # it ends, it is only slow here
    # The case alone does not reproduce: the failure may need the cases before
    # it in the same process (state the code keeps between calls).  Re-run the
    # shard; the exploration is deterministic.
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV,
                           cwd=args[args.index("--scratch") + 1], timeout=700)
    except subprocess.TimeoutExpired:
        return False, "\n".join(texts)[-3000:], None
    if p.returncode not in (0, 4):
        return True, p.stdout[-6000:], "shard"
    return False, "\n".join(texts)[-3000:], None


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        rep = json.load(open(sys.argv[2]))
        pid = rep["property"]
    else:
        rep = None
        pid = sys.argv[1]
    spec = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if rep:
        tier = rep["tier"]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    bdir = os.path.join(VERIF, "build", pid + ("-replay" if rep else ""))
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    exe = build(pid, spec, bdir)
    t_build = time.time() - t0
    if rep:
        sc = os.path.join(bdir, "scratch")
        os.makedirs(sc)
        ok, text = replay_case(exe, harness_args(tier, rep.get("seed", seed), sc, known_findings(pid), spec.get("hang", 40)), rep["case"], 300)
        print(text)
        return 1 if ok else 0
    limit = spec.get("limit", {}).get(tier, 780 if tier == "quick" else 6 * 3600)
    viol, results, known = explore(pid, spec, tier, seed, bdir, exe, max(60, limit - t_build))
    confirmed = confirm(exe, viol, spec, bdir) if viol else None
    if confirmed and confirmed[2] == "slow":
        viol, results, known = explore(pid, spec, tier, seed, bdir, exe, max(60, limit - (time.time() - t0)), 4)
        confirmed = confirm(exe, viol, spec, bdir) if viol else None
    agg = {"evaluations": 0, "nontrivial": 0, "transitions": 0, "traces": 0, "checks": 0}
    sections, counters, samples, hits = {}, {}, [], {}
    states, outcomes = set(), set()
    for i in sorted(results):
        r = results[i]
        for k in agg:
            agg[k] += r[k]
        for k, v in r["sections"].items():
            sections[k] = sections.get(k, 0) + v
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for s in r["samples"]:
            if len(samples) < 12 and sum(x.split(":")[0] == s.split(":")[0] for x in samples) < 3:
                samples.append(s)
        for k, v in r["known"].items():
            if k in hits:
                hits[k][0] += v[0]
            else:
                hits[k] = list(v)
        states |= read_hashes(os.path.join(bdir, "out%d.json.states" % i))
        outcomes |= read_hashes(os.path.join(bdir, "out%d.json.outcomes" % i))
    rc = 0
    nviol = 0
    if viol:
        ok, text, how = confirmed
        if not ok:
            raise CheckError("a failure of case %s (%s) did not reproduce on replay; not reported\n%s" % (viol[1], viol[2], text))
        nviol = 1
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s.json" % pid)
        json.dump({"property": pid, "tier": tier, "seed": seed, "case": viol[1], "message": viol[2], "description": viol[3],
                   "reproduced_by": how, "replay_output": text,
                   "replay_cmd": "python3 /verif/check.py --replay " + rp}, open(rp, "w"), indent=1)
        print(viol[3][-2500:])
        print("case %s: %s" % (viol[1], viol[2]))
        rc = 1
    wall = time.time() - t0
    level = spec["level"]
    cov = {"exhaustive": not viol, "bounds": spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
           "cases_per_section": sections, "oracle_checks": agg["checks"], "build_s": round(t_build, 1)}
    if counters:
        cov["counters"] = counters
    cov["samples"] = samples or ["(none)"]
    if level == "model_checking":
        cov.update(states=len(states), transitions=agg["transitions"], traces_validated_against_impl=agg["traces"],
                   cases=agg["evaluations"])
    else:
        cov.update(evaluations=agg["evaluations"], distinct_nontrivial=agg["nontrivial"], rule=spec["rule"])
        if states:
            cov["distinct_states_observed"] = len(states)
    if outcomes:
        cov["distinct_outcomes_observed"] = len(outcomes)
    if hits:
        cov["known_findings_hit"] = {k: v[0] for k, v in hits.items()}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
               "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol},
              open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for k in sorted(known):
        if k in hits:
            print("KNOWN-FINDING: property=%s [%s] %s" % (pid, k, known[k]))
        else:
            print("note: known finding [%s] of %s was not observed on this run" % (k, pid))
    if rc:
        print("VIOLATION property=%s replay=%s" % (pid, os.path.join(VERIF, "evidence", "replays", pid + ".json")))
    else:
        print("OK property=%s tier=%s cases=%d states=%d outcomes=%d wall=%.1fs (build %.1fs)" %
              (pid, tier, agg["evaluations"], len(states), len(outcomes), wall, t_build))
    return rc


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        rc = 3
    except Exception as e:  # an error of the check, never a verdict
        import traceback
        traceback.print_exc()
        print("CHECK-ERROR: %r" % (e,))
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
