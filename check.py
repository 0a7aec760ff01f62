#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] | check.py --replay FILE | check.py --setup

Rebuilds /repo's working tree with the monitors, runs the workload of one property and
judges what the monitors observed.  Exit 0: held on everything explored.  Exit 1: violated
(with a VIOLATION line).  Exit 2: the check itself could not run."""
import sys, os, json, hashlib, subprocess, time, signal, glob, fcntl, mmap, struct

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.environ.get("VT_BUILD", os.path.join(V, "build"))
BUILD_OF = {"asan": "asan", "dbg": "dbg", "fast": "fast", "valgrind": "fast"}
SEED_OF = {"asan": 0, "fast": 1, "valgrind": 2, "dbg": 3}
PROG = struct.Struct("=Q700s300s1000si")
ASAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:abort_on_error=0:max_malloc_fill_size=16777216:malloc_fill_byte=165:allocator_may_return_null=0:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
}
sys.path.insert(0, V)
from plan import PLAN, LEVEL, ASSUME  # noqa: E402


def log(*a):
    print(*a, flush=True)


def infra(msg):
    log("CHECK-ERROR: " + msg)
    sys.exit(2)


def tree_hash(variant):
    h = hashlib.sha256(variant.encode())
    for pat in (REPO + "/src/*", V + "/harness/*", V + "/tools/build.sh"):
        for f in sorted(glob.glob(pat)):
            if os.path.isfile(f):
                h.update(os.path.basename(f).encode() + b"\0")
                with open(f, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def build(variants):
    """build the variants (in parallel), reusing a build of exactly these sources"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        ps = []
        for v in variants:
            out = os.path.join(BUILD, v)
            stamp = os.path.join(out, "stamp")
            h = tree_hash(v)
            if os.path.exists(os.path.join(out, "harness")) and os.path.exists(stamp) and open(stamp).read() == h:
                continue
            if os.path.exists(stamp):
                os.unlink(stamp)
            os.makedirs(out, exist_ok=True)
            lg = open(os.path.join(out, "build.log"), "w")
            ps.append((v, out, stamp, h, subprocess.Popen([os.path.join(V, "tools/build.sh"), v, out], stdout=lg, stderr=lg, stdin=subprocess.DEVNULL)))
        for v, out, stamp, h, p in ps:
            if p.wait() != 0:
                sys.stdout.write(open(os.path.join(out, "build.log")).read()[-4000:])
                infra("building the %s variant of %s failed" % (v, REPO))
            with open(stamp, "w") as f:
                f.write(h)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


def read_prog(path):
    try:
        b = open(path, "rb").read(PROG.size)
        i, d, o, m, s = PROG.unpack(b)
        z = lambda x: x.split(b"\0", 1)[0].decode("utf-8", "replace")
        return {"idx": i, "desc": z(d), "op": z(o), "msg": z(m), "state": s}
    except Exception:
        return None


def command(prop, variant, seed, start, stride, count, deadline, prog, out, extra):
    exe = [os.path.join(BUILD, BUILD_OF[variant], "harness")]
    if variant == "valgrind":
        exe = ["valgrind", "-q", "--error-exitcode=78", "--exit-on-first-error=yes", "--leak-check=no",
               "--max-stackframe=4000000", "--main-stacksize=16000000"] + exe
        extra = ["--valgrind"] + extra
    return exe + ["--prop", prop, "--seed", str(seed), "--start", str(start), "--stride", str(stride),
                  "--count", str(count), "--deadline", str(deadline), "--progress", prog, "--out", out,
                  "--cpu", "600" if variant == "valgrind" else "150"] + extra


def classify(rc, prog, err):
    """-> None (fine), ('viol', text) or ('infra', text)"""
    if rc == 0:
        return None
    p = prog or {}
    if rc == 9:
        return ("infra", "harness error: " + err[-300:])
    if rc == -signal.SIGKILL or rc == -signal.SIGTERM:
        return ("infra", "worker was killed (signal %d)" % -rc)
    if rc == 3:
        return ("viol", p.get("msg", ""))
    if rc == 4:
        return ("viol", p.get("msg", "no result within the CPU budget"))
    if rc == 6:
        return ("viol", p.get("msg", "unexpected fatal error"))
    if rc == 77:
        line = next((l for l in err.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error" in l), "sanitizer report")
        if "out of memory" in line or "allocation-size-too-big" in line and "HARNESS" in err:
            return ("infra", line)
        return ("viol", "sanitizer: " + line.strip())
    if rc == 78:
        line = next((l for l in err.splitlines() if l.startswith("==") and ("uninitialised" in l or "Invalid" in l or "overlap" in l)), "memcheck report")
        return ("viol", "memcheck: " + line.strip())
    if rc < 0:
        return ("viol", "crashed with signal %d (%s)" % (-rc, signal.Signals(-rc).name))
    return ("infra", "worker ended with status %d: %s" % (rc, err[-300:]))


def run(prop, tier, seed):
    t0 = time.time()
    jobs_spec = PLAN[prop][tier]
    build(sorted({BUILD_OF[j["variant"]] for j in jobs_spec}))
    tb = time.time() - t0
    wd = os.path.join(BUILD, "run", prop)
    os.makedirs(wd, exist_ok=True)
    for f in glob.glob(wd + "/*"):
        os.unlink(f)
    jobs = []
    for k, j in enumerate(jobs_spec):
        n = j["workers"]
        for w in range(n):
            base = os.path.join(wd, "%d.%d" % (k, w))
            extra = list(j.get("args", []))
            if tier == "thorough":
                extra.append("--thorough")
            env = dict(os.environ)
            if j["variant"] in ("asan", "dbg"):
                env.update(ASAN_ENV)
            cmd = command(j.get("prop", prop), j["variant"], seed * 4 + SEED_OF[j["variant"]], j.get("start", 0) + w, n, j["count"], j["deadline"], base + ".prog", base + ".json", extra)
            jobs.append({"cmd": cmd, "env": env, "base": base, "spec": j, "w": w})
    # at most 8 workers at a time
    pend, act, viol, infra_msg = list(jobs), [], None, None
    ntimeouts = 0
    while (pend or act) and not viol:
        while pend and len(act) < 8:
            j = pend.pop(0)
            j["err"] = open(j["base"] + ".err", "wb")
            j["p"] = subprocess.Popen(j["cmd"], env=j["env"], stdout=j["err"], stderr=j["err"], stdin=subprocess.DEVNULL)
            j["t"] = time.time()
            act.append(j)
        time.sleep(0.05)
        for j in list(act):
            rc = j["p"].poll()
            if rc is None:
                if time.time() - j["t"] > j["spec"]["deadline"] + 300:
                    j["p"].kill()
                    j["p"].wait()
                    act.remove(j)
                    ntimeouts += 1
                    infra_msg = "worker exceeded its wall clock limit"
                continue
            act.remove(j)
            j["err"].close()
            err = open(j["base"] + ".err", "rb").read()[-200000:].decode("utf-8", "replace")
            pr = read_prog(j["base"] + ".prog")
            c = classify(rc, pr, err)
            if c and c[0] == "viol":
                viol = (j, pr, c[1], err)
                break
            if c:
                infra_msg = c[1]
    for j in act:
        j["p"].kill()
        j["p"].wait()
    # merge what the monitors saw
    events, sigs, done, nt, samples = {}, set(), 0, 0, []
    per = {}
    for j in jobs:
        try:
            r = json.load(open(j["base"] + ".json"))
            b = open(j["base"] + ".json.sig", "rb").read()
        except Exception:
            continue
        done += r["done"]
        nt += r["nontrivial"]
        for k, n in r["events"].items():
            events[k] = events.get(k, 0) + n
        sigs.update(struct.unpack("=%dQ" % (len(b) // 8), b))
        v = j["spec"]["variant"] + ("+" + j["spec"]["label"] if j["spec"].get("label") else "+" + "+".join(a.strip("-") for a in j["spec"].get("args", [])) if j["spec"].get("args") else "")
        per[v] = per.get(v, 0) + r["done"]
        if r.get("last") and len(samples) < 8:
            samples.append(r["last"])
    ndist = len(sigs)
    evid = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "evaluations": done, "distinct_nontrivial": ndist,
            "rule": PLAN[prop]["rule"], "samples": samples,
            "cases_per_build": per, "monitor_events": events,
        },
        "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0,
        "build_s": round(tb, 2),
    }
    known = [l for l in open(os.path.join(V, "known_findings.txt")) if l.startswith("finding: property=%s " % prop)] if os.path.exists(os.path.join(V, "known_findings.txt")) else []
    for l in known:
        log("KNOWN-FINDING: " + l.split(" ", 1)[1].strip())
    if viol:
        j, pr, msg, err = viol
        pr = pr or {"idx": -1, "desc": "", "op": ""}
        rep = {"property": prop, "harness_prop": j["spec"].get("prop", prop), "variant": j["spec"]["variant"], "args": j["spec"].get("args", []),
               "tier": tier, "seed": seed * 4 + SEED_OF[j["spec"]["variant"]], "case": pr["idx"], "description": pr["desc"], "operation": pr["op"], "what": msg, "stderr": err[-6000:]}
        os.makedirs(os.path.join(V, "evidence", "replay"), exist_ok=True)
        path = os.path.join(V, "evidence", "replay", "%s-%s-%s.json" % (prop, j["spec"]["variant"], pr["idx"]))
        json.dump(rep, open(path, "w"), indent=1)
        evid["coverage"]["samples"] = samples + ["VIOLATING: case %s: %s / %s: %s" % (pr["idx"], pr["desc"], pr["op"], msg)]
        write_evidence(prop, evid)
        log("case %s [%s] %s" % (pr["idx"], j["spec"]["variant"], pr["desc"]))
        log("while: %s" % pr["op"])
        log("observed: %s" % msg)
        log("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if infra_msg:
        infra(infra_msg)
    if done == 0 or ndist == 0:
        infra("nothing was observed")
    for need in PLAN[prop].get("must_see", []):
        if not events.get(need):
            infra("the monitors never saw: " + need)
    write_evidence(prop, evid)
    log("%s %s: held on %d cases (%d distinct non-trivial), %.1f s (build %.1f s)" % (prop, tier, done, ndist, time.time() - t0, tb))
    log("  observed: " + ", ".join("%s=%d" % kv for kv in sorted(events.items())))
    sys.exit(0)


def write_evidence(prop, evid):
    d = os.path.join(V, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % prop)
    json.dump(evid, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))


def replay(path):
    r = json.load(open(path))
    build([BUILD_OF[r["variant"]]])
    wd = os.path.join(BUILD, "run")
    os.makedirs(wd, exist_ok=True)
    prog, out = wd + "/replay.prog", wd + "/replay.json"
    extra = list(r["args"]) + (["--thorough"] if r["tier"] == "thorough" else [])
    cmd = command(r["harness_prop"], r["variant"], r["seed"], r["case"], 1, r["case"] + 1, 1e9, prog, out, extra)
    log(" ".join(cmd))
    env = dict(os.environ)
    if r["variant"] in ("asan", "dbg"):
        env.update(ASAN_ENV)
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    err = p.stdout[-200000:].decode("utf-8", "replace")
    c = classify(p.returncode, read_prog(prog), err)
    if c is None:
        log("replay: the property held on this case")
        sys.exit(0)
    log(err[-4000:])
    log(c[1])
    if c[0] == "viol":
        log("VIOLATION property=%s replay=%s" % (r["property"], path))
        sys.exit(1)
    infra(c[1])


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build(["asan", "dbg", "fast"])
        log("setup: harness built")
        return
    if len(a) == 2 and a[0] == "--replay":
        replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if not a or a[0] not in PLAN or tier not in ("quick", "thorough"):
        infra("usage: check.py ID [--tier quick|thorough]")
    run(a[0], tier, int(os.environ.get("VERIF_SEED", "1") or 1))


main()
