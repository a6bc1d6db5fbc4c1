#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough] [--replay FILE]

Builds /repo's current working tree (every src/**/*.c, ASan, environment seams redirected with objcopy) together
with harness/<id>_*.cpp, explores the property's bounded space and writes evidence/<id>.json.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken (replayed before reporting). Exit 2: the
check itself could not run (for example the tree does not compile).
"""
import concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VITA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LIBFLAGS = ["-std=gnu11", "-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address", "-U_FORTIFY_SOURCE",
            "-fno-builtin-malloc", "-fno-builtin-calloc", "-fno-builtin-realloc", "-fno-builtin-free", "-w"]
HARFLAGS = ["-std=gnu++17", "-g1", "-O1", "-U_FORTIFY_SOURCE", "-fsanitize=address", "-w"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def compile_one(job):
    cmd, out, post = job
    if os.path.exists(out):
        return None
    tmp = out + ".tmp%d.o" % os.getpid()
    r = sh(cmd + ["-o", tmp])
    if r.returncode:
        return " ".join(cmd) + "\n" + r.stdout
    if post:
        r = sh(["objcopy", "--redefine-syms=" + post, tmp])
        if r.returncode:
            return "objcopy: " + r.stdout
    os.replace(tmp, out)
    return None


def build(srcs_har, extra_lib=None):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    incs = sorted(glob.glob(REPO + "/inc/**/*.h", recursive=True)) + sorted(glob.glob(REPO + "/src/**/*.h", recursive=True))
    inc_d = digest(*[x for p in incs for x in (p[len(REPO):], read(p))])
    syms = os.path.join(VERIF, "harness", "redirect.syms")
    srcs = sorted(glob.glob(REPO + "/src/**/*.c", recursive=True))
    if not srcs:
        die("no sources under %s/src" % REPO)
    jobs, objs = [], []
    for s in srcs:
        # the path is part of the key: __FILE__ is observable in messages
        d = digest("lib", inc_d, s[len(REPO):], read(s), read(syms), " ".join(LIBFLAGS), " ".join(extra_lib or []), REPO)
        o = os.path.join(BUILD, "obj", "l%s.o" % d)
        objs.append(o)
        jobs.append((["gcc"] + LIBFLAGS + (extra_lib or []) + ["-I" + REPO + "/inc", "-c", s], o, syms))
    hdr = b"".join(read(p) for p in sorted(glob.glob(VERIF + "/harness/*.hpp")))
    for s in srcs_har:
        first = read(s).split(b"\n", 1)[0].decode()
        own = first.split("FLAGS:")[1].split() if "FLAGS:" in first else []  # e.g. -O0 for a file that is slow to compile
        d = digest("har", inc_d, hdr, read(s), " ".join(HARFLAGS), REPO)
        o = os.path.join(BUILD, "obj", "h%s.o" % d)
        objs.append(o)
        jobs.append((["g++"] + HARFLAGS + own + ["-I" + REPO + "/inc", "-I" + VERIF + "/harness", "-c", s], o, None))
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for err in ex.map(compile_one, jobs):
            if err:
                die("build failed:\n" + err[:4000])
    exe = os.path.join(BUILD, "x" + digest(*objs))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = sh(["g++", "-fsanitize=address", "-o", tmp] + objs + ["-lm", "-lpthread"])
        if r.returncode:
            die("link failed:\n" + r.stdout[:4000])
        os.replace(tmp, exe)
    return exe


def main():
    if len(sys.argv) < 2:
        die("usage: check.py ID [quick|thorough]")
    pid = sys.argv[1]
    tier = "quick"
    job = None
    args = sys.argv[2:]
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            job = json.load(open(args.pop(0)))["job"]
        elif a == "--job":
            job = args.pop(0)
    conf = json.load(open(os.path.join(VERIF, "checks.json")))[pid]
    t0 = time.time()
    har = [os.path.join(VERIF, "harness", "rt.cpp")] + [os.path.join(VERIF, "harness", f) for f in conf["sources"]]
    exe = build(har)
    t_build = time.time() - t0
    base = os.environ.get("TMPDIR") or "/tmp"
    try:  # a memory file system, where there is room, makes the file-system properties several times faster to explore
        v = os.statvfs("/dev/shm")
        if "TMPDIR" not in os.environ and os.access("/dev/shm", os.W_OK | os.X_OK) and v.f_bavail * v.f_frsize >= 4 << 30 and not v.f_flag & os.ST_RDONLY:
            base = "/dev/shm"
    except OSError:
        pass
    scratch = tempfile.mkdtemp(prefix="vmc_%s_" % pid, dir=base)
    os.chmod(scratch, 0o755)
    env = dict(os.environ)
    env.update({"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:quarantine_size_mb=8:"
                                "handle_abort=1:detect_stack_use_after_return=0:hard_rss_limit_mb=3500:symbolize=1:"
                                "print_summary=0:check_initialization_order=0:malloc_context_size=6:max_malloc_fill_size=0",
                "TZ": "UTC", "LANG": "C", "LC_ALL": "C"})
    out = os.path.join(scratch, ".result.json")
    cmd = [exe, "--scratch", scratch, "--out", out, "--known", os.path.join(VERIF, "known_findings.txt")]
    if tier == "thorough":
        cmd.append("--deep")
    else:  # where the larger bound is cheap, the quick tier explores it too
        cmd += ["--quick"] + (["--thorough"] if conf.get("quick_large") else [])
    if job:
        cmd += ["--job", job]
    try:
        p = subprocess.Popen(cmd, env=env, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        so, se = p.communicate()
        rc = p.returncode
        if not os.path.exists(out):
            die("harness gave no result (rc=%s)\n%s\n%s" % (rc, so[-2000:], se[-2000:]))
        res = json.load(open(out), strict=False)
    finally:
        subprocess.run(["chmod", "-R", "u+rwx", scratch], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)
    v = res["violation"]
    if os.environ.get("MC_SLOW"):
        print(se)
    if v is None and res["unconfirmed"] > 40:
        die("too many failures that do not repeat; no verdict")
    if conf["level"] == "fault_enumeration":
        cov = {"evaluations": res["evaluations"], "distinct_nontrivial": res["distinct"], "rule": conf["rule"],
               "fault_points_fired": res["faults"]}
    else:
        # states: distinct states of the explored system (BFS nodes; for one-step spaces the distinct observed results)
        cov = {"states": res["states"] or res["distinct"], "transitions": res["transitions"],
               "traces_validated_against_impl": res["traces"], "rule": conf["rule"]}
        if res["states"]:
            cov["distinct_observed_results"] = res["distinct"]
        if res["failstops"]:
            cov["fail_stops_observed"] = res["failstops"]
    cov.update({
        "samples": res["samples"] or ["(no sample recorded)"], "jobs": res["jobs"],
        "bounds": conf["bounds_" + tier], "exhaustive_within_bounds": v is None and not any("STATE CAP HIT" in x for x in res["samples"]),
        "build_s": round(t_build, 2), "unconfirmed_failures": res["unconfirmed"],
        "model_binding": conf.get("binding", "the explored transition system is the compiled code of /repo itself; the "
                         "reference model runs in lock-step and is compared after every transition"),
    })
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": conf["level"],
          "coverage": cov, "assumptions": conf.get("assumptions", []), "wall_s": round(time.time() - t0, 3),
          "violations": 0 if v is None else 1}
    if res["known"]:
        ev["known_findings_reproduced"] = res["known"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if job is None:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    for k in sorted(set(res["known"])):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if v:
        rdir = os.path.join(VERIF, "build", "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s.json" % pid)
        v["property"] = pid
        v["tier"] = tier
        v["how_to_replay"] = "python3 tools/check.py %s %s --replay %s" % (pid, tier, rp)
        with open(rp, "w") as f:
            json.dump(v, f, indent=1)
        print("job: %s" % v["job"])
        print("why: %s" % v["why"])
        print("execution: %s" % v["execution"])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    print("OK property=%s tier=%s states=%d transitions=%d traces=%d evaluations=%d faults=%d stops=%d distinct=%d wall=%.1fs" % (
        pid, tier, res["states"], res["transitions"], res["traces"], res["evaluations"], res["faults"], res["failstops"], res["distinct"], time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    main()
