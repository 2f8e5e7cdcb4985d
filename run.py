#!/usr/bin/env python3
"""Builds and runs one property check.

  run.py P01                 run it (VERIF_SEED, VERIF_TIER from the environment)
  run.py P01 --replay FILE   re-run one saved case against the current /repo
  run.py --setup             check that the toolchain the checks need is present
  run.py --all [--tier T]    run every check, one after another (for development)

Everything is compiled from /repo's current working tree into /verif/build/<id>.
Exit status: 0 held, 1 violation (with a VIOLATION line), 2 error of the check.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NUSQUIDS_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS

HDF5 = "/usr/lib/x86_64-linux-gnu/hdf5/serial"
LIBS = ["-L" + HDF5, "-lhdf5_hl", "-lhdf5", "-lgsl", "-lgslcblas", "-lm", "-lpthread"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
TSAN = ["-fsanitize=thread"]
WARN = ["-w"]
ENV = dict(os.environ,
           ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=3000:hard_rss_limit_mb=5000:detect_stack_use_after_return=0:quarantine_size_mb=32:symbolize=1",
           UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=1",
           TSAN_OPTIONS="halt_on_error=1:exitcode=66:abort_on_error=0",
           LC_ALL="C", OMP_NUM_THREADS="1", HDF5_USE_FILE_LOCKING="FALSE")


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def generated(d):
    """The headers configure would write."""
    os.makedirs(d + "/nuSQuIDS", exist_ok=True)
    with open(d + "/resource_paths.h", "w") as f:
        f.write('#include <cstring>\n#define SOURCE_DATA_PATH "%s/data/"\n'
                '#define INSTALL_DATA_PATH "/usr/local/share/nuSQuIDS/"\n'
                '#ifndef PBT_INSTALL_BIT\n#define PBT_INSTALL_BIT false\n#endif\n'
                'namespace{ inline bool getInstallBit(){ return PBT_INSTALL_BIT; } }\n' % REPO)
    with open(d + "/nuSQuIDS/version.h", "w") as f:
        f.write('#ifndef NUSQUIDS_VERSION_H\n#define NUSQUIDS_VERSION_H\n#define NUSQUIDS_VERSION 101100\n'
                '#define NUSQUIDS_VERSION_STR "1.11.0"\n#endif\n')


def sh(cmd, log):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        with open(log, "w") as f:
            f.write(" ".join(cmd) + "\n" + r.stdout)
    return r.returncode, r.stdout


def build(pid, chk, var, bdir):
    """Compile one variant; returns the binary."""
    name = var.get("name", "asan")
    out = os.path.join(bdir, name)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    generated(out + "/gen")
    cxx = var.get("cxx", "g++")
    san = {"asan": ASAN, "tsan": TSAN, "none": [], "fuzz": ["-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all", "-DPBT_LIBFUZZER"]}[var.get("san", "asan")]
    inc = ["-I" + HERE + "/harness", "-I" + out + "/gen"]
    if chk.get("shim"):
        inc += ["-I" + HERE + "/shim"]
    inc += ["-I" + REPO + "/include", "-I/usr/include/hdf5/serial"]
    inc += ["-I" + os.path.join(REPO, d) for d in chk.get("repo_inc", [])] + ["-I" + d for d in chk.get("sys_inc", [])]
    opt = [var.get("opt", chk.get("opt", "-O1")), "-g1", "-fno-omit-frame-pointer"]
    jobs = []
    for s in chk["harness"]:
        jobs.append((os.path.join(HERE, "harness", s), "-std=c++14", chk.get("defs", [])))
    for s in chk.get("shim_src", []):
        jobs.append((os.path.join(HERE, "shim", s), "-std=c++14", []))
    for s in chk.get("repo_src", []):
        jobs.append((os.path.join(REPO, "src", s), "-std=c++11", chk.get("defs", [])))

    def one(j):
        src, std, defs = j
        obj = os.path.join(out, os.path.basename(src) + ".o")
        rc, text = sh([cxx, std] + opt + WARN + san + defs + var.get("defs", []) + inc + ["-c", src, "-o", obj], obj + ".log")
        return rc, text, obj
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    for rc, text, obj in res:
        if rc:
            print(text[:4000])
            die("%s: %s does not compile" % (pid, obj))
    exe = os.path.join(out, "check")
    rc, text = sh([cxx] + san + [r[2] for r in res] + chk.get("libs", []) + LIBS + ["-o", exe], exe + ".log")
    if rc:
        print(text[:4000])
        die("%s: does not link" % pid)
    return exe


def findings(pid):
    known, text = [], {}
    path = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                known.append(m.group(2))
                text[m.group(2)] = m.group(3)
    return known, text


def run_variant(pid, chk, var, exe, bdir, tier, seed, known, replay=None):
    name = var.get("name", "asan")
    work = os.path.join(bdir, name, "work")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    out = os.path.join(work, "out.json")
    cases = int(chk["cases"][0 if tier == "quick" else 1] * var.get("share", 1.0))
    cmd = [exe, "--property", pid, "--seed", str(seed), "--tier", tier, "--out", out, "--replay-dir", os.path.join(HERE, "replays"),
           "--cases", str(cases), "--workers", str(chk.get("workers", 8)), "--workdir", work,
           "--time-cap", str(chk.get("cap", (300, 2400))[0 if tier == "quick" else 1]), "--hang", str(chk.get("hang", 40)), "--known", ",".join(known)]
    if replay:
        cmd += ["--replay", replay]
    env = dict(ENV, PBT_WORKDIR=work, PBT_REPO=REPO, PBT_TIER=tier, **chk.get("env", {}))
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=work)
    sys.stdout.write(r.stdout)
    sys.stdout.flush()
    res = None
    if os.path.exists(out):
        res = json.load(open(out))
    return r.returncode, res, r.stdout


def fuzz(pid, chk, bdir, seed, known, seconds):
    """Coverage-guided campaign over the same checks (thorough tier only)."""
    var = {"name": "fuzz", "san": "fuzz", "cxx": "clang++"}
    exe = build(pid, chk, var, bdir)
    work = os.path.join(bdir, "fuzz", "work")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work + "/corpus")
    procs, stats = [], {"executions": 0, "edges": 0}
    for i in range(8):
        d = work + "/w%d" % i
        os.makedirs(d)
        env = dict(ENV, PBT_WORKDIR=d, PBT_REPO=REPO, PBT_TIER="thorough", PBT_KNOWN=",".join(known), PBT_FUZZ_OUT=d + "/fail.txt", **chk.get("env", {}))
        env["ASAN_OPTIONS"] += ":handle_abort=1"
        log = open(d + "/log", "w")
        procs.append((d, subprocess.Popen([exe, work + "/corpus", "-seed=%d" % (seed * 8 + i + 1), "-max_total_time=%d" % seconds, "-max_len=2000", "-timeout=60",
                                           "-rss_limit_mb=3000", "-reload=1", "-print_final_stats=1", "-artifact_prefix=" + d + "/", "-close_fd_mask=1"],
                                          stdout=log, stderr=subprocess.STDOUT, env=env, cwd=d)))
    bad = []
    for d, p in procs:
        p.wait()
        t = open(d + "/log", errors="replace").read()
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", t)
        stats["executions"] += int(m.group(1)) if m else 0
        for m in re.finditer(r"cov: (\d+)", t):
            stats["edges"] = max(stats["edges"], int(m.group(1)))
        if p.returncode:
            bad.append((d, t))
    return stats, bad


def main():
    a = sys.argv[1:]
    if not a or a[0] == "--setup":
        for t in ("g++", "clang++"):
            if not shutil.which(t):
                die("no " + t)
        os.makedirs(HERE + "/evidence", exist_ok=True)
        print("setup: ok; every check compiles what it needs from %s by itself" % REPO)
        return 0
    if a[0] == "--all":
        bad = 0
        for pid in CHECKS:
            r = subprocess.run([sys.executable, os.path.abspath(__file__), pid])
            print("%s exit %d" % (pid, r.returncode), flush=True)
            bad |= r.returncode != 0
        return bad
    pid = a[0]
    if pid not in CHECKS:
        die("unknown property " + pid)
    chk = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    bdir = os.path.join(os.environ.get("VERIF_BUILD", HERE + "/build"), pid)
    os.makedirs(bdir, exist_ok=True)
    known, ktext = findings(pid)
    variants = chk.get("variants", [{"name": "asan"}])
    if "--replay" in a:
        f = os.path.abspath(a[a.index("--replay") + 1])
        exe = build(pid, chk, variants[0], bdir)
        rc, _, _ = run_variant(pid, chk, variants[0], exe, bdir, tier, seed, known, replay=f)
        return rc if rc in (0, 1) else 2
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": chk["rule"], "samples": [], "classes": {}, "per_check": {}, "notes": []}
    violations, seen = 0, set()
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        exes = list(ex.map(lambda v: build(pid, chk, v, bdir), variants))
    for var, exe in zip(variants, exes):
        rc, res, text = run_variant(pid, chk, var, exe, bdir, tier, seed, known)
        if res is None or rc not in (0, 1):
            die("%s: the harness ended with %d" % (pid, rc))
        tag = "" if len(variants) == 1 else var["name"] + "/"
        cov["evaluations"] += res["evaluations"]
        cov["distinct_nontrivial"] += res["distinct_nontrivial"]
        cov["samples"] += res["samples"][:12]
        cov["notes"] += res["notes"]
        for k, v in res["classes"].items():
            cov["classes"][tag + k] = v
        for k, v in res["per_check"].items():
            cov["per_check"][tag + k] = v
        seen |= set(res["known"])
        violations += res["violations"]
        if violations:
            break
    if tier == "thorough" and not violations and chk.get("fuzz_s", 120):
        stats, bad = fuzz(pid, chk, bdir, seed, known, int(os.environ.get("VERIF_FUZZ_S", chk.get("fuzz_s", 120))))
        cov["fuzzing"] = dict(stats, engine="libFuzzer, address+undefined sanitizers", failing_workers=len(bad))
        cov["evaluations"] += stats["executions"]
        for d, t in bad:
            f = d + "/fail.txt"
            rep = None
            if os.path.exists(f):
                L = open(f).read().splitlines()
                rep = os.path.join(HERE, "replays", "%s-fuzz-%s.replay" % (pid, os.path.basename(d)))
                os.makedirs(os.path.dirname(rep), exist_ok=True)
                open(rep, "w").write("property %s\n" % pid + "\n".join(L) + "\n")
                rc = run_variant(pid, chk, variants[0], exes[0], bdir, tier, seed, known, replay=rep)[0]
                if rc != 1:
                    cov["notes"].append("fuzzer failure not reproduced: " + " ".join(L[2:])[:300])
                    continue
            else:
                arts = [x for x in os.listdir(d) if x.startswith(("crash-", "oom-", "leak-"))]
                if not arts:
                    cov["notes"].append("a fuzzing worker ended without a failing input: " + t[-300:])
                    continue
                rep = os.path.join(HERE, "replays", "%s-fuzz-%s.bytes" % (pid, arts[0]))
                os.makedirs(os.path.dirname(rep), exist_ok=True)
                shutil.copy(os.path.join(d, arts[0]), rep)
                r = [subprocess.run([os.path.join(bdir, "fuzz", "check"), rep], env=dict(ENV, PBT_WORKDIR=d, PBT_REPO=REPO, PBT_KNOWN=",".join(known)), cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode for _ in range(3)]
                if not all(r):
                    cov["notes"].append("a fuzzer crash did not reproduce")
                    continue
            print(t[-1500:])
            print("VIOLATION property=%s replay=%s" % (pid, rep))
            violations += 1
            break
    for k in known:
        if k in seen:
            print("KNOWN-FINDING: property=%s %s" % (pid, ktext[k]))
    if not cov["samples"]:
        cov["samples"] = ["(no non-trivial case was logged)"]
    cov["known_findings_observed"] = sorted(seen)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
