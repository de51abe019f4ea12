#!/usr/bin/env python3
"""Builds the harness of a property with all the sources of /repo and runs the exploration.

check.py ID [--tier quick|thorough] [--replay FILE] [--only TEXT] [--repo DIR] [--budget S]
"""
import concurrent.futures, hashlib, json, os, subprocess, sys, time, argparse, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
WRAP = """socket bind connect close shutdown send sendto sendmsg recv recvfrom recvmsg read write readv writev
select pselect poll ppoll fcntl fcntl64 ioctl setsockopt getsockopt getsockname getpeername nanosleep usleep sleep
clock_nanosleep clock_gettime gettimeofday time _ZNSt6chrono3_V212steady_clock3nowEv
_ZNSt6chrono3_V212system_clock3nowEv _ZNSt13random_device9_M_getvalEv""".split()
FLAGS = """-std=c++20 -O1 -g1 -fno-omit-frame-pointer -fsanitize=address -ftrivial-auto-var-init=pattern
-D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR -U_FORTIFY_SOURCE -w""".split()
ASAN = ("detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:quarantine_size_mb=16:"
        "hard_rss_limit_mb=3500:max_allocation_size_mb=2000:allocator_may_return_null=0:malloc_fill_byte=190:max_malloc_fill_size=65536:"
        "malloc_context_size=8:handle_abort=0:symbolize=1:detect_odr_violation=0")


def sources(root):
    out = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        out += [os.path.join(d, f) for f in sorted(files)]
    return out


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def build(pid, repo):
    """Returns the path of the executable; raises CalledProcessError-like on errors of the compiler."""
    src = os.path.join(repo, "src")
    everything = sources(src)
    headers = [p for p in everything if p.endswith((".h", ".hpp", ".hh", ".inl", ".ipp", ".tpp"))]
    cpps = [p for p in everything if p.endswith((".cpp", ".cc", ".cxx", ".c"))]
    hh = sha(*(x for p in headers for x in (os.path.relpath(p, src), read(p))))
    incs = [src] + sorted({os.path.dirname(p) for p in headers if "/vendor/" in p})
    inc = [x for d in incs for x in ("-I", d)]
    mcs = [os.path.join(HERE, "mc", f) for f in sorted(os.listdir(os.path.join(HERE, "mc")))]
    mh = sha(*(read(p) for p in mcs if p.endswith(".h")),
             *(read(os.path.join(HERE, "harness", p)) for p in sorted(os.listdir(os.path.join(HERE, "harness"))) if p.endswith(".h")))
    obj = os.path.join(HERE, "build", "obj")
    os.makedirs(obj, exist_ok=True)
    harness = os.path.join(HERE, "harness", pid.lower() + ".cpp")
    gcc = os.environ.get("CXX_VERIF", "g++")
    jobs, objs = [], []

    def job(path, extra, key):
        o = os.path.join(obj, sha(key, " ".join(FLAGS), gcc, path, read(path)) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            lang = ["-x", "c++"] if path.endswith(".c") else []
            jobs.append(([gcc, *FLAGS, *inc, "-I", os.path.join(HERE, "mc"), "-I", HERE, *extra, *lang, "-c", path, "-o", o + ".tmp%d" % os.getpid()], o, path))

    # the slowest first
    job(harness, [], hh + mh)
    job(os.path.join(HERE, "mc", "sim.cpp"), [], mh)
    job(os.path.join(HERE, "mc", "mc.cpp"), [], mh)
    for p in cpps:
        job(p, [], hh)

    def compile_one(j):
        cmd, o, path = j
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode == 0:
            os.replace(o + ".tmp%d" % os.getpid(), o)
        return r, path

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for r, path in ex.map(compile_one, jobs):
            if r.returncode:
                print(f"error: cannot compile {path}:\n{r.stderr[-4000:]}", file=sys.stderr)
                sys.exit(2)
    exe = os.path.join(HERE, "build", pid + "-" + sha(*objs, " ".join(WRAP)))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run([gcc, "-fsanitize=address", *objs, "-o", tmp, "-lpthread", *("-Wl,--wrap=" + w for w in WRAP)],
                           capture_output=True, text=True)
        if r.returncode:
            print(f"error: cannot link:\n{r.stderr[-4000:]}", file=sys.stderr)
            sys.exit(2)
        os.replace(tmp, exe)
    return exe


def prune():
    """The cache must not grow without end."""
    for d in ("build", "build/obj"):
        d = os.path.join(HERE, d)
        files = [os.path.join(d, f) for f in os.listdir(d) if os.path.isfile(os.path.join(d, f))]
        if sum(os.path.getsize(f) for f in files) > 3 << 30:
            now = time.time()
            for f in sorted(files, key=os.path.getmtime)[: len(files) * 2 // 3]:
                if now - os.path.getmtime(f) > 1200:
                    os.unlink(f)


def findings(pid):
    known, path = {}, os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: "):
                words = line.split(None, 3)
                kv = dict(w.split("=", 1) for w in words[1:3])
                if kv["property"] == pid:
                    known[kv["signature"]] = words[3].strip()
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    pid = a.property
    started = time.time()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    exe = build(pid, a.repo)
    built = time.time() - started
    if a.build_only:
        return 0
    env = dict(os.environ, ASAN_OPTIONS=ASAN)
    known = findings(pid)
    if a.replay:
        return subprocess.run([exe, "--property", pid, "--replay", a.replay, "--known", ",".join(known)], env=env).returncode
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    out = os.path.join(HERE, "build", f"{pid}.{tier}.{os.getpid()}.json")
    budget = a.budget or (420 if tier == "quick" else 7200)
    cmd = [exe, "--property", pid, "--tier", tier, "--out", out, "--replays", replays, "--budget", str(budget),
           "--workers", str(a.workers), "--known", ",".join(known)]
    if a.only:
        cmd += ["--only", a.only]
    sys.stdout.flush()
    r = subprocess.run(cmd, env=env)
    try:
        res = json.load(open(out))
        os.unlink(out)
    except (OSError, ValueError) as e:
        print(f"error: no result of the exploration (exit {r.returncode}): {e}", file=sys.stderr)
        return 2
    manifest = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    level = next((c["level"] for c in manifest["checks"] if c["property"] == pid), "model_checking")
    violated = bool(res["violation"])
    cov = {
        "exhaustive": not res["capped"] and not violated and not a.only,
        "executions": res["executions"],
        "choice_points": res["choice_points"],
        "steps": res["steps"],
        "oracle_comparisons": res["checks"],
        "distinct_outcomes": res["outcomes"],
        "executions_with_deviations": res["executions_with_deviations"],
        "reexecuted_for_determinism": res["reexecuted"],
        "reexecutions_that_differ": res["reexecutions_that_differ"],
        "scenarios": res["scenarios"],
        "executions_per_scenario_group": res["per_scenario"],
        "longest_choice_sequence": res["longest_choice_sequence"],
        "bounds": res["bounds"],
        "samples": res["samples"],
    }
    if level == "model_checking":
        cov |= {
            "states": res["states"],
            "transitions": res["transitions"],
            # every explored trace is an execution of the real code, compared with the reference model at each step
            "traces_validated_against_impl": res["executions"],
        }
    else:
        cov |= {
            "evaluations": res["executions"],
            "distinct_nontrivial": res["outcomes"],
            "rule": "every choice sequence within the bounds is executed once on the real code; distinct: different observed "
                    "outcomes (hash of everything observed: bytes sent, results, callbacks, times)",
        }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": [
            "the operating system behaves as the simulated environment (mc/sim.cpp)",
            "nothing is claimed for inputs outside of the stated alphabets and bounds",
        ],
        "violations": 1 if violated else 0,
        "known_findings": res["known"],
        "build_s": round(built, 1),
        "wall_s": round(time.time() - started, 1),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    prune()
    print(f"{pid} {tier}: {res['executions']} executions, {res['steps']} steps, {res['checks']} comparisons, {res['outcomes']} outcomes, "
          f"{res['states']} states, {res['transitions']} transitions, exhaustive={cov['exhaustive']}, "
          f"build {built:.1f} s, total {time.time() - started:.1f} s")
    for k in res["known"]:
        if k["seen"]:
            print(f"KNOWN-FINDING: property={pid} {known[k['signature']]} [{k['signature']}, seen {k['seen']} times]")
    if violated:
        print(f"{res['violation_scenario']}: {res['violation']}")
        print(f"VIOLATION property={pid} replay={res['replay']}")
        return 1
    if res["reexecutions_that_differ"]:
        print(f"warning: {res['reexecutions_that_differ']} re-executions differed", file=sys.stderr)
    return 0


if __name__ == "__main__":
    sys.exit(main())
