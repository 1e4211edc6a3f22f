#!/usr/bin/env python3
"""check.py <property> : builds the property's simulation harnesses from /repo's current
working tree, runs the seeded search, writes evidence/<property>.json.

exit 0: held on everything explored (KNOWN-FINDING lines may be printed)
exit 1: VIOLATION property=<id> replay=<path>
exit 2: the check itself failed (build error, irreproducible run, ...)

check.py replay FILE : rebuilds the harness named in FILE and replays it.
check.py --list      : properties and their parts.
"""
import json, os, subprocess, sys, time, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from parts import PARTS, HARNESS  # noqa: E402

CXX = os.environ.get("VERIF_CXX", "g++-14")
COMMON = ["-std=c++23", "-I" + REPO + "/include", "-w"]
FLAVOUR = {
    # simulated threads: tsan instrumentation, our own runtime
    "S": dict(cflags=["-O1", "-fsanitize=thread"], extra=["sched.cpp"], ldflags=["-rdynamic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"]),
    # fault injection in one thread: real asan+ubsan
    "A": dict(cflags=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"], extra=["seq.cpp"],
              ldflags=["-fsanitize=address,undefined"]),
    # system call stand-ins, no sanitizer runtime (its own calls would pass through the stand-ins)
    "P": dict(cflags=["-O1", "-g1"], extra=["seq.cpp"], ldflags=[]),
}
RTFLAGS = {"core.cpp": ["-O1"], "sched.cpp": ["-O2", "-fno-threadsafe-statics"], "seq.cpp": ["-O1"]}


class NoCompile(Exception):
    """a harness, which uses only the documented interface, does not compile, but the headers alone do"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def headers_compile(cmd, src, bdir, harness):
    """do the headers the harness includes compile by themselves?"""
    tu = os.path.join(bdir, harness + ".headers.cpp")
    with open(tu, "w") as f:
        f.writelines(l for l in open(src) if l.lstrip().startswith("#include <dice/"))
        f.write("int main() {}\n")
    return sh([tu if a == src else a for a in cmd[:-1]] + ["/dev/null"]).returncode == 0


def no_compile(prop, tier, seed, rdir, e, wall):
    rp = os.path.join(rdir, "%s-%s-compile.replay" % (prop, e.args[0]))
    with open(rp, "w") as f:
        f.write("harness %s\nproperty %s\nclass does-not-compile\n%s\n" % (e.args[0], prop, e.args[1]))
    print("the headers compile, but a program that uses their documented interface does not:\n" + e.args[1])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the simulated program could not be built, nothing was run", "samples": [e.args[1][:500]], "exhaustive": False},
          "assumptions": [], "wall_s": round(wall, 3), "violations": 1}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1


def build(harness, bdir):
    """compile one harness; returns path of the binary or raises"""
    info = HARNESS[harness]
    fl = FLAVOUR[info["flavour"]]
    os.makedirs(bdir, exist_ok=True)
    jobs = []
    objs = []
    src = os.path.join(VERIF, "harness", info.get("src", harness) + ".cpp")
    o = os.path.join(bdir, harness + ".o")
    objs.append(o)
    main = [CXX, *COMMON, *fl["cflags"], *info.get("cflags", []), "-c", src, "-o", o]
    jobs.append(main)
    for rt in ["core.cpp", *fl["extra"]]:
        o = os.path.join(bdir, harness + "." + rt + ".o")
        objs.append(o)
        san = [f for f in fl["cflags"] if f.startswith("-fsanitize=address")]
        jobs.append([CXX, "-std=c++23", *RTFLAGS[rt], *san, "-c", os.path.join(VERIF, "sim", rt), "-o", o])
    with ThreadPoolExecutor(4) as ex:
        for cmd, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode and cmd is main and info.get("fallback"):
                # something documented does not compile: the harness is built without it and reports it as a violation
                first = r.stdout
                r = sh(main + ["-DFALLBACK"])
                if not r.returncode:
                    print("the harness does not compile with everything it should be able to use:\n" + "\n".join(l[:300] for l in first.splitlines() if "error:" in l)[:1500])
            if r.returncode == 1 and cmd is main and " error: " in r.stdout and headers_compile(cmd, src, bdir, harness):
                raise NoCompile(harness, "\n".join(l[:300] for l in r.stdout.splitlines() if " error: " in l or "required from here" in l)[:3000])
            if r.returncode:
                raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    out = os.path.join(bdir, harness)
    r = sh([CXX, *objs, *fl["ldflags"], *info.get("ldflags", []), "-ldl", "-o", out])
    if r.returncode:
        raise RuntimeError("link failed:\n" + r.stdout[-6000:])
    return out


def env_for_child():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:allocator_may_return_null=1:handle_abort=0:abort_on_error=0:detect_odr_violation=0:symbolize=0:color=never"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:color=never:exitcode=78"
    return e


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--list":
        for p, ps in PARTS.items():
            print(p, [x["harness"] for x in ps])
        return 0
    if sys.argv[1] == "--build-all":
        hs = sorted({x["harness"] for ps in PARTS.values() for x in ps})
        with ThreadPoolExecutor(4) as ex:
            for h, r in zip(hs, ex.map(lambda h: build(h, os.path.join(VERIF, "build", "all")), hs)):
                print("built", h)
        return 0
    if sys.argv[1] == "replay":
        path = sys.argv[2]
        h = [l.split()[1] for l in open(path) if l.startswith("harness ")][0]
        try:
            b = build(h, os.path.join(VERIF, "build", "replay"))
        except NoCompile as e:
            print("REPRODUCED class=does-not-compile\n" + e.args[1])
            return 1
        if any(l.startswith("class does-not-compile") for l in open(path)):
            print("NOT REPRODUCED: it compiles")
            return 0
        return subprocess.run([b, "replay", path], env=env_for_child()).returncode
    prop = sys.argv[1]
    if prop not in PARTS:
        print("unknown property", prop)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    bdir = os.path.join(VERIF, "build", prop)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    shutil.rmtree(bdir, ignore_errors=True)
    parts = PARTS[prop]
    try:
        with ThreadPoolExecutor(4) as ex:
            bins = list(ex.map(lambda x: build(x["harness"], bdir), parts))
    except NoCompile as e:
        return no_compile(prop, tier, seed, rdir, e, time.time() - t0)
    tb = time.time() - t0
    results = []
    viol = None
    rc = 0
    workers = int(os.environ.get("VERIF_WORKERS", "0") or 0) or min(8, os.cpu_count() or 4)
    for part, b in zip(parts, bins):
        runs = part["quick"] if tier == "quick" else part["thorough"]
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        runs = max(64, int(runs * scale))
        out = os.path.join(bdir, part["harness"] + ".json")
        cmd = [b, "run", "--prop", prop, "--seed", str(seed), "--runs", str(runs), "--tier", tier, "--out", out, "--replaydir", rdir,
               "--known", os.path.join(VERIF, "known_findings.txt"), "--workers", str(workers), "--det", "400" if tier == "quick" else "4000"]
        r = subprocess.run(cmd, env=env_for_child(), stdout=subprocess.PIPE, text=True)
        sys.stdout.write(r.stdout)
        if r.returncode not in (0, 1):
            print("ERROR: harness %s exited with %d" % (part["harness"], r.returncode))
            return 2
        d = json.load(open(out))
        d["target_runs"] = runs
        results.append((part, d))
        if r.returncode == 1:
            rp = d["violation"]["replay"]
            # the replay file must reproduce in a fresh process
            rr = subprocess.run([b, "replay", rp], env=env_for_child(), stdout=subprocess.PIPE, text=True)
            last = rr.stdout.strip().splitlines()[-1] if rr.stdout.strip() else ""
            print(last)
            if rr.returncode not in (1,) and not (rr.returncode == 4 and "SAME-CLASS" in last):
                print("ERROR: the replay file does not reproduce the violation")
                return 2
            viol = (rp, d["violation"])
            rc = 1
            break
    faults, probes = {}, {}
    for _, d in results:
        for k, v in d["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in d["probes"].items():
            probes[k] = probes.get(k, 0) + v
    tot = sum(d["runs"] for _, d in results)
    search = sum(d["search_s"] for _, d in results)
    cov = {
        "evaluations": tot,
        "distinct_nontrivial": sum(d["distinct_nontrivial"] for _, d in results),
        "rule": "each case is one simulated execution drawn from (VERIF_SEED, run index); it is non-trivial if at least one fault fired or one operation was preempted in flight; "
                "distinct = different hash of the complete event log (every scheduling event, synchronisation event, fault, operation and result)",
        "samples": [s for _, d in results for s in d["samples"]][:4],
        "simulated_runs": tot,
        "seeds": tot,
        "runs_per_hour": int(tot / search * 3600) if search > 0 else 0,
        "scheduler_steps": sum(d["steps"] for _, d in results),
        "simulated_time_s": sum(d["simtime_ns"] for _, d in results) / 1e9,
        "oracle_evaluations": sum(d["oracle_evals"] for _, d in results),
        "faults_fired": faults,
        "probes": probes,
        "determinism_selftest": {"runs_compared": sum(d["det_checked"] for _, d in results), "mismatches": sum(d["det_mismatch"] for _, d in results),
                                 "how": "event-log hashes of sampled runs, re-executed in fresh processes at another batch position and worker count"},
        "components_real": sorted({c for p, _ in results for c in p["real"]}),
        "components_stubbed": sorted({c for p, _ in results for c in p["stub"]}),
        "parts": [{"harness": p["harness"], "runs": d["runs"], "target_runs": d["target_runs"], "search_s": d["search_s"], "distinct_nontrivial": d["distinct_nontrivial"]} for p, d in results],
        "build_s": round(tb, 2),
        "known_findings_hit": [k for _, d in results for k in d["known"]],
        "exhaustive": False,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": sorted({a for p, _ in results for a in p.get("assume", [])}),
          "wall_s": round(time.time() - t0, 3), "violations": 1 if viol else 0}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, viol[0]))
    else:
        print("OK property=%s runs=%d distinct_nontrivial=%d wall=%.1fs" % (prop, tot, cov["distinct_nontrivial"], time.time() - t0))
    shutil.rmtree(bdir, ignore_errors=True)
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:  # noqa: BLE001
        print("ERROR:", e)
        sys.exit(2)
