#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's current tree.

usage: run.py PROPERTY [--tier quick|thorough] [--seed N]
       run.py --replay REPLAY.json          re-run one recorded case verbosely

exit 0: the property held on everything that was observed
exit 1: violated, with a line "VIOLATION property=<id> replay=<path>"
exit 2: no verdict (the harness does not build, nothing was observed, a watchdog fired ...)
"""
import array
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS, PARTS, RULES  # noqa: E402

JOBS = 8
# some mappings are beyond what ThreadSanitizer can shadow
NO_ASLR = shutil.which("setarch") and subprocess.run(["setarch", "-R", "true"], stderr=subprocess.DEVNULL).returncode == 0
COMMON = ["-std=c++20", "-g1", "-fno-omit-frame-pointer", "-I" + os.path.join(REPO, "include"),
          "-I" + os.path.join(HERE, "harness")]
FLAVOURS = {
    "asan": ["g++", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    # libstdc++ 13 does not accept the execution policies as mdds passes them; the repository itself is built with g++ 14
    "asan14": ["g++-14", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "asan-ndebug": ["g++", "-O2", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "asan-clang": ["clang++", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["g++", "-O1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"],
    "tsan-clang": ["clang++", "-O1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"],
    "valgrind": ["g++", "-O1", "-D_GLIBCXX_ASSERTIONS"],
    "plain": ["g++", "-O2", "-D_GLIBCXX_ASSERTIONS"],
    # counts the basic blocks executed: a measure of cost that does not depend on the machine or its load
    "cost": ["g++", "-O1", "-fsanitize-coverage=trace-pc", "-D_GLIBCXX_ASSERTIONS"],
}
ENV = {
    "ASAN_OPTIONS": "exitcode=77:detect_leaks=1:allocator_may_return_null=0:hard_rss_limit_mb=2500:"
                    "max_malloc_fill_size=4096:malloc_fill_byte=190:detect_stack_use_after_return=1:"
                    "check_initialization_order=1:handle_abort=0:detect_invalid_pointer_pairs=0:print_summary=1",
    "UBSAN_OPTIONS": "exitcode=77:halt_on_error=1:print_stacktrace=1",
    "TSAN_OPTIONS": "exitcode=78:halt_on_error=1:second_deadlock_stack=1:history_size=4",
    "LSAN_OPTIONS": "exitcode=77",
    "LC_ALL": "C",
    "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
    "HOME": os.environ.get("HOME", "/root"),
    "MALLOC_ARENA_MAX": "2",
}
# exit status of a harness -> what the monitor saw
VIOL = {3: "oracle", 4: "hang", 5: "abort", 77: "sanitizer", 78: "race", 79: "memcheck"}


class NoVerdict(Exception):
    pass


def build(flavour, src, outdir, defines=()):
    out = os.path.join(outdir, f"{src}.{flavour}." + re.sub(r"[^0-9A-Za-z]+", "_", "".join(defines)))
    cmd = FLAVOURS[flavour] + COMMON + list(defines) + [os.path.join(HERE, "harness", src + ".cpp"), "-o", out, "-lpthread"]
    if flavour.endswith("14"):
        cmd.append("-ltbb")
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600, text=True)
    except subprocess.TimeoutExpired:
        raise NoVerdict(f"building {src} ({flavour}) took too long")
    if p.returncode != 0:
        raise NoVerdict(f"building {src} ({flavour}) failed:\n" + "\n".join(p.stdout.splitlines()[:40]))
    return out


def shard_cmd(stage, binary, seed, first, stride, cases, out):
    cmd = [binary, "--seed", str(seed), "--first", str(first), "--stride", str(stride), "--cases", str(cases),
           "--out", out, "--only", stage["only"], "--cpu", str(stage.get("cpu", 60))]
    if stage["flavour"].startswith("tsan") and NO_ASLR:
        cmd = ["setarch", "-R"] + cmd
    if stage["flavour"] == "valgrind":
        cmd = ["valgrind", "-q", "--error-exitcode=79", "--exit-on-first-error=yes", "--leak-check=no",
               "--track-origins=no", "--trace-children=no"] + cmd
    return cmd


def run_shard(stage, binary, seed, first, stride, cases, out, wall):
    os.makedirs(out, exist_ok=True)
    cmd = shard_cmd(stage, binary, seed, first, stride, cases, out)
    t0 = time.time()
    with open(os.path.join(out, "stderr.txt"), "wb") as err, open(os.path.join(out, "stdout.txt"), "wb") as std:
        p = subprocess.Popen(cmd, stdout=std, stderr=err, env=ENV, cwd=out, start_new_session=True)
        try:
            rc = p.wait(timeout=wall)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "wall-timeout"
    status = read(os.path.join(out, "status.txt")).split()
    res = {"rc": rc, "out": out, "wall": time.time() - t0, "status": status[0] if status else "",
           "workload": status[1] if len(status) > 1 else "", "case": int(status[2]) if len(status) > 2 else None}
    return res


def read(path, limit=None):
    try:
        with open(path, "r", errors="replace") as f:
            return f.read(limit) if limit else f.read()
    except OSError:
        return ""


def describe(res):
    v = read(os.path.join(res["out"], "violation.txt"), 200000)
    e = read(os.path.join(res["out"], "stderr.txt"), 60000)
    kind = VIOL.get(res["rc"], str(res["rc"]))
    summary = ""
    if res["rc"] == 3:
        m = re.search(r"^violation: (.*)$", v, re.M)
        summary = m.group(1) if m else "?"
    else:
        for pat in (r"SUMMARY: .*", r"runtime error: .*", r"ERROR: .*", r"WARNING: ThreadSanitizer.*", r".*[Aa]ssert.*failed.*",
                    r"vh: .*", r"==\d+== .*", r"terminate called.*"):
            m = re.search(pat, e)
            if m:
                summary = m.group(0)
                break
    return kind, summary, v, e


def known_findings():
    out = []
    for line in read(os.path.join(HERE, "known_findings.jsonl")).splitlines():
        line = line.strip()
        if line:
            out.append(json.loads(line))
    return [k for k in out if k.get("status") == "known"]


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return replay(args[1])
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--seed" in args:
        seed = int(args[args.index("--seed") + 1])
    check = CHECKS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        return run_check(prop, check, tier, seed, t0, work)
    except NoVerdict as e:
        print(f"NO-VERDICT property={prop}: {e}")
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_check(prop, check, tier, seed, t0, work):
    ti = 0 if tier == "quick" else 1
    stages = []
    for s in check["stages"]:
        s = dict(s)
        s.setdefault("flavour", "asan")
        s["n"] = s["cases"][ti]
        s.setdefault("defines", ())
        # the harness is compiled in parts, each with a share of the element types; shard k runs part k mod n
        n = s.get("parts", PARTS.get(s["src"], 1))
        s["part_defines"] = [tuple(s["defines"]) + ((f"-DVH_PARTS={n}", f"-DVH_PART={i}") if n > 1 else ()) for i in s.get("part_list", range(n))]
        if s.get("cpu_flag", "") not in read("/proc/cpuinfo"):
            continue  # this machine cannot run the binary
        if s["n"]:
            stages.append(s)
    bins = {}
    keys = sorted({(s["flavour"], s["src"], d) for s in stages for d in s["part_defines"]})
    with ThreadPoolExecutor(JOBS) as ex:
        futs = {}
        for i, k in enumerate(keys):
            d = os.path.join(work, f"bin{i}")
            os.makedirs(d)
            futs[k] = ex.submit(build, k[0], k[1], d, k[2])
        for k, f in futs.items():
            bins[k] = f.result()
    tb = time.time() - t0

    total = {"cases": 0, "evals": 0, "ops": 0}
    counters, samples, states, per_stage = {}, [], set(), []
    known, violations = {}, []
    kf = [k for k in known_findings() if k["property"] == prop]
    wall_budget = 840 if tier == "quick" else 3.0 * 3600
    for si, s in enumerate(stages):
        nparts = len(s["part_defines"])
        part_bins = [bins[(s["flavour"], s["src"], d)] for d in s["part_defines"]]
        jobs = min(max(JOBS, nparts), s.get("jobs", 99), max(1, s["n"]))
        per = (s["n"] + jobs - 1) // jobs
        left = wall_budget - (time.time() - t0)
        if left < 30:
            raise NoVerdict("out of time before every stage had run")
        with ThreadPoolExecutor(min(jobs, s.get("parallel", JOBS))) as ex:
            res = list(ex.map(
                lambda k: run_shard(s, part_bins[k % nparts], seed, k, jobs, per, os.path.join(work, f"s{si}_{k}"), left), range(jobs)))
        scases = 0
        for k, r in enumerate(res):
            b = part_bins[k % nparts]
            r["defines"] = s["part_defines"][k % nparts]
            if r["rc"] == 0 and r["status"] == "done":
                stj = json.loads(read(os.path.join(r["out"], "stats.json")))
                scases += stj["done"]
                total["evals"] += stj["evals"]
                total["ops"] += stj["ops"]
                for key, v in stj["counters"].items():
                    counters[key] = counters.get(key, 0) + v
                samples += stj["samples"][:1]
                a = array.array("Q")
                with open(os.path.join(r["out"], "states.bin"), "rb") as f:
                    a.frombytes(f.read())
                states.update(a)
                for line in read(os.path.join(r["out"], "known.txt")).splitlines():
                    # a probe of a recorded finding: "<key>\t<what was observed>"
                    key, _, what = line.partition("\t")
                    hit = next((x for x in kf if x["key"] == key), None)
                    if hit:
                        known[key] = hit
                    else:
                        violations.append((s, b, dict(r), "oracle", f"{key}: {what}"))
                continue
            if r["rc"] == "wall-timeout":
                raise NoVerdict(f"a shard of {s['src']} ({s['flavour']}) ran into the wall-clock watchdog in {r['workload']} case {r['case']}")
            if r["rc"] not in VIOL:
                # killed from outside, or an ending no monitor produces
                raise NoVerdict(f"{s['src']} ({s['flavour']}) ended with {r['rc']}: " + read(os.path.join(r["out"], "stderr.txt"))[-1500:])
            if r["rc"] not in check.get("kinds", VIOL):
                # another property's monitor stopped this shard: no verdict on this one from here
                counters["shards-stopped-by-other-monitors"] = counters.get("shards-stopped-by-other-monitors", 0) + 1
                continue
            if r["rc"] == 4:
                # a hang must be reproducible before it counts
                again = run_shard(s, b, seed, r["case"], 1, 1, r["out"] + "_again", 400)
                again["defines"] = r["defines"]
                if again["rc"] == 0:
                    raise NoVerdict("a hang could not be reproduced")
                if again["rc"] in VIOL:
                    r = again
            kind, summary, _, _ = describe(r)
            violations.append((s, b, r, kind, summary))
        total["cases"] += scases
        per_stage.append({"source": f"harness/{s['src']}.cpp", "workloads": s["only"], "build": s["flavour"], "cases": scases,
                          "shards": jobs})
        if violations:
            break

    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": check.get("level", "exploration"),
        "coverage": {
            "evaluations": total["cases"],
            "distinct_nontrivial": len(states),
            "rule": RULES.get(check.get("rule", ""), check.get("rule", "")) ,
            "samples": samples[:6] or ["(none completed)"],
            "oracle_comparisons": total["evals"],
            "operations_performed": total["ops"],
            "events_observed": counters,
            "stages": per_stage,
            "build_s": round(tb, 1),
        },
        "assumptions": check.get("assumptions", []) + [
            "the executions observed are a sample: paths and inputs the workloads never produce are not covered",
            "sanitizer red zones do not see every memory error (intra-object overflow, reuse of freed memory)"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for k, v in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {v['what']}")
    if violations:
        s, b, r, kind, summary = violations[0]
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, f"{prop}-{seed}-{s['src']}-{r['case']}.json")
        _, _, v, e = describe(r)
        with open(rp, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "source": s["src"], "flavour": s["flavour"],
                       "defines": list(r["defines"]), "only": s["only"], "workload": r["workload"], "case": r["case"],
                       "kind": kind, "summary": summary, "report": v[:100000], "stderr": e[:20000],
                       "cmd": f"{HERE}/run.py --replay {rp}"}, f, indent=1)
        print(f"  {kind}: {summary}")
        print(f"  workload {r['workload']} case {r['case']} of harness/{s['src']}.cpp ({s['flavour']}), seed {seed}")
        for line in (v or e).splitlines()[:60]:
            print("  | " + line[:300])
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    need = check.get("need", {})
    short = {k: counters.get(k, 0) for k, n in need.items() if counters.get(k, 0) < n}
    if total["cases"] == 0 or len(states) == 0 or short:
        raise NoVerdict(f"too little was observed: cases={total['cases']} states={len(states)} {short}")
    print(f"OK property={prop} tier={tier} seed={seed} cases={total['cases']} comparisons={total['evals']} "
          f"distinct-states={len(states)} wall={time.time() - t0:.1f}s (build {tb:.1f}s)")
    return 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        b = build(r["flavour"], r["source"], work, r["defines"])
        cmd = shard_cmd({"only": r["only"], "flavour": r["flavour"]}, b, r["seed"], r["case"], 1, 1, work) + ["--verbose"]
        p = subprocess.run(cmd, env=ENV, cwd=work)
        print("exit status", p.returncode, "->", VIOL.get(p.returncode, "no violation" if p.returncode == 0 else "?"))
        return 1 if p.returncode in VIOL else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
