#!/usr/bin/env python3
"""Builds the generated-input checks from /repo's working tree and runs them.

  run.py check <property>     quick or thorough (VERIF_TIER), seeded by VERIF_SEED
  run.py replay <file>        re-runs a replay file against /repo's working tree
  run.py setup                builds everything once
"""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "clang++-18"
WORKERS = 8

sys.path.insert(0, VERIF)
from checks import BINARIES, CHECKS  # noqa: E402

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:max_malloc_fill_size=4096:malloc_fill_byte=190:allocator_may_return_null=0:abort_on_error=0:exitcode=66"
# Every other worker runs without ASan's quarantine, so that objects come to lie
# where others were before (what is wrongly remembered by address then shows).
REUSE = ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:history_size=4"
ENV["LC_ALL"] = "C.UTF-8"


def env_of(worker):
    return dict(ENV, ASAN_OPTIONS=ENV["ASAN_OPTIONS"] + REUSE) if worker % 2 else ENV


class BuildError(Exception):
    pass


# ------------------------------------------------------------------ building

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            if not f.endswith((".h", ".cc", ".proto", ".inc", ".hpp")):
                continue
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def run_cmd(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def pkg_libs():
    return run_cmd(["pkg-config", "--libs", "absl_strings", "absl_status", "absl_statusor", "absl_str_format", "absl_synchronization", "absl_time", "protobuf"]).split()


def gen_protos():
    """C++ code of the google.api protos, outside /repo."""
    gen = os.path.join(BUILD, "gen")
    src = [os.path.join(VERIF, "third_party/google/api/http.proto"), os.path.join(VERIF, "third_party/google/api/annotations.proto"),
           os.path.join(VERIF, "third_party/google/api/httpbody.proto"), os.path.join(VERIF, "props/conv.proto")]
    src = [s for s in src if os.path.exists(s)]
    stamp = os.path.join(gen, "stamp")
    key = tree_hash(src)
    if os.path.exists(stamp) and open(stamp).read() == key:
        return gen
    tmp = tempfile.mkdtemp(prefix="gen", dir=BUILD)
    run_cmd(["protoc", "-I" + os.path.join(VERIF, "third_party"), "-I" + os.path.join(VERIF, "props"), "-I/usr/include", "--cpp_out=" + tmp] + src)
    with open(os.path.join(tmp, "stamp"), "w") as f:
        f.write(key)
    shutil.rmtree(gen, ignore_errors=True)
    os.rename(tmp, gen)
    return gen


MODES = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "work": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DPBT_WORK"],
    # Without sanitizers: allocations and block moves are counted.
    "cost": ["-DPBT_WORK", "-DPBT_COST"],
    "tsan": ["-fsanitize=thread"],
    "fuzz": ["-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all", "-DPBT_FUZZ"],
}
BASE = ["-std=c++20", "-O1", "-g1", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS",
        "-Wno-deprecated-declarations"]


def object_jobs(binary, mode, gen):
    spec = BINARIES[binary]
    inc = ["-I" + os.path.join(VERIF, "engine"), "-I" + os.path.join(VERIF, "props"), "-I" + os.path.join(REPO, "src/include"), "-I" + gen]
    for s in spec.get("include", []):
        inc.insert(0, "-I" + os.path.join(VERIF, s))
    common = tree_hash([os.path.join(VERIF, "engine"), os.path.join(REPO, "src/include"), os.path.join(VERIF, "third_party")] +
                       [os.path.join(REPO, "src", f) for f in sorted(os.listdir(os.path.join(REPO, "src"))) if not f.endswith(".cc") and os.path.isfile(os.path.join(REPO, "src", f))] +
                       [os.path.join(VERIF, "props", f) for f in sorted(os.listdir(os.path.join(VERIF, "props"))) if f.endswith(".h")] +
                       [os.path.join(VERIF, s) for s in spec.get("include", [])])
    srcs = [os.path.join(VERIF, "engine/pbt_main.cc")]
    if mode == "tsan":
        srcs.append(os.path.join(VERIF, "engine/absl_tsan.cc"))
    srcs += [os.path.join(VERIF, f) for f in spec["verif"]]
    # A source that is no longer there has been merged with another one, which
    # link() then finds.
    srcs += [os.path.join(REPO, f) for f in spec["repo"] if os.path.exists(os.path.join(REPO, f))]
    if spec.get("protos"):
        srcs += [os.path.join(gen, "%s.pb.cc" % p) for p in spec["protos"]]
    jobs = []
    for s in srcs:
        if not os.path.exists(s):
            raise BuildError("missing source " + s)
        flags = BASE + MODES[mode] + inc
        if s.endswith("/shim.cc"):
            flags = flags + ["-fno-sanitize=vptr"]
        if mode in ("work", "cost") and not s.endswith("pbt_main.cc"):
            flags = flags + ["-fsanitize-coverage=trace-pc-guard"]
        key = hashlib.sha256((" ".join(flags) + common + tree_hash([s])).encode()).hexdigest()[:24]
        jobs.append((s, flags, os.path.join(BUILD, "obj", os.path.basename(s) + "." + key + ".o")))
    return jobs


def compile_one(job):
    s, flags, out = job
    if os.path.exists(out):
        os.utime(out)
        return out
    tmp = out + ".%d.tmp" % os.getpid()
    run_cmd([CXX] + flags + ["-c", s, "-o", tmp])
    os.rename(tmp, out)
    return out


def build(wanted):
    """wanted: list of (binary, mode). Returns {(binary, mode): path}."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    gen = gen_protos()
    libs = pkg_libs()
    plans = {w: object_jobs(w[0], w[1], gen) for w in wanted}
    jobs = {}
    for p in plans.values():
        for j in p:
            jobs[j[2]] = j
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        # Big translation units first.
        order = sorted(jobs.values(), key=lambda j: 0 if "/props/" in j[0] else 1)
        list(ex.map(compile_one, order))
    out = {}
    for w, p in plans.items():
        objs = [j[2] for j in p]
        key = hashlib.sha256("\n".join(objs).encode()).hexdigest()[:16]
        path = os.path.join(BUILD, "bin", "%s-%s-%s" % (w[0], w[1], key))
        if not os.path.exists(path):
            link(w, p, objs, path, libs)
        out[w] = path
    prune()
    return out


def link(w, plan, objs, path, libs):
    tmp = path + ".%d.tmp" % os.getpid()

    def attempt(more):
        run_cmd([CXX, "-rdynamic"] + MODES[w[1]] + objs + more + ["-o", tmp] + libs + ["-lpthread", "-ldl"])

    try:
        attempt([])
    except BuildError:
        # Code may have moved to another file of src/ (the build of /repo takes
        # all that are there): link against the rest of them.
        src = os.path.join(REPO, "src")
        have = {j[0] for j in plan}
        like = next(j for j in plan if "/props/" in j[0])
        more = []
        for f in sorted(os.listdir(src)):
            s = os.path.join(src, f)
            if not f.endswith(".cc") or s in have:
                continue
            key = hashlib.sha256((like[2] + tree_hash([s])).encode()).hexdigest()[:24]
            try:
                more.append(compile_one((s, like[1], os.path.join(BUILD, "obj", f + "." + key + ".o"))))
            except BuildError:
                pass  # needs what this binary does not have
        if not more:
            raise
        lib = tmp + ".a"
        run_cmd(["ar", "rcs", lib] + more)
        try:
            attempt([lib])
        finally:
            os.unlink(lib)
    os.rename(tmp, path)


def prune():
    """Keeps the cache small."""
    for d, limit in (("obj", 3 << 30), ("bin", 2 << 30)):
        p = os.path.join(BUILD, d)
        fs = sorted(((os.path.getmtime(os.path.join(p, f)), os.path.getsize(os.path.join(p, f)), os.path.join(p, f)) for f in os.listdir(p)), reverse=True)
        total = 0
        for mtime, size, f in fs:
            total += size
            if total > limit and time.time() - mtime > 600:
                os.unlink(f)


# ------------------------------------------------------------------- running

def dump(binary, state, tape):
    r = subprocess.run([binary, "dump", "--state=" + state, "--out=" + tape], stdout=subprocess.PIPE, text=True, errors="replace")
    lines = r.stdout.split("\n")
    if len(lines) < 4 or not lines[0]:
        raise BuildError("a worker died before its first case")
    return lines[0], int(lines[1] or 0), int(lines[2] or 0), "\n".join(lines[3:]).strip()


def run_workers(binary, prop, tier, seed, scale, deadline, tmp, tag, sub=None):
    procs = []
    for w in range(WORKERS):
        base = os.path.join(tmp, "%s-%d" % (tag, w))
        cmd = [binary, "run", "--property=" + prop, "--seed=%d" % seed, "--worker=%d" % w, "--workers=%d" % WORKERS,
               "--tier=" + tier, "--scale=%g" % scale, "--deadline=%g" % deadline, "--state=" + base + ".state",
               "--out=" + base + ".json", "--hashes=" + base + ".hash"]
        if sub:
            cmd.append("--sub=" + sub)
        log = open(base + ".log", "w")
        procs.append((w, base, cmd, subprocess.Popen(cmd, stdout=log, stderr=log, env=env_of(w))))
    failed = None
    killed = []
    pending = list(procs)
    while pending:
        for p in list(pending):
            rc = p[3].poll()
            if rc is None:
                continue
            pending.remove(p)
            if rc == -signal.SIGKILL:
                killed.append(p)
            elif rc != 0 and failed is None:
                failed = p
        if failed:
            for p in pending:
                p[3].kill()
            for p in pending:
                p[3].wait()
            break
        time.sleep(0.02)
    return procs, failed, killed


def read_log(base):
    try:
        with open(base + ".log", errors="replace") as f:
            return f.read()[-8000:]
    except OSError:
        return ""


def replay_tape(binary, prop, sub, tape, tier, worker=0):
    r = subprocess.run([binary, "replay", "--property=" + prop, "--sub=" + sub, "--tape=" + tape, "--tier=" + tier], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, env=env_of(worker))
    return r.returncode, r.stdout.decode(errors="replace")


def write_replay(prop, sub, body):
    d = os.path.join(VERIF, "replays", prop)
    os.makedirs(d, exist_ok=True)
    text = json.dumps(body, indent=1)
    path = os.path.join(d, "%s-%s.json" % (sub, hashlib.sha256(text.encode()).hexdigest()[:12]))
    with open(path, "w") as f:
        f.write(text + "\n")
    return path


# Sub-checks whose cases start threads.
THREADED = ("in_threads", "resolve_concurrently", "concurrent_lookup")


def handle_failure(prop, binary_name, mode, binary, tier, seed, scale, failed, tmp):
    """Confirms, shrinks and records a failure. Returns (replay path, message)."""
    w, base, cmd, proc = failed
    tape = os.path.join(tmp, "fail.tape")
    sub, outcome, index, msg = dump(binary, base + ".state", tape)
    if outcome == 2 or not msg:
        msg = "the process running the case died (%s)\n%s" % (proc.returncode, read_log(base)[-3000:])
    tsan = mode == "tsan"
    threads = tsan or sub in THREADED  # the same case may fail only now and then
    tries = 60 if threads else 3
    hits, out = 0, ""
    for _ in range(tries):
        rc, o = replay_tape(binary, prop, sub, tape, tier, w)
        if rc == 10:
            hits += 1
            out = o
            if threads:
                break
        elif not threads:
            break
    body = {"property": prop, "sub": sub, "binary": binary_name, "mode": mode, "tier": tier, "seed": seed, "worker": w}
    if hits >= (1 if threads else tries):
        small = os.path.join(tmp, "small.tape")
        if not threads:
            subprocess.run([binary, "shrink", "--property=" + prop, "--sub=" + sub, "--tape=" + tape, "--out=" + small, "--tier=" + tier,
                            "--attempts=4000", "--deadline=60"], env=env_of(w), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.exists(small):
                rc, o = replay_tape(binary, prop, sub, small, tier, w)
                if rc == 10:
                    tape, out = small, o
        body.update(kind="tape", tape=[int(x) for x in open(tape).read().split()], report=out[-12000:])
        m = re.findall(r"^FAILED: (.*)$", out, re.M)
        return write_replay(prop, sub, body), (m[-1] if m else msg)
    # State carried from case to case? Then the run up to this case is the input.
    seq = [c for c in cmd if not c.startswith(("--state", "--out", "--hashes", "--deadline"))][1:]
    body.update(kind="sequence", args=seq, index=index, report=msg)
    ok = 0
    for _ in range(3):
        rc = run_sequence(binary, seq, tmp)
        if rc != 0:
            ok += 1
            if threads:
                break
    if ok == 3 or tsan or (threads and ok):
        return write_replay(prop, sub, body), msg
    return None, msg


def run_sequence(binary, args, tmp):
    w = [int(a.split("=")[1]) for a in args if a.startswith("--worker=")]
    r = subprocess.run([binary] + args + ["--out=" + os.path.join(tmp, "seq.json"), "--state=" + os.path.join(tmp, "seq.state")], env=env_of(w[0] if w else 0),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return r.returncode


def fuzz(prop, name, binary, asan_binary, subs, seed, seconds, tmp):
    """Coverage-guided search over the same properties. One process per worker, sub-checks round-robin."""
    procs = []
    for w in range(max(WORKERS, len(subs))):
        sub = subs[w % len(subs)]
        base = os.path.join(tmp, "fuzz-%s-%d" % (name, w))
        corpus = base + ".corpus"
        os.makedirs(corpus)
        env = dict(ENV, PBT_FUZZ_SUB="%s/%s" % (prop, sub), PBT_FUZZ_STATE=base + ".state", PBT_FUZZ_STATS=base + ".stats")
        cmd = [binary, corpus, "-seed=%d" % (seed * 1000 + w + 1), "-max_total_time=%d" % seconds, "-max_len=%d" % (512 if w % 2 else 4096),
               "-rss_limit_mb=6000", "-timeout=120", "-detect_leaks=0", "-print_final_stats=1", "-artifact_prefix=" + base + "-", "-reload=0"]
        log = open(base + ".log", "w")
        procs.append((w, base, sub, subprocess.Popen(cmd, stdout=log, stderr=log, env=env)))
    failed, pending = None, list(procs)
    while pending and not failed:
        for p in list(pending):
            rc = p[3].poll()
            if rc is None:
                continue
            pending.remove(p)
            if rc not in (0, -signal.SIGKILL) and failed is None:
                failed = p
        time.sleep(0.1)
    for p in pending:
        p[3].kill()
        p[3].wait()
    stats = {"executions": 0, "nontrivial": 0, "corpus": 0, "subs": sorted(set(subs))}
    for w, base, sub, _ in procs:
        try:
            a, b = open(base + ".stats").read().split()
            stats["executions"] += int(a)
            stats["nontrivial"] += int(b)
        except (OSError, ValueError):
            pass
        stats["corpus"] += len(os.listdir(base + ".corpus"))
        shutil.rmtree(base + ".corpus", ignore_errors=True)
    return stats, failed


def load_known():
    """known-findings.txt: lines 'finding: property=<id> key=<key> <what fails>' (reported, not an alarm)
    and 'fixed: property=<id> <commit> <what failed>' (suppress nothing)."""
    out = []
    try:
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    spec = CHECKS[prop]
    thorough = tier == "thorough"
    scale = float(os.environ.get("VERIF_SCALE", "1")) * (1 if thorough else spec.get("scale", 2))
    budget = float(os.environ.get("VERIF_BUDGET", "780" if thorough else "420"))
    wanted = [(b, m) for b, m in spec["run"]]
    fuzz_bins = sorted(set(b for b, m in spec["run"] if m in ("asan", "work"))) if thorough else []
    bins = build(wanted + [(b, "fuzz") for b in fuzz_bins])
    build_s = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    rand_budget = (budget - build_s) * (0.6 if fuzz_bins else 1.0)
    violation = None
    inconclusive = None
    subs, samples, hashes, dropped = [], [], [], 0
    fuzz_stats = []
    exhaustive_spaces = []
    try:
        for bi, (name, mode) in enumerate(wanted):
            left = max(20.0, rand_budget - (time.time() - t0 - build_s)) / (len(wanted) - bi)
            binary = bins[(name, mode)]
            for attempt in range(2):
                procs, failed, killed = run_workers(binary, prop, tier, seed, scale, left, tmp, "%s-%s-%d" % (name, mode, attempt))
                if failed or not killed:
                    break
                # A worker was killed from outside (memory): once more.
            if failed:
                path, msg = handle_failure(prop, name, mode, binary, tier, seed, scale, failed, tmp)
                if path:
                    violation = (path, msg)
                else:
                    inconclusive = "a failure did not reproduce: " + msg
                break
            if killed:
                inconclusive = "a worker was killed (out of memory?)"
                break
            merged = {}
            for w, base, _, _ in procs:
                j = json.load(open(base + ".json"))
                dropped += j["distinct_dropped"]
                hashes.append(base + ".hash")
                for s in j["subs"]:
                    m = merged.setdefault(s["name"], dict(s, cases=0, evaluations=0, nontrivial=0, bulk_nontrivial=0, complete=True, labels={}, samples=[], seconds=0))
                    for k in ("cases", "evaluations", "nontrivial", "bulk_nontrivial"):
                        m[k] += s[k]
                    m["complete"] = m["complete"] and s["complete"]
                    m["seconds"] = max(m["seconds"], s["seconds"])
                    m["max_tape"] = max(m["max_tape"], s["max_tape"])
                    for k, v in s["labels"].items():
                        m["labels"][k] = m["labels"].get(k, 0) + v
                    samples += s["samples"]
            for m in merged.values():
                m.pop("samples", None)
                m["binary"] = name + "/" + mode
                subs.append(m)
                if m["enumerated"] and m["complete"]:
                    exhaustive_spaces.append("%s (%d elements)" % (m["name"], m["cases"]))
        if not subs and not violation and not inconclusive:
            inconclusive = "no sub-check ran"
        if not violation and not inconclusive and fuzz_bins:
            for fi, name in enumerate(fuzz_bins):
                asan = bins[[w for w in wanted if w[0] == name][0]]
                lst = subprocess.run([asan, "list"], stdout=subprocess.PIPE, text=True).stdout.split("\n")
                fs = [x.split()[1] for x in lst if x.split() and x.split()[0] == prop and x.split()[2] == "1"]
                if not fs:
                    continue
                secs = max(10, (budget - (time.time() - t0)) / (len(fuzz_bins) - fi) - 10)
                st, failed = fuzz(prop, name, bins[(name, "fuzz")], asan, fs, seed, int(secs), tmp)
                fuzz_stats.append(st)
                if failed:
                    w, base, sub, proc = failed
                    mode = [w2[1] for w2 in wanted if w2[0] == name][0]
                    shutil.copy(base + ".state", base + ".st2")
                    path, msg = handle_fuzz_failure(prop, name, mode, asan, sub, base, seed, tmp)
                    if path:
                        violation = (path, msg)
                    else:
                        inconclusive = "a fuzzing failure did not reproduce: " + msg
                    break
        distinct = 0
        if hashes:
            r = subprocess.run([list(bins.values())[0], "distinct"] + hashes, stdout=subprocess.PIPE, text=True)
            distinct = int(r.stdout.strip() or 0)
        distinct += sum(s["bulk_nontrivial"] for s in subs)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in subs) + sum(f["executions"] for f in fuzz_stats),
            "distinct_nontrivial": distinct,
            "cases": sum(s["cases"] for s in subs),
            "rule": spec["rule"] + " Distinct cases are counted by a 64-bit hash of the generated input" +
                    (" (at least: %d more were not tracked)" % dropped if dropped else "") + ".",
            "samples": [s[:3000] for s in samples][:8] or ["(no sample: the run stopped at a violation)"],
            "sub_checks": [{k: v for k, v in s.items() if k != "bulk_nontrivial"} for s in subs],
            "exhaustively_enumerated": exhaustive_spaces,
            "coverage_guided": fuzz_stats,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    if not violation and inconclusive:
        evidence["coverage"]["inconclusive"] = inconclusive
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for s in subs:
        print("%s/%s: %d cases, %d evaluations, %d non-trivial%s, %.1f s" % (prop, s["name"], s["cases"], s["evaluations"], s["nontrivial"] + s["bulk_nontrivial"],
              "" if s["complete"] else " (stopped by the time budget, %d planned)" % s["planned"], s["seconds"]))
    for st in fuzz_stats:
        print("%s coverage-guided: %d executions, %d non-trivial, corpus %d" % (prop, st["executions"], st["nontrivial"], st["corpus"]))
    if violation:
        print("  " + violation[1][:2000].replace("\n", "\n  "))
        print("VIOLATION property=%s replay=%s" % (prop, violation[0]))
        return 1
    for p, key, what in load_known():
        if p == prop:
            print("KNOWN-FINDING: property=%s %s" % (p, what))
    if inconclusive:
        print("ERROR: " + inconclusive)
        return 2
    print("%s: held on everything explored (%d distinct non-trivial cases, %.1f s)" % (prop, distinct, wall))
    return 0


def handle_fuzz_failure(prop, name, mode, asan, sub, base, seed, tmp):
    tape = os.path.join(tmp, "fuzzfail.tape")
    _, outcome, _, msg = dump(asan, base + ".state", tape)
    if outcome == 2 or not msg:
        msg = read_log(base)[-3000:]
    for _ in range(3):
        rc, out = replay_tape(asan, prop, sub, tape, "thorough")
        if rc != 10:
            return None, msg
    small = os.path.join(tmp, "small.tape")
    subprocess.run([asan, "shrink", "--property=" + prop, "--sub=" + sub, "--tape=" + tape, "--out=" + small, "--tier=thorough",
                    "--attempts=4000", "--deadline=60"], env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if os.path.exists(small):
        rc, o = replay_tape(asan, prop, sub, small, "thorough")
        if rc == 10:
            tape, out = small, o
    body = {"property": prop, "sub": sub, "binary": name, "mode": mode, "tier": "thorough", "seed": seed, "kind": "tape",
            "tape": [int(x) for x in open(tape).read().split()], "report": out[-12000:]}
    m = re.findall(r"^FAILED: (.*)$", out, re.M)
    return write_replay(prop, sub, body), (m[-1] if m else msg)


def replay(path):
    body = json.load(open(path))
    bins = build([(body["binary"], body["mode"])])
    binary = bins[(body["binary"], body["mode"])]
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        if body["kind"] == "tape":
            tape = os.path.join(tmp, "t")
            with open(tape, "w") as f:
                f.write("\n".join(map(str, body["tape"])))
            for _ in range(60 if body["mode"] == "tsan" or body["sub"] in THREADED else 1):
                rc, out = replay_tape(binary, body["property"], body["sub"], tape, body["tier"], body.get("worker", 0))
                if rc:
                    break
            print(out)
            bad = rc == 10
        else:
            bad = run_sequence(binary, body["args"], tmp) != 0
            print(body["report"] if bad else "the sequence passes")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if bad:
        print("VIOLATION property=%s replay=%s" % (body["property"], os.path.abspath(path)))
        return 1
    print("the replay passes")
    return 0


def setup():
    wanted = sorted(set((b, m) for s in CHECKS.values() for b, m in s["run"]))
    t0 = time.time()
    build(wanted)
    print("built %d binaries in %.0f s" % (len(wanted), time.time() - t0))
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 3
    try:
        if sys.argv[1] == "check":
            return check(sys.argv[2])
        if sys.argv[1] == "replay":
            return replay(sys.argv[2])
        if sys.argv[1] == "setup":
            return setup()
    except BuildError as e:
        print("BUILD ERROR: %s" % e)
        return 2
    except Exception:  # an error of the check, not a verdict
        traceback.print_exc()
        return 2
    print(__doc__)
    return 3


if __name__ == "__main__":
    sys.exit(main())
