#!/usr/bin/env python3
"""check.py setup | check.py <property> [--tier quick|thorough] | check.py replay <file>

Builds the harness of a property from /repo's working tree, runs it, writes evidence/<property>.json.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check could not give an answer.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))

COMMON = ["-std=c++17", "-w", "-DFMT_HEADER_ONLY", "-D_GLIBCXX_ASSERTIONS", "-I", os.path.join(REPO, "src")]
FLAVOURS = {
    "opt": ["-O2"],
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
}
REAL_LIBS = ["-lzmq", "-lcurl", "-lyaml-cpp", "-lboost_filesystem", "-lboost_system", "-lpthread"]
FAKE_LIBS = ["-lyaml-cpp", "-lboost_filesystem", "-lboost_system", "-lboost_program_options", "-lpthread"]
SKIP_MAIN = {"main.cpp", "broker_core.cpp"}

HARNESSES = {
    "broker": dict(src=["mc/broker.cpp"], flavour="opt", libs=REAL_LIBS, skip=SKIP_MAIN),
    "queues": dict(src=["mc/queues.cpp"], flavour="opt", libs=REAL_LIBS, skip=SKIP_MAIN),
    "inputs": dict(src=["mc/inputs.cpp"], flavour="opt", libs=REAL_LIBS, skip=SKIP_MAIN),
    "malformed": dict(src=["mc/malformed.cpp"], flavour="asan", libs=REAL_LIBS, skip=SKIP_MAIN),
    "http": dict(src=["mc/http.cpp"], flavour="asan", libs=[l for l in REAL_LIBS if l != "-lcurl"], skip=SKIP_MAIN),
    "react": dict(src=["mc/react.cpp"], flavour="opt", libs=FAKE_LIBS + ["-ldl"], only=("reactor/",)),
    "system": dict(src=["mc/system.cpp"], flavour="opt", libs=FAKE_LIBS + ["-ldl"], skip=SKIP_MAIN),
    "startup": dict(src=["mc/startup.cpp"], flavour="opt", libs=FAKE_LIBS + ["-ldl"], skip=set(), repo_cflags=["-Dmain=broker_main"]),
    "zmqconf": dict(src=["mc/zmqconf.cpp"], flavour="opt", libs=["-lzmq", "-lpthread", "-ldl"], only=("none/",)),
}
PROPS = {}
A_BROKER = [
    "the messages of one connection arrive whole and one at a time (C19, C20 and C25 check the layer below)",
    "a worker announces itself by 'init' and holds at most what it was sent or declared as current_job",
    "behaviour beyond the depth, the numbers of workers and jobs and the announcement alphabet follows the explored patterns",
]
A_REACT = [
    "the controlled libzmq of mc/fakezmq.h behaves as the installed libzmq on the operations used (zmqconf replays its traces against it)",
    "threads interact only through the intercepted libzmq, mutex, condition variable, thread and clock calls",
]
for _p in (1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 26):
    PROPS["C%02d" % _p] = dict(harness="broker", level="model_checking", assumptions=A_BROKER)
PROPS["C09"] = dict(
    harness="malformed", level="model_checking", assumptions=A_BROKER[:1] + ["errors that neither crash, trip ASan/UBSan/libstdc++ assertions, throw, nor change later service are not visible"],
    technique="exhaustive enumeration of malformed messages in every prepared state of the real broker (ASan/UBSan), each followed by a service probe",
    note="Every message over the token alphabet up to the stated number of frames, from known and unknown peers, single and in pairs, in each of the prepared "
         "broker states runs on the real code under ASan and UBSan; afterwards a fresh worker must still get jobs to completion.")
PROPS["C27"] = dict(
    harness="queues", level="model_checking",
    assumptions=["the caller keeps the documented protocol of the interface (workers are added before use, a busy worker is not assigned a job)"],
    technique="exhaustive enumeration of operation sequences on the real queue managers against a reference accounting",
    note="All sequences of interface operations up to the depth, for both managers, with object addresses in both orders; each answer and the multiset of jobs is "
         "compared with a reference account; states are merged by the account plus the answers to a closing probe sequence.")
T_INPUT = "exhaustive enumeration of a bounded input space on the real code against an independent oracle"
PROPS["C18"] = dict(
    harness="inputs", level="exploration", technique=T_INPUT,
    assumptions=["longer strings and larger header sets behave as the enumerated ones"],
    rule="complete grids over small alphabets; every case is a different input and has a definite expected answer",
    note="Complete grids of announcements and requirements (group expressions up to a length, thread counts with numeric boundaries and malformed numbers, header "
         "subsets on both sides, answers in sequence) directly on worker and through init/eval messages of the handler.")
PROPS["C24"] = dict(
    harness="inputs", level="exploration", technique=T_INPUT,
    assumptions=["values interact at most pairwise (all single settings, all pairs, all subsets of sections are enumerated)"],
    rule="complete grids over small alphabets; every case is a different input and has a definite expected answer",
    note="All single settings and all pairs of settings with valid, absent, ill-typed, out-of-range and null values, all subsets of sections; each getter is compared "
         "with the expected value, default or configuration error.")
PROPS["C23"] = dict(
    harness="http", level="fault_enumeration",
    technique="exhaustive fault enumeration: every sequence of transfer outcomes under a scripted libcurl and clock, every content byte",
    assumptions=["libcurl keeps its documented interface (it is replaced by a scripted stand-in)"],
    note="Every sequence of transfer outcomes up to the attempt limit, sequences of reports, all content bytes and pairs of special ones and a set of "
         "configurations on the real handler and curl helper; what the frontend would decode is compared with what was reported.",
    rule="every sequence of transfer outcomes up to the attempt limit (8 outcomes, plus every curl error code), sequences of "
         "reports, every byte and pair of special bytes as content, configurations; non-trivial: a failed attempt or a character "
         "that needs encoding")
T_REACT = "schedule enumeration of the real reactor under a controlled scheduler and libzmq, with conformance replay against the real libzmq"
N_REACT = ("The real reactor, wrappers and handler threads run on fibers over a controlled libzmq, pthread and clock layer; all schedules up to the stated bound of "
           "deviations are executed and each end state is checked. The libzmq stand-in is validated by replaying its operation traces on the installed libzmq.")
for _p in ("C19", "C20", "C21", "C22"):
    PROPS[_p] = dict(harness=["react", "zmqconf"], level="model_checking", technique=T_REACT, note=N_REACT, assumptions=A_REACT)
PROPS["C25"] = dict(
    harness=["system", "zmqconf"], level="model_checking", assumptions=A_REACT + ["libcurl is replaced by a recording stand-in"],
    technique="schedule enumeration of the assembled broker (broker_connect, all handlers and threads) under a controlled scheduler, libzmq and libcurl",
    note="The assembled broker with scripted clients, workers and monitor runs under every schedule up to the deviation bound; messages at each peer and posts to the "
         "frontend are compared with the expected ones at the end.")
PROPS["C28"] = dict(
    harness="startup", level="exploration", assumptions=["ZeroMQ, libcurl and the log file are stand-ins or scratch files"],
    technique="exhaustive enumeration of command lines and configuration files for the real main()",
    note="Every combination of command line form, configuration content and default configuration starts the real main() in its own process; outcome, exit code and "
         "the observable behaviour of the chosen queue manager are compared with the expected ones.",
    rule="every combination of command line form, configuration file and presence of a default configuration; each start has "
         "a definite expected outcome")

LIMITS = {"quick": 240, "thorough": 3000}
ISOLATED_LIMITS = {"quick": 420, "thorough": 3000}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


def header_hash():
    acc = []
    for root in (os.path.join(REPO, "src"), os.path.join(HERE, "mc"), os.path.join(HERE, "shim")):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith((".cpp", ".c", ".cc")):
                    acc.append(os.path.relpath(os.path.join(d, f), root))
                    acc.append(read(os.path.join(d, f)))
    return sha(*acc)


def repo_headers():
    acc = []
    root = os.path.join(REPO, "src")
    for r in (root, os.path.join(HERE, "shim")):
        for d, dirs, files in os.walk(r):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith((".cpp", ".c", ".cc")):
                    acc.append(os.path.relpath(os.path.join(d, f), r))
                    acc.append(read(os.path.join(d, f)))
    return sha(*acc)


def run_compiler(cmd, target):
    tmp = target + ".%d.tmp" % os.getpid()
    p = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        if os.path.exists(tmp):
            os.remove(tmp)
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-3000:])
    os.replace(tmp, target)


def compile_one(src, flags, key):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    obj = os.path.join(BUILD, "obj", sha(" ".join(flags), key, src, read(src)) + ".o")
    if not os.path.exists(obj):
        run_compiler(["g++"] + flags + ["-c", src], obj)
    else:
        os.utime(obj)
    return obj


def build(name, spd="shim"):
    h = HARNESSES[name]
    flags = COMMON + FLAVOURS[h["flavour"]] + h.get("cflags", [])
    if spd == "shim":
        flags = ["-I", os.path.join(HERE, "shim")] + flags
    hk, rk = header_hash(), repo_headers()
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
    rel = lambda s: os.path.relpath(s, os.path.join(REPO, "src"))
    if "only" in h:
        srcs = [s for s in srcs if rel(s).startswith(h["only"])]
    else:
        srcs = [s for s in srcs if rel(s) not in h["skip"]]
    jobs = [(os.path.join(HERE, s), flags + ["-I", os.path.join(HERE, "mc")], hk) for s in h["src"]]
    jobs += [(s, flags + h.get("repo_cflags", []), rk) for s in srcs]
    try:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(lambda j: compile_one(*j), jobs))
        os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
        exe = os.path.join(BUILD, "bin", name + "-" + sha(*objs, *h["libs"]))
        if not os.path.exists(exe):
            run_compiler(["g++"] + FLAVOURS[h["flavour"]] + objs + h.get("ldflags", []) + h["libs"], exe)
        else:
            os.utime(exe)
        return exe
    except BuildError:
        if spd == "shim":
            return build(name, "real")
        raise


def prune():
    for d in ("obj", "bin"):
        p = os.path.join(BUILD, d)
        if not os.path.isdir(p):
            continue
        fs = sorted((os.path.join(p, f) for f in os.listdir(p)), key=os.path.getmtime)
        total = sum(os.path.getsize(f) for f in fs)
        while fs and total > 600e6:
            f = fs.pop(0)
            total -= os.path.getsize(f)
            os.remove(f)


def evidence(prop, tier, level, res, wall):
    c = dict(res["counts"])
    cov = {}
    if level == "model_checking":
        cov["states"] = c.pop("states", 0)
        cov["transitions"] = c.pop("transitions", 0)
        cov["traces_validated_against_impl"] = c.pop("executions", 0)
    else:
        cov["evaluations"] = c.pop("evaluations", 0)
        cov["distinct_nontrivial"] = c.pop("distinct", 0)
        cov["rule"] = PROPS[prop].get("rule", "")
    cov["samples"] = res["samples"][:12] or ["(none)"]
    cov["exhaustive"] = bool(res["exhaustive"])
    cov["scenarios"] = res["parts"]
    cov.update(c)
    if res.get("notes"):
        cov["notes"] = res["notes"]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level, coverage=cov,
              assumptions=PROPS[prop].get("assumptions", []), wall_s=round(wall, 2), violations=len(res["violations"]))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def merge(results):
    out = dict(counts={}, samples=[], parts=[], notes=[], violations=[], exhaustive=True, rule="")
    for r in results:
        for k, v in r["counts"].items():
            out["counts"][k] = out["counts"].get(k, 0) + v
        for k in ("samples", "parts", "notes", "violations"):
            out[k] += r.get(k, [])
        out["exhaustive"] = out["exhaustive"] and r["exhaustive"]
        out["rule"] = out["rule"] or r.get("rule", "")
    return out


def check(prop, tier):
    t0 = time.time()
    p = PROPS[prop]
    results = []
    names = p["harness"] if isinstance(p["harness"], list) else [p["harness"]]
    for name in names:
        exe = build(name)
        outf = os.path.join(BUILD, "out-%s-%s-%d.json" % (prop, name, os.getpid()))
        cmd = [exe, "--prop", prop, "--tier", tier, "--out", outf, "--limit", str(LIMITS[tier])]
        env = dict(os.environ)
        env.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:malloc_context_size=2:quarantine_size_mb=16")
        env.setdefault("UBSAN_OPTIONS", "abort_on_error=1:print_stacktrace=0")
        r = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if r.returncode == 3:
            # something that the code keeps between executions: give every execution its own process
            if os.path.exists(outf):
                os.remove(outf)
            cmd[-1] = str(ISOLATED_LIMITS[tier])
            r = subprocess.run(cmd, env=dict(env, VERIF_ISOLATE="1"), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if r.returncode not in (0, 1) or not os.path.exists(outf):
            sys.stderr.write(r.stderr.decode(errors="replace")[-4000:])
            print("check %s: harness %s failed with %d" % (prop, name, r.returncode))
            return 2
        with open(outf) as f:
            res = json.load(f)
        os.remove(outf)
        res["parts"] = res.get("parts", [])
        results.append(res)
        if res["violations"]:
            break
    res = merge(results)
    evidence(prop, tier, p["level"], res, time.time() - t0)
    prune()
    if res["violations"]:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for i, v in enumerate(res["violations"][:3]):
            path = os.path.join(HERE, "replays", "%s-%d.txt" % (prop, i))
            with open(path, "w") as f:
                f.write(v["replay"])
            print("  " + v["text"])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    c = res["counts"]
    print("%s held: %s (exhaustive within bounds: %s, %.1f s)" % (
        prop, ", ".join("%s=%d" % (k, v) for k, v in sorted(c.items())), res["exhaustive"], time.time() - t0))
    return 0


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    if args[0] == "setup":
        for name in HARNESSES:
            build(name)
            print("built", name)
        return 0
    if args[0] == "replay":
        text = open(args[1]).read()
        name = [l.split()[1] for l in text.splitlines() if l.startswith("harness ")][0]
        exe = build(name)
        return subprocess.run([exe, "--replay", args[1]]).returncode
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    try:
        return check(args[0], tier)
    except BuildError as e:
        print("build failed:", str(e)[-3000:])
        return 2


if __name__ == "__main__":
    sys.exit(main())
