#!/usr/bin/env python3
"""Build the simulators from /repo's working tree and decide one property.

check.py --prop C01 [--tier quick|thorough]      decide (exit 0 held, 1 violation, 2 error)
check.py --build-all                             build everything (setup)
check.py --replay FILE                           replay a violation (prints the trace)
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")

CONFIGS = {
    "default": ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer",
                "-fsanitize=address,bounds,null,signed-integer-overflow,return",
                "-fno-sanitize-recover=all", "-D_GLIBCXX_SANITIZE_VECTOR"],
    "pmr": ["-std=c++20", "-O2", "-DNDEBUG", "-DNIMIDI2_PMR_SYSEX_DATA=1"],
    "custom": ["-std=c++17", "-O2", "-DNDEBUG", "-DNIMIDI2_CUSTOM_SYSEX_DATA_ALLOCATOR=1"],
}
# shares of the cores (the sanitized build is the slowest)
WORKERS = {"default": 4, "pmr": 2, "custom": 2}
CXX = "g++"
ENV_SAN = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=0:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=0:exitcode=78",
}
EXTRA = {}  # per property extra flags: {"C15": {"default": [...]}}
EXTRA["C15"] = {"default": ["-D_GLIBCXX_ASSERTIONS"]}
# C23 runs the worlds of other properties in threads, with a possible preemption at every basic block
# and, where the sanitizer is off, every access to memory (the calls of -fsanitize=thread, answered by the simulator)
PREEMPT = ["-fsanitize-coverage=trace-pc", "-fsanitize=thread"]
EXTRA["C23"] = {c: PREEMPT[:1] if c == "default" else PREEMPT for c in CONFIGS}
PARTS = {"C23": ["c%02d" % i for i in list(range(1, 10)) + [12, 13] + list(range(15, 23))]}


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        h.update(b"\0")
        h.update(read(p))
    return h.hexdigest()


def inc_files():
    r = []
    for base, _, names in os.walk(os.path.join(REPO, "inc")):
        r += [os.path.join(base, n) for n in names]
    return r


class BuildError(Exception):
    pass


def compile_obj(src, flags, dep_digest):
    key = hashlib.sha256((src + "\0" + " ".join(flags) + "\0" + dep_digest).encode() + read(src)).hexdigest()[:24]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.tmp" % os.getpid()
    cmd = [CXX] + flags + ["-I" + os.path.join(REPO, "inc"), "-I" + SIM, "-c", src, "-o", tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("compilation failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    os.replace(tmp, obj)
    return obj


def build(props, configs=None):
    """-> {(prop, config): binary}"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    configs = configs or list(CONFIGS)
    inc = tree_digest(inc_files())
    simh = tree_digest(glob.glob(os.path.join(SIM, "*.h")))
    libs = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    if not libs:
        raise BuildError("no library sources")
    jobs = {}
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        plan = []
        for p in props:
            for c in configs:
                fl = CONFIGS[c] + EXTRA.get(p, {}).get(c, []) + ["-ftrivial-auto-var-init=pattern", "-w", "-pthread"]
                srcs = [(os.path.join(SIM, p.lower() + ".cpp"), inc + simh), (os.path.join(SIM, "seams.cpp"), inc + simh),
                        (os.path.join(SIM, "driver.cpp"), simh)] + [(s, inc) for s in libs]
                plain = [f for f in fl if f not in PREEMPT]
                srcs = [(s, d, plain if s.startswith(SIM + "/") else fl) for s, d in srcs]
                srcs += [(os.path.join(SIM, w + ".cpp"), inc + simh, fl + ["-Dscenario=scenario_" + w]) for w in PARTS.get(p, [])]
                objs = []
                for s, d, f in srcs:
                    k = (s, tuple(f))
                    if k not in jobs:
                        jobs[k] = ex.submit(compile_obj, s, f, d)
                    objs.append(jobs[k])
                plan.append((p, c, plain, objs))

        def link(p, c, fl, objs):
            os_ = [o.result() for o in objs]
            key = hashlib.sha256(" ".join(os_ + fl).encode()).hexdigest()[:16]
            out = os.path.join(BUILD, "bin", "%s_%s_%s" % (p, c, key))
            if not os.path.exists(out):
                tmp = out + ".%d.tmp" % os.getpid()
                cmd = [CXX] + fl + os_ + ["-o", tmp]
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    raise BuildError("link failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
                os.replace(tmp, out)
            return out

        res = {}
        with ThreadPoolExecutor(max_workers=8) as lx:
            fs = [(p, c, lx.submit(link, p, c, fl, objs)) for p, c, fl, objs in plan]
            for p, c, f in fs:
                res[(p, c)] = f.result()
    return res


def known_findings(prop):
    """lines 'known: property=<id> config=<c|*> class=<class> key=<regex> :: <text>' suppress exactly that failure."""
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) class=(\S+) key=(.*?) :: (.*)$", l.rstrip("\n"))
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3), m.group(4)))
    return r


def run_one(binary, prop, cfg, seed, factor, workers, scratch, extra=()):
    d = os.path.join(scratch, cfg)
    os.makedirs(d, exist_ok=True)
    j = os.path.join(d, "out.json")
    rep = os.path.join(REPLAYS, "%s_%s_seed%d.replay" % (prop, cfg, seed))
    if os.path.exists(rep):
        os.unlink(rep)
    env = dict(os.environ, **ENV_SAN)
    cmd = [binary, "--seed", str(seed), "--workers", str(workers), "--json", j, "--replay-out", rep, "--scratch", d, "--factor", str(factor)] + list(extra)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=d)
    out = {}
    if os.path.exists(j):
        out = json.load(open(j))
    return p.returncode, out, rep, p.stdout + p.stderr


def replay(path, quiet=False, binaries=None):
    prop = cfg = None
    for l in open(path):
        if l.startswith("property "):
            prop = l.split()[1]
        if l.startswith("config "):
            cfg = l.split()[1]
    b = binaries or build([prop], [cfg])
    scratch = tempfile.mkdtemp(prefix="simreplay")
    try:
        env = dict(os.environ, **ENV_SAN)
        cmd = [b[(prop, cfg)], "--replay", os.path.abspath(path), "--scratch", scratch] + (["--quiet"] if quiet else [])
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE if quiet else None, cwd=scratch)
        return p.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, factor, configs=None):
    t0 = time.time()
    bins = build([prop], configs)
    t_build = time.time() - t0
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="sim%s_" % prop)
    outs = {}
    try:
        with ThreadPoolExecutor(max_workers=4) as ex:
            fs = {c: ex.submit(run_one, bins[(prop, c)], prop, c, seed, factor, WORKERS[c], scratch) for (_, c) in bins}
            for c, f in fs.items():
                outs[c] = f.result()
        rc, lines, nviol = 0, [], 0
        for c, (code, out, rep, text) in outs.items():
            if code == 1:
                # fresh processes must reproduce it exactly, twice
                if any(replay(rep, True, bins) != 1 for _ in range(2)):
                    print("ERROR: violation of %s (%s) does not replay: %s" % (prop, c, rep))
                    rc = 2
                    continue
                hit = [k for k in known_findings(prop) if k[0] == out["class"] and re.search(k[1], out["message"])]
                if hit:
                    lines.append("KNOWN-FINDING: property=%s %s" % (prop, hit[0][2]))
                    continue
                nviol += 1
                print("%s [%s] run %d: %s: %s" % (prop, c, out["index"], out["class"], out["message"]))
                lines.append("VIOLATION property=%s replay=%s" % (prop, rep))
                if rc == 0:
                    rc = 1
            elif code != 0:
                print("ERROR: %s (%s) exit %d\n%s" % (prop, c, code, text[-3000:]))
                rc = 2
        if nviol:
            rc = 1
        for l in dict.fromkeys(lines):
            print(l)
        if all(o[1] for o in outs.values()):
            evidence(prop, tier, seed, {c: o[1] for c, o in outs.items()}, time.time() - t0, t_build, nviol)
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def evidence(prop, tier, seed, outs, wall, t_build, nviol):
    any_ = next(iter(outs.values()))
    faults, probes = {}, {}
    for o in outs.values():
        for k, v in o["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in o["probes"].items():
            probes[k] = probes.get(k, 0) + v
    runs = sum(o["runs"] for o in outs.values())
    batch = max(o["batch_s"] for o in outs.values()) or 1e-9
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": sum(o["distinct"] for o in outs.values()),
        "rule": any_["rule"] + "; counted per build configuration and added up",
        "samples": [{"config": c, "event_trace": s} for c, o in outs.items() for s in o["samples"][:1]] or
                   [{"config": c, "violation": o["class"], "message": o["message"]} for c, o in outs.items() if o["violation"]],
        "simulated_runs_per_hour": int(runs / batch * 3600),
        "seeds_per_hour": int(runs / batch * 3600),
        "simulated_time_s": round(sum(o["sim_ns"] for o in outs.values()) / 1e9, 3),
        "events": sum(o["events"] for o in outs.values()),
        "oracle_checks": sum(o["checks"] for o in outs.values()),
        "faults_injected": faults,
        "probes": probes,
        "distinct_states": {"count": max(o["states"] for o in outs.values()),
                            "measure": "abstract states of the reference model reached, hashed into 2^22 buckets, largest configuration"},
        "distinct_interleavings": {"count": sum(o["distinct"] for o in outs.values()),
                                   "measure": "hash of the complete event log (every decision, delivery and fault) of non-trivial runs"},
        "determinism_rechecks": sum(o["rechecked"] for o in outs.values()),
        "rechecks_that_needed_earlier_runs": sum(o["history_dependent"] for o in outs.values()),
        "per_configuration": {c: {k: o[k] for k in ("runs", "nontrivial", "distinct", "events", "batch_s", "workers")} for c, o in outs.items()},
        "components_real": any_["real"],
        "components_simulated": any_["stub"],
        "build_s": round(t_build, 2),
        "replays": [os.path.join("replays", "%s_%s_seed%d.replay" % (prop, c, seed)) for c, o in outs.items() if o["violation"]],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": [a.strip() for a in any_["assumptions"].split(";") if a.strip()], "wall_s": round(wall, 2), "violations": nviol}
    tmp = os.path.join(EVID, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))


def all_props():
    return sorted(os.path.basename(p)[:-4].upper() for p in glob.glob(os.path.join(SIM, "c[0-9][0-9].cpp")))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--factor", type=int, default=0)
    ap.add_argument("--build-all", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--config")
    a = ap.parse_args()
    try:
        if a.build_all:
            build(all_props())
            return 0
        if a.replay:
            return replay(a.replay)
        factor = a.factor or (60 if a.tier == "thorough" else 2)
        return decide(a.prop, a.tier if a.tier in ("quick", "thorough") else "quick", a.seed, factor, [a.config] if a.config else None)
    except BuildError as e:
        print("ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
