#!/usr/bin/env python3
"""Driver of the simulation checks.

  check.py <property>            run the check (VERIF_SEED, VERIF_TIER)
  check.py --replay <file>       re-run a replay file; exit 1 if the violation shows again
  check.py --build [<property>]  only build
  check.py --list

Exit status of a check: 0 the property held on everything explored, 1 a violation was
found, confirmed and minimised, 2 the machinery itself failed.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("OBAKE_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
NPROC = min(8, os.cpu_count() or 1)
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402

CXX = "clang++"
WRAP = """pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_mutex_init pthread_mutex_destroy
pthread_rwlock_wrlock pthread_rwlock_rdlock pthread_rwlock_trywrlock pthread_rwlock_tryrdlock pthread_rwlock_unlock
pthread_once pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast
pthread_cond_init pthread_cond_destroy pthread_mutex_timedlock pthread_mutex_clocklock syscall sched_yield nanosleep clock_nanosleep pthread_create pthread_join pthread_detach pthread_self
_ZNSt6thread20hardware_concurrencyEv __assert_fail dladdr""".split()
INSTR = ("-std=c++20 -O1 -g1 -w -fno-pie -fsanitize=thread -femulated-tls -mllvm -tsan-instrument-func-entry-exit=0 "
         "-DFMT_HEADER_ONLY").split()
PLAIN = "-std=c++20 -O2 -g1 -w -fno-pie".split()


def die(msg):
    print("check error: " + msg, flush=True)
    sys.exit(2)


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            h.update(open(root, "rb").read())
            continue
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".hpp", ".h", ".in", ".ipp")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def gen_config():
    """config.hpp as CMake would make it from the template."""
    t = open(os.path.join(R, "config.hpp.in")).read()
    ver = "0.0.0"
    try:
        m = re.search(r"project\(obake\s+VERSION\s+([0-9.]+)", open(os.path.join(R, "CMakeLists.txt")).read())
        if m:
            ver = m.group(1)
    except OSError:
        pass
    ma, mi, pa = (ver.split(".") + ["0", "0"])[:3]
    for k, v in (("obake_VERSION", ver), ("obake_VERSION_MAJOR", ma), ("obake_VERSION_MINOR", mi), ("obake_VERSION_PATCH", pa)):
        t = t.replace("@%s@" % k, v)
    t = re.sub(r"@[A-Za-z0-9_]+@", "", t)
    h = hashlib.sha256(t.encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "gen-" + h)
    f = os.path.join(d, "obake", "config.hpp")
    if not os.path.exists(f):
        os.makedirs(os.path.dirname(f), exist_ok=True)
        tmp = f + ".%d" % os.getpid()
        open(tmp, "w").write(t)
        os.replace(tmp, f)
    return d


class Builder:
    def __init__(self):
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        self.gen = gen_config()
        self.inc = ["-I" + os.path.join(V, "stubs"), "-I" + os.path.join(V, "sim"), "-I" + os.path.join(V, "work"),
                    "-I" + self.gen, "-I" + os.path.join(R, "include")]
        self.hh = tree_hash(os.path.join(R, "include"), os.path.join(V, "stubs"), os.path.join(V, "sim"),
                            os.path.join(V, "work"), os.path.join(self.gen, "obake", "config.hpp"))

    def obj(self, src, flags, instr=True, extra=b""):
        key = hashlib.sha256((self.hh if instr else tree_hash(os.path.join(V, "sim"))).encode() + open(src, "rb").read()
                             + " ".join(flags).encode() + extra + src.encode()).hexdigest()[:32]
        out = os.path.join(BUILD, "obj", os.path.basename(src).replace(".cpp", "") + "-" + key + ".o")
        if os.path.exists(out):
            os.utime(out)
            return out, None
        tmp = out + ".%d.tmp" % os.getpid()
        cmd = [CXX] + flags + self.inc + ["-c", src, "-o", tmp]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return out, "compilation of %s failed:\n%s" % (src, p.stdout[-4000:])
        if "libbacktrace" in os.path.basename(src):
            # It never shares a program with the other implementation: their helpers may well have the same names.
            syms = [l.split() for l in subprocess.run(["nm", "-g", "--defined-only", tmp], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
            loc = [x[2] for x in syms if len(x) == 3 and x[1] in "TDBRG" and "lbt_stack_trace_impl" not in x[2]]
            if loc and subprocess.run(["objcopy"] + ["--localize-symbol=" + x for x in loc] + [tmp]).returncode:
                return out, "objcopy failed"
        os.replace(tmp, out)
        return out, None

    def build(self, sources, opt=(), lib_opt=()):
        """sources: workload files, possibly with the parts wanted ("f.cpp:0,2"). Returns the executable."""
        jobs = []
        for s in sources:
            s, _, only = s.partition(":")
            only = set(map(int, only.split(","))) if only else None
            path = os.path.join(V, "work", s)
            m = re.search(r"^// PARTS (\d+)", open(path).read(), re.M)
            if m:
                # Some parts may be compiled like release builds (no assertions; their coefficient types are distinct ones).
                rel = re.search(r"^// RELEASE ([\d ]+)", open(path).read(), re.M)
                rel = set(map(int, rel.group(1).split())) if rel else set()
                # One part may run on the alternative implementation of stack traces, which is renamed to live beside the other.
                lbt = re.search(r"^// LIBBACKTRACE (\d+)", open(path).read(), re.M)
                ren = ["-Dstack_trace_impl=lbt_stack_trace_impl", "-Dstack_trace=lbt_stack_trace"]
                for k in range(int(m.group(1))):
                    if only is not None and k not in only:
                        continue
                    x = ren if lbt and k == int(lbt.group(1)) else []
                    jobs.append((path, INSTR + list(opt) + ["-DPART=%d" % k] + (["-DNDEBUG"] if k in rel else []) + x, True))
                if lbt:
                    jobs.append((os.path.join(R, "src", "libbacktrace_stack_trace.cpp"), INSTR + list(lib_opt) + ren, True))
            else:
                jobs.append((path, INSTR + list(opt), True))
        for d, _, files in sorted(os.walk(os.path.join(R, "src"))):
            for f in sorted(files):
                if f.endswith(".cpp") and "libbacktrace" not in f:
                    jobs.append((os.path.join(d, f), INSTR + list(lib_opt), True))
        jobs.append((os.path.join(V, "sim", "sim.cpp"), PLAIN, False))
        with cf.ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(lambda j: self.obj(*j), jobs))
        for _, err in res:
            if err:
                die(err)
        objs = [o for o, _ in res]
        key = hashlib.sha256("\n".join(objs).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, "x-" + key)
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            cmd = [CXX, "-static"] + objs + ["-Wl,--wrap=" + w for w in WRAP] + ["-lboost_serialization", "-ldl", "-o", tmp]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                die("link failed:\n" + p.stdout[-4000:])
            os.replace(tmp, exe)
        self.clean()
        return exe

    def clean(self):
        """Keep the build folder from growing without bound."""
        for d, keep in ((os.path.join(BUILD, "obj"), 400), (BUILD, 40)):
            fs = [os.path.join(d, f) for f in os.listdir(d)]
            fs = [f for f in fs if os.path.isfile(f)]
            if len(fs) > keep:
                def age(f):
                    try:
                        return os.path.getmtime(f)
                    except OSError:
                        return 0.0

                fs.sort(key=age)
                for f in fs[:len(fs) - keep]:
                    try:
                        os.unlink(f)
                    except OSError:
                        pass


def run_json(cmd, env=None, timeout=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, timeout=timeout, errors="replace")
    out = []
    for line in p.stdout.splitlines():
        if line.startswith("{"):
            try:
                out.append(json.loads(line, strict=False))
            except ValueError:
                die("bad output line: " + line[:300])
    if os.environ.get("SIM_WATCH") or os.environ.get("SIM_BT"):
        sys.stderr.write(p.stderr)
    return p.returncode, out, p.stderr


def write_trace(path, rec):
    with open(path, "w") as f:
        f.write("workload %s\nseed %d\ncls %s\n" % (rec["workload"], rec["seed"], rec["cls"]))
        if rec.get("param"):
            f.write("param %s\n" % rec["param"])
        for w in rec["W"]:
            f.write("w %d\n" % w)
        for a, b in rec["S"]:
            f.write("s %d %d\n" % (a, b))
        for a, b, c in rec["F"]:
            f.write("f %d %d %d\n" % (a, b, c))


def load_known():
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k.get("status") == "known"]


def is_known(prop, wl, v):
    for k in load_known():
        if k["status"] != "fixed" and prop in k["property"].split() and re.fullmatch(k["workload"], wl) and k["cls"] == v["cls"] and re.search(k["match"], v["msg"]):
            return k
    return None


def confirm(exe, prop, wl, v, env, min_secs):
    """Same seed twice, in fresh processes; then minimise; then replay the file in fresh processes."""
    runs = [run_json([exe, "one", wl, str(v["seed"]), "traces"], env)[1][-1] for _ in range(2)]
    for r in runs:
        if r["status"] != "violation" or r["cls"] != v["cls"] or r["event_hash"] != v["event_hash"]:
            die("a violation of %s did not repeat: workload %s seed %d: %s / %s" % (prop, wl, v["seed"], v["cls"], r["cls"]))
    d = os.path.join(V, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, "%s-%s-%d" % (prop, wl, v["seed"]))
    rec = dict(property=prop, workload=wl, param=env.get("SIM_PARAM", ""), tier=env["VERIF_TIER"], **runs[0])
    tr = base + ".trace"
    write_trace(tr, rec)
    full = rec
    r = run_json([exe, "replay", tr], env)[1][-1]
    minimised = False
    if r["status"] == "violation" and r["cls"] == v["cls"]:
        try:
            m = run_json([exe, "min", tr, str(min_secs)], env, timeout=min_secs * 4 + 120)[1][-1]
        except (subprocess.TimeoutExpired, IndexError):
            m = None
        if m and m["status"] == "violation" and m["cls"] == v["cls"]:
            cand = dict(property=prop, workload=wl, param=rec["param"], tier=rec["tier"], **m)
            write_trace(tr, cand)
            again = [run_json([exe, "replay", tr], env)[1][-1] for _ in range(2)]
            if all(a["status"] == "violation" and a["cls"] == v["cls"] and a["event_hash"] == again[0]["event_hash"] for a in again):
                rec = dict(cand, **again[0])
                minimised = True
    if not minimised:
        # Fall back to the seed itself, which was confirmed above.
        rec = dict(full, by_seed=True)
    rec["original_sizes"] = {"choices": len(full["W"]), "schedule": len(full["S"]), "faults": len(full["F"])}
    rec["minimised_sizes"] = {"choices": len(rec["W"]), "schedule": len(rec["S"]), "faults": len(rec["F"])}
    rec["how_to_replay"] = "python3 /verif/check.py --replay <this file>"
    out = base + ".json"
    json.dump(rec, open(out, "w"))
    try:
        os.unlink(tr)
    except OSError:
        pass
    return out, rec


def replay(path):
    rec = json.load(open(path))
    spec = CHECKS[rec["property"]]
    exe = Builder().build(spec["sources"], spec.get("opt", ()), spec.get("lib_opt", ()))
    env = {"VERIF_TIER": rec.get("tier", "quick"), "SIM_PARAM": rec.get("param", "")}
    if rec.get("by_seed"):
        r = run_json([exe, "one", rec["workload"], str(rec["seed"]), "traces"], env)[1][-1]
    else:
        tr = os.path.join(BUILD, "replay-%d.trace" % os.getpid())
        write_trace(tr, rec)
        r = run_json([exe, "replay", tr], env)[1][-1]
        os.unlink(tr)
    same = r["status"] == "violation" and r["cls"] == rec["cls"]
    print("%s: %s" % (r["cls"] or r["status"], r["msg"]))
    print("reproduced %s; history hash %s" % ("yes" if same else "NO", "identical" if r["event_hash"] == rec["event_hash"] else "differs"))
    return 1 if same else 0


def selftest():
    """Setup: check that the tools are there and that the simulator itself detects what it should."""
    for tool in (CXX,):
        if subprocess.run([tool, "--version"], stdout=subprocess.DEVNULL).returncode:
            die("%s is missing" % tool)
    b = Builder()
    exe = b.build(["selftest.cpp"])
    want = {"st_race": "data-race", "st_deadlock": "deadlock", "st_leak": "leak", "st_uaf": "use-after-free",
            "st_spin": "no-progress", "st_ok": "", "st_static": "", "st_std": "", "st_fault": "", "st_tbb": "", "st_wait": "", "st_lost": "deadlock"}
    for wl, cls in want.items():
        seen = set()
        for sd in range(2 if wl == "st_spin" else 40):
            r = run_json([exe, "one", wl, str(sd)], {"VERIF_TIER": "quick", "SIM_PARAM": ""})[1][-1]
            seen.add(r["cls"] if r["status"] == "violation" else "")
        if (cls and cls not in seen) or (not cls and seen != {""}) or not seen <= {cls, ""}:
            die("self-test %s: expected '%s', got %s" % (wl, cls, sorted(seen)))
    print("simulator self-test passed")
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--list":
        for k, s in CHECKS.items():
            print(k, [w[0] for w in s["workloads"]])
        return 0
    if sys.argv[1] == "--build":
        b = Builder()
        for p in sys.argv[2:] or CHECKS:
            print(p, b.build(CHECKS[p]["sources"], CHECKS[p].get("opt", ()), CHECKS[p].get("lib_opt", ())))
        return 0
    if sys.argv[1] == "--selftest":
        return selftest()
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    spec = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    print("seed %d tier %s property %s" % (seed, tier, prop), flush=True)
    t0 = time.time()
    b = Builder()
    exe = b.build(spec["sources"], spec.get("opt", ()), spec.get("lib_opt", ()))
    t_build = time.time() - t0
    secs = float(os.environ.get("VERIF_SECS", spec.get("quick", 40) if tier == "quick" else spec.get("thorough", 600)))
    tw = sum(w[1] for w in spec["workloads"])
    base = (seed % 1000003) * 10_000_000_000
    agg = {"runs": 0, "ok": 0, "violations": 0, "errors": 0, "known": 0, "nontrivial": 0, "ticks": 0, "switches": 0,
           "distinct_schedules": 0, "distinct_states": 0, "distinct_histories": 0, "runs_with_fault": 0}
    fired, probes, per_wl, samples, bad, known_hits = {}, {}, {}, [], [], {}
    t_run = 0.
    selfcheck = 0
    for wl, weight, *rest in spec["workloads"]:
        env = {"VERIF_TIER": tier, "SIM_PARAM": rest[0] if rest else "",
               "SIM_KNOWN": "\n".join(k["cls"] + "\t" + k["match"] for k in load_known() if prop in k["property"].split() and re.fullmatch(k["workload"], wl))}
        # Determinism: the same seeds in two fresh processes must give identical histories.
        k = 24 if tier == "quick" else 200
        hs = []
        with cf.ThreadPoolExecutor(NPROC) as ex:
            fs = [ex.submit(subprocess.run, [exe, "hashes", wl, str(base + 7_000_000_000 + i * k), str(k)], stdout=subprocess.PIPE, text=True,
                            env=dict(os.environ, **env)) for i in range(NPROC // 2) for _ in range(2)]
            hs = [f.result().stdout for f in fs]
        for i in range(0, len(hs), 2):
            if hs[i] != hs[i + 1]:
                die("the simulation of %s is not deterministic:\n%s\n---\n%s" % (wl, hs[i][:800], hs[i + 1][:800]))
            selfcheck += len(hs[i].splitlines())
        share = secs * weight / tw
        t1 = time.time()
        with cf.ThreadPoolExecutor(NPROC) as ex:
            fs = [ex.submit(run_json, [exe, "batch", wl, str(base + i), "100000000", "%.2f" % share, str(NPROC)], env) for i in range(NPROC)]
            res = [f.result() for f in fs]
        t_run += time.time() - t1
        mine = {"runs": 0, "nontrivial": 0, "distinct_schedules": 0, "distinct_states": 0}
        for rc, out, err in res:
            if rc or not out or not out[-1].get("summary"):
                die("workload %s ended with status %d: %s" % (wl, rc, err[-1000:]))
            s = out[-1]
            for key in agg:
                agg[key] += s[key]
            for key in mine:
                mine[key] += s[key]
            for kind, (f, n) in s["fired"].items():
                a = fired.setdefault(kind, [0, 0])
                a[0] += f
                a[1] += n
            for name, (n, r) in s["probes"].items():
                a = probes.setdefault(name, [0, 0])
                a[0] += n
                a[1] += r
            for o in out[:-1]:
                if o["status"] == "error":
                    die("harness error in workload %s seed %d: %s" % (wl, o["seed"], o["msg"]))
                if o["status"] == "violation":
                    kf = is_known(prop, wl, o)
                    if kf:
                        known_hits.setdefault(kf["id"], kf)
                    else:
                        bad.append((wl, env, o))
                elif len(samples) < 6:
                    samples.append("%s seed %d: %d steps, %d thread switches, history %s, faults %s, probes %s" % (
                        wl, o["seed"], o["ticks"], o["switches"], o["event_hash"], json.dumps(o["fired"]), json.dumps(o["probes"])))
        per_wl[wl] = mine
        if bad:
            break
    rc = 0
    if bad:
        # The smallest histories first, one report per class.
        bad.sort(key=lambda x: (x[2]["ticks"], x[2]["seed"]))
        seen = set()
        for wl, env, o in bad:
            if (wl, o["cls"]) in seen or len(seen) >= 2:
                continue
            seen.add((wl, o["cls"]))
            path, rec = confirm(exe, prop, wl, o, env, 25 if tier == "quick" else 120)
            print("violation class: %s\n  %s\n  workload %s, seed %d, minimised to %s" % (rec["cls"], rec["msg"], wl, o["seed"], json.dumps(rec["minimised_sizes"])))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            samples.insert(0, "VIOLATION %s seed %d: %s: %s" % (wl, o["seed"], rec["cls"], rec["msg"][:500]))
        rc = 1
    for k in load_known():
        if k["status"] != "fixed" and prop in k["property"].split():
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    wall = time.time() - t0
    missed = []
    for need in spec.get("probes", []):
        if not probes.get(need, [0])[0] and not bad:
            missed.append(need)
            print("warning: probe '%s' was never hit: the workload did not reach what it should" % need)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": agg["nontrivial"],
            "rule": spec["rule"] + " A run is non-trivial if it reached that; runs with the same history hash are counted once per process.",
            "samples": samples,
            "exhaustive": False,
            "runs_per_hour": int(agg["runs"] / max(t_run, 1e-9) * 3600),
            "seeds_per_hour": int(agg["runs"] / max(t_run, 1e-9) * 3600),
            "simulated_time_steps": agg["ticks"],
            "simulated_time_note": "the code has no clocks; simulated time is counted in scheduling steps (instrumented memory accesses, atomics and synchronisation operations)",
            "thread_switches": agg["switches"],
            "distinct_schedules": agg["distinct_schedules"],
            "distinct_schedules_measure": "hash of the sequence of (step, thread switched to), per process",
            "distinct_states": agg["distinct_states"],
            "distinct_states_measure": spec.get("states", "hash of the workload's abstract state (sizes, segmentation, limits, outcome), per process"),
            "faults_injected": {k: {"fired": v[0], "sites_passed": v[1]} for k, v in sorted(fired.items())},
            "runs_with_a_fault": agg["runs_with_fault"],
            "probes": {k: {"hits": v[0], "runs": v[1]} for k, v in sorted(probes.items())},
            "probes_never_hit": missed,
            "workloads": per_wl,
            "determinism_selfcheck_runs": selfcheck,
            "real_components": spec.get("real", "all obake headers used and all obake sources, Boost (containers, flyweight, serialization, stacktrace), libstdc++"),
            "stub_components": spec.get("stubs", "TBB (simulated scheduler), mp++ (small reimplementation), pthread mutexes, threads and thread-locals, operator new/delete, hardware_concurrency(), streambufs"),
            "build_s": round(t_build, 1),
        },
        "assumptions": spec.get("assumptions", []) + [
            "sequentially consistent interleavings of instrumented accesses plus a vector-clock race detector; no weak-memory reordering is executed",
            "sampling: a clean run is evidence, not proof",
        ],
        "wall_s": round(wall, 1),
        "violations": len(bad),
        "runs_stopped_by_a_known_finding": agg["known"],
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d runs (%d non-trivial, %d schedules), %d steps, %.0f s build, %.0f s total, %s" % (
        prop, agg["runs"], agg["nontrivial"], agg["distinct_schedules"], agg["ticks"], t_build, wall,
        "VIOLATED" if rc else "held"))
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:  # noqa: B902
        import traceback
        traceback.print_exc()
        print("check error: %r" % (e,))
        sys.exit(2)
