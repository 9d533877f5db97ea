#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds the simulator from /repo's working tree, explores seeded runs of the
property's workloads on all cores and reports.  Exit 0: held on everything
explored.  Exit 1 with a VIOLATION line: broken.  Anything else: no answer.
"""
import json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "build", "sim")
OUT = os.path.join(HERE, "build", "out")
EVIDENCE = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")

RULE = (
    "Each case is one simulated run: a seeded plan (operations, parameters, "
    "scheduling strategy, faults) executed in its own process tree, from an "
    "empty directory, through one or more incarnations of the real code.  A "
    "case counts as distinct by the hash of its sequence of synchronisation "
    "and storage events together with the thread that performed each; every "
    "case drives the real code through at least one operation of the "
    "property's workload and is judged by the model.")

REAL = ("all of src/, gcl/ and meadowlark/ of the repository, compiled from "
        "the working tree; zlib; libstdc++")
STUB = ("thread scheduling, condition variables, clocks, sleeping, hardware "
        "concurrency, random devices, memory allocation failures, the file "
        "system's calls (performed in a scratch directory, with faults "
        "injected), process death (the process is ended at the chosen "
        "operation; what had been written before stays)")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          text=True, errors="backslashreplace", **kw)


def build():
    t = time.time()
    r = sh([os.path.join(HERE, "build.sh")], cwd=HERE)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-4000:] + r.stderr[-4000:])
        print("the simulator does not build")
        sys.exit(3)
    return time.time() - t


def findings(prop):
    """Recorded, unrepaired defects: lines "known: property=ID replay=FILE
    match=/REGEX/ WHAT"; lines "fixed: ..." suppress nothing."""
    known = []
    for line in open(KNOWN):
        m = re.match(r"known: property=(\S+) replay=(\S+) match=/(.*?)/ (.*)$",
                     line.strip())
        if m and m.group(1) == prop:
            known.append({"replay": m.group(2), "match": m.group(3),
                          "what": m.group(4)})
    return known


def replay(path):
    """The violation class a plan shows in a fresh process, None, or an error."""
    r = sh([SIM, "replay", path])
    if r.returncode == 0:
        return None, r.stdout
    if r.returncode == 1:
        m = re.search(r"^VIOLATED class=(.*)$", r.stdout, re.M)
        return m.group(1), r.stdout
    return False, r.stdout + r.stderr


def add(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            add(a.setdefault(k, {}), v)
        elif isinstance(v, list):
            continue
        elif k in ("max_threads", "wall_s"):
            a[k] = max(a.get(k, 0), v)
        else:
            a[k] = a.get(k, 0) + v


def main():
    sys.stdout.reconfigure(errors="backslashreplace")
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER",
                                                                "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    seconds = float(os.environ.get("SIM_SECONDS",
                                   "30" if tier == "quick" else "600"))
    t0 = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    build_s = build()
    shutil.rmtree(OUT, ignore_errors=True)
    os.makedirs(OUT)

    status, lines = 0, []
    # a finding that is recorded, not repaired, must still be what it was
    for f in findings(prop):
        cls, text = replay(os.path.join(HERE, f["replay"]))
        if cls and re.search(f["match"], text):
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))

    # determinism of this build, on a sample: the same seeds, twice in this
    # process and once more in another one
    probe = [sh([SIM, "selftest", prop, str(seed), "0", "4"]) for _ in (0, 1)]
    diverged = (probe[0].stdout != probe[1].stdout or
                "DIVERGED" in probe[0].stdout)

    workers = min(8, os.cpu_count() or 1)
    procs = []
    for w in range(workers):
        procs.append(subprocess.Popen(
            [SIM, "explore", prop, str(seed), str(w), str(workers),
             str(seconds), "0", "1" if tier == "thorough" else "0",
             os.path.join(OUT, str(w))],
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
            errors="backslashreplace"))
    done, found = set(), None
    while len(done) < workers:
        time.sleep(0.05)
        for w, p in enumerate(procs):
            if w in done or p.poll() is None:
                continue
            done.add(w)
            if p.returncode != 0 and found is None:
                found = (w, p.returncode, p.stderr.read())
        if found is not None and found[1] == 1:
            for w, p in enumerate(procs):  # they clean up after themselves
                if p.poll() is None:
                    p.terminate()
            for p in procs:
                p.wait()
            break
    explore_s = time.time() - t0 - build_s

    total, schedules = {}, set()
    for w in range(workers):
        f = os.path.join(OUT, "%d.stats" % w)
        if os.path.exists(f):
            s = json.load(open(f, errors="backslashreplace"))
            schedules.update(s["schedules"])
            add(total, s)

    where = None
    if found is not None:
        w, rc, err = found
        if rc != 1:
            status = 3
            lines.append("no answer: " + (err or "").strip())
        else:
            plan = os.path.join(OUT, "%d.plan" % w)
            cls, text = replay(plan)
            if not cls:
                status = 3
                lines.append("no answer: a violation did not replay: " + text)
            else:
                small = os.path.join(OUT, "min.plan")
                budget = 45 if tier == "quick" else 180
                r = sh([SIM, "minimise", plan, small, str(budget)])
                where = os.path.join(EVIDENCE, prop + ".replay")
                use = plan
                if r.returncode == 0:
                    c2, t2 = replay(small)
                    if c2 == cls:
                        use, text = small, t2
                shutil.copy(use, where)
                status = 1
                for f in findings(prop):
                    if re.search(f["match"], text):
                        status = 3  # the generator is meant to avoid these
                lines.append(text.strip())
                lines.append("VIOLATION property=%s replay=%s" % (prop, where))
    samples = []
    r = sh([SIM, "plan", prop, str(seed), "0"])
    samples.append(r.stdout)
    if where:
        samples.append(open(where, errors="backslashreplace").read()[:20000])
    wall = time.time() - t0
    runs = total.get("runs", 0)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(schedules),
            "rule": RULE,
            "samples": samples,
            "runs_per_hour": int(runs / explore_s * 3600) if explore_s else 0,
            "seeds": sum(total.get("workloads", {}).values()),
            "seeds_per_hour": int(sum(total.get("workloads", {}).values()) /
                                  explore_s * 3600) if explore_s else 0,
            "simulated_seconds": total.get("sim_seconds", 0),
            "incarnations": total.get("incarnations", 0),
            "runs_with_faults": total.get("faulted_runs", 0),
            "faults_fired": total.get("fired", {}),
            "crash_sites": total.get("crash_sites", {}),
            "error_sites": total.get("error_sites", {}),
            "fail_stops_after_an_injected_error": total.get("fail_stops", 0),
            "memory_accesses_scheduled": total.get("steps", 0),
            "synchronisation_points": total.get("sync_points", 0),
            "context_switches": total.get("switches", 0),
            "preemptions": total.get("preemptions", 0),
            "threads": total.get("threads", 0),
            "most_threads_at_once": total.get("max_threads", 0),
            "storage_operations": total.get("io", {}),
            "strategies": total.get("strategies", {}),
            "workloads": total.get("workloads", {}),
            "rare_conditions_hit": total.get("probe_names", {}),
            "determinism_sample": {
                "seeds": 4, "executions_of_each": 6, "diverged": diverged},
            "real_code": REAL, "stubs": STUB,
            "build_s": round(build_s, 1), "workers": workers,
        },
        "assumptions": [
            "a crash ends the process; data the process had handed to the "
            "operating system before stays (no power failure)",
            "sequentially consistent memory: the simulator interleaves "
            "accesses, it does not reorder them",
        ],
        "wall_s": round(wall, 1),
        "violations": 1 if status == 1 else 0,
    }
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for line in lines:
        print(line)
    if status == 0:
        print("%s: held on %d runs (%d distinct), %d with faults, in %.0f s" %
              (prop, runs, len(schedules), total.get("faulted_runs", 0), wall))
    sys.exit(status)


if __name__ == "__main__":
    main()
