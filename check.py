#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property by deterministic simulation.

Builds the simulator against /repo's working tree, explores seeds on all cores, replays and minimises
what it finds, and writes evidence/<property>.json. Exit 0: held on everything explored; exit 1 with a
VIOLATION line: broken; anything else is an error of the check itself."""
import collections
import json
import os
import shutil
import struct
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as builder  # noqa: E402
import catalogue  # noqa: E402

JOBS = max(1, min(8, os.cpu_count() or 1))


def fail(msg):
    print("ERROR: " + msg)
    sys.exit(3)


def run_plan(exe, path, timeout=120):
    try:
        p = subprocess.run([exe, "run", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None
    try:
        return json.loads(p.stdout.decode("utf-8", "replace").strip().splitlines()[-1])
    except (ValueError, IndexError):
        return None


def split_plan(path):
    head, lines = [], []
    for l in open(path, encoding="latin-1").read().splitlines():
        if l.startswith("#") or l.split(" ")[0] in ("scenario", "seed", "plan", "v1"):
            head.append(l)
        elif l.strip():
            lines.append(l)
    return head, lines


def minimise(exe, path, out, cls, deadline):
    """Drop lines of the plan (operations, faults, switches) while the class of violation stays."""
    head, lines = split_plan(path)
    tmpdir = out + ".d"
    os.makedirs(tmpdir, exist_ok=True)

    def bad(cand, slot):
        f = os.path.join(tmpdir, "c%d.plan" % slot)
        with open(f, "w", encoding="latin-1") as h:
            h.write("\n".join(head + cand) + "\n")
        r = run_plan(exe, f)
        return bool(r and r["violation"] and r["class"] == cls)

    n = 2
    with ThreadPoolExecutor(JOBS) as pool:
        while len(lines) > 1 and time.time() < deadline:
            size = max(1, (len(lines) + n - 1) // n)
            cands = [lines[:i] + lines[i + size:] for i in range(0, len(lines), size)]
            hit = None
            for g in range(0, len(cands), JOBS):
                if time.time() > deadline:
                    break
                res = list(pool.map(bad, cands[g:g + JOBS], range(JOBS)))
                for c, b in zip(cands[g:g + JOBS], res):
                    if b:
                        hit = c
                        break
                if hit is not None:
                    break
            if hit is not None:
                lines = hit
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(lines), n * 2)
    with open(out, "w", encoding="latin-1") as h:
        h.write("\n".join(head + lines) + "\n")
    shutil.rmtree(tmpdir, ignore_errors=True)
    return len(lines)


def findings(prop):
    """[(class+key, text)] of the known findings of a property, and the fixed ones (which suppress nothing)."""
    known = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                # finding: property=P01 class=<class> key=<key> <what fails>
                f = l.split(None, 4)
                if f[1] == "property=" + prop:
                    known.append((f[2].split("=", 1)[1] + " " + f[3].split("=", 1)[1], f[4]))
    return known


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in catalogue.CHECKS:
        fail("usage: check.py <property>")
    prop = sys.argv[1]
    c = catalogue.CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    budget = float(os.environ.get("VERIF_TIME") or c[tier])
    print("property=%s tier=%s seed=%d jobs=%d" % (prop, tier, seed, JOBS))
    t0 = time.time()

    root = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
    os.makedirs(root, exist_ok=True)
    kinds = sorted({p["build"] for p in c["parts"]})
    try:
        exes = builder.build(root, kinds, os.path.join(root, "build-%s.log" % prop))
    except Exception as e:  # a tree that does not compile is not a violation
        fail("cannot build the simulator: %s" % e)
    tbuild = time.time() - t0

    work = os.path.join(root, "work", prop)
    shutil.rmtree(work, ignore_errors=True)
    known = findings(prop)
    classes = ",".join(c["classes"])
    total = collections.Counter()
    scen = collections.Counter()
    others = collections.Counter()
    knownhits = collections.Counter()
    distinct = set()
    runs = steps = events = 0
    samples, found = [], []
    wall = 0.0
    weight = sum(p.get("weight", 1) for p in c["parts"])
    for k, part in enumerate(c["parts"]):
        d = os.path.join(work, str(k))
        os.makedirs(d)
        kf = os.path.join(d, "known")
        with open(kf, "w") as h:
            h.write("".join(x + "\n" for x, _ in known))
        share = budget * part.get("weight", 1) / weight
        t1 = time.time()
        procs = []
        for w in range(JOBS):
            procs.append(subprocess.Popen(
                [exes[part["build"]], "explore", "--scenarios=" + part["scenarios"], "--seed=%d" % seed,
                 "--worker=%d" % w, "--stride=%d" % JOBS, "--time=%g" % share, "--out=" + d, "--classes=" + classes,
                 "--known=" + kf, "--maxkeys=2"] + part.get("options", []),
                stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
        for w, p in enumerate(procs):
            try:
                err = p.communicate(timeout=share + 300)[1]
            except subprocess.TimeoutExpired:
                for q in procs:
                    q.kill()
                fail("worker %d does not end" % w)
            if p.returncode not in (0, 1) or not os.path.exists(os.path.join(d, "w%d.json" % w)):
                fail("worker %d ended with %d: %s" % (w, p.returncode, err.decode("utf-8", "replace")[-2000:]))
        wall += time.time() - t1
        for w in range(JOBS):
            r = json.load(open(os.path.join(d, "w%d.json" % w)))
            runs += r["runs"]
            steps += r["steps"]
            events += r["events"]
            total.update(r["counters"])
            scen.update(r["scenarios"])
            others.update(r["others"])
            knownhits.update(r["known"])
            if w < 2 and len(samples) < 4:
                samples += r["samples"][:1]
            for v in r["violations"]:
                v["build"] = part["build"]
                found.append(v)
            b = open(os.path.join(d, "w%d.distinct" % w), "rb").read()
            distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        if found:
            break  # enough is known

    # every violation: twice in fresh processes, the same history each time
    reported = []
    unsure = 0
    seen = set()
    for v in sorted(found, key=lambda v: os.path.getsize(v["plan"])):
        k = v["class"] + " " + v["key"]
        if k in seen or len(reported) >= 3:
            continue
        seen.add(k)
        exe = exes[v["build"]]
        a, b = run_plan(exe, v["plan"]), run_plan(exe, v["plan"])
        same = a and b and a["violation"] and b["violation"] and a["class"] == b["class"] == v["class"]
        if not same:
            # e.g. memory that the broken code reads without having written it: another one may replay
            print("seed %d run %d: %s %s does not replay: %s / %s" % (seed, v["run"], v["class"], v["key"], a, b))
            unsure += 1
            continue
        exact = a["hash"] == b["hash"] or v["class"] == "hang"
        if not exact:
            print("note: the two replays agree on the violation, but not on every event before it")
        d = os.path.join(root, "replay")
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, "%s-%d-%d.plan" % (prop, seed, v["run"]))
        lines = minimise(exe, v["plan"], out, v["class"], time.time() + (60 if tier == "quick" else 300))
        a, b = run_plan(exe, out), run_plan(exe, out)
        if not (a and b and a["violation"] and b["violation"] and a["class"] == v["class"] == b["class"]) or \
                (exact and v["class"] != "hang" and a["hash"] != b["hash"]):
            out2 = out
            shutil.copyfile(v["plan"], out2)
            a = run_plan(exe, out2) or v
        print("--- %s: %s\n%s" % (a["class"], a["key"], a["msg"][:1800]))
        print("found by seed %d run %d of scenario %s; minimised to %d lines; replay: %s run %s" %
              (seed, v["run"], v["scenario"], lines, exe, out))
        reported.append(out)

    for k, text in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))

    faults = {n.split(".", 1)[1]: x for n, x in sorted(total.items()) if n.startswith("fault.") and x}
    never = [n for n, x in sorted(total.items()) if not x and any(n.startswith(p) for p in c.get("probes", ["fault."]))]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(distinct),
            "rule": c["rule"],
            "samples": samples or ["(none)"],
            "runs_per_hour": int(runs / wall * 3600) if wall else 0,
            "simulated_time": {"unit": c.get("unit", "allocation and I/O events of the code under test"), "steps": steps,
                               "history_events": events},
            "scenarios": dict(scen),
            "faults_injected": faults,
            "probes": {n: x for n, x in sorted(total.items()) if x and not n.startswith("fault.")},
            "probes_at_zero": never,
            "known_findings_hit": dict(knownhits),
            "violations_of_other_properties": dict(others),
            "components": c["components"],
            "seconds": {"build": round(tbuild, 1), "search": round(wall, 1)},
        },
        "assumptions": c["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
        h.write("\n")
    shutil.rmtree(work, ignore_errors=True)
    print("%d runs, %d distinct and not trivial, %d steps, %.0f s" % (runs, len(distinct), steps, time.time() - t0))
    if faults:
        print("faults: " + ", ".join("%s %d" % x for x in faults.items()))
    if reported:
        for r in reported:
            print("VIOLATION property=%s replay=%s" % (prop, r))
        sys.exit(1)
    if unsure:
        fail("a violation that does not replay")
    if runs < c.get("min_runs", 50):
        fail("only %d runs" % runs)
    print("held")
    sys.exit(0)


if __name__ == "__main__":
    main()
