#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough: builds the code under test from /repo, runs the seeded search for
one property on all cores, confirms what it finds in a fresh process, and writes the evidence file."""
import collections, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import info  # noqa: E402

ASAN = ("alloc_dealloc_mismatch=0:detect_odr_violation=0:detect_leaks=0:"
        "allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=3")
WORKERS = 8


def die(msg):
    sys.stderr.write("check error: %s\n" % msg)
    print("ERROR " + msg.splitlines()[0][:300])
    sys.exit(2)


def known_findings(prop):
    """Lines: known: property=<id> class=<class> match=<regular expression> :: <what fails>."""
    res = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.*?) :: (.*)$", l.strip())
            if m and m[1] == prop:
                res.append((m[2], re.compile(m[3]), m[4]))
    except FileNotFoundError:
        pass
    return res


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in info.CHECKS:
        die("usage: check.py PROPERTY [quick|thorough]")
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    budget = float(os.environ.get("VERIF_SECONDS") or info.SECONDS[tier].get(prop, info.SECONDS[tier]["*"]))
    t0 = time.time()
    env = dict(os.environ, ASAN_OPTIONS=ASAN)
    p = subprocess.run([sys.executable, os.path.join(VERIF, "tools/build.py")], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, errors="replace")
    if p.returncode:
        die("the code under test does not build: " + p.stderr[-3000:] + p.stdout[-1000:])
    run = os.path.join(p.stdout.strip().splitlines()[-1], "simrun")
    build_s = time.time() - t0
    out = os.path.join(VERIF, "out", "%s_%d" % (prop, os.getpid()))
    os.makedirs(out)
    base = (seed % 1000003) * 100000000 + 1
    limit = budget + 150
    ws = []
    for i in range(WORKERS):
        ws.append(subprocess.Popen([run, "search", prop, str(base + i), str(WORKERS), str(budget), "0", out, tier],
                                   stdout=subprocess.DEVNULL, stderr=open("%s/err%d" % (out, i), "w"), env=env,
                                   start_new_session=True))
    end = time.time() + limit
    for w in ws:
        try:
            w.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            pass
    for w in ws:
        if w.poll() is None:
            os.killpg(w.pid, 9)
            w.wait()
    n = collections.Counter()
    fired, probes = collections.Counter(), collections.Counter()
    scheds, shapes, samples, viol, errs = set(), set(), [], [], []
    for i in range(WORKERS):
        f = os.path.join(out, "w%d.txt" % (base + i))
        lines = open(f, errors="replace").read().splitlines() if os.path.exists(f) else []
        if not lines or lines[-1] != "done":
            tail = open("%s/err%d" % (out, i), errors="replace").read()[-1500:]
            errs.append("worker %d ended without a result: %s" % (i, tail))
            continue
        for l in lines[:-1]:
            k, _, v = l.partition(" ")
            if k == "S":
                scheds.add(v)
            elif k == "C":
                shapes.add(v)
            elif k in ("fired", "probe"):
                a, b = v.rsplit(" ", 1)
                (fired if k == "fired" else probes)[a] += int(b)
            elif k == "sample":
                samples.append(v)
            elif k == "harness_error":
                errs.append(v)
            elif k == "violation":
                fn, cls, h, msg = (v.split(" ", 3) + [""])[:4]
                viol.append((fn, cls, int(h), msg))
            else:
                n[k] += float(v) if k == "seconds" else int(v)
    search_s = time.time() - t0 - build_s
    known = known_findings(prop)
    said, confirmed, unconfirmed = set(), [], []
    for fn, cls, h, msg in viol:
        k = next((x for x in known if x[0] == cls and x[1].search(msg)), None)
        if k:
            if k[2] not in said:
                said.add(k[2])
                print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
            continue
        same, hashes = True, set()
        for _ in range(2):
            r = subprocess.run([run, "replay", fn], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                               errors="replace", env=env, timeout=300)
            same = same and r.returncode == 1 and ("violation " + cls) in r.stdout
            hashes.add(r.stdout.split("\n")[0])
        same = same and len(hashes) == 1
        if same:
            confirmed.append((fn, cls, h, msg))
        else:
            unconfirmed.append(fn)
            errs.append("a %s violation in %s did not reproduce in a fresh process" % (cls, os.path.basename(fn)))
    replays = []
    for fn, cls, h, msg in confirmed:
        dst = os.path.join(VERIF, "out", os.path.basename(fn))
        shutil.copyfile(fn, dst)
        replays.append(dst)
    if not samples:
        samples = ["(no case finished)"]
    c = info.CHECKS[prop]
    try:
        imports = open(os.path.join(os.path.dirname(run), "imports.txt")).read().split()
    except OSError:
        imports = []
    hours = max(1e-9, search_s) / 3600
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": n["cases"], "distinct_nontrivial": min(len(shapes), n["nontrivial"]),
            "rule": c["rule"] + " Distinct: the hash of what is generated (programs, inputs, options, faults) differs.",
            "samples": samples[:12], "exhaustive": False,
            "seeds": n["cases"], "seeds_per_hour": int(n["cases"] / hours),
            "simulated_worlds": n["worlds"], "worlds_per_hour": int(n["worlds"] / hours),
            "simulated_seconds": round(n["sim_us"] / 1e6, 1), "simulated_operations": n["steps"],
            "context_switches": n["switches"],
            "distinct_interleavings": len(scheds),
            "interleaving_measure": "hash of the sequence of (process, operation, bytes moved) decisions of a world",
            "fault_kinds_fired": dict(sorted(fired.items())),
            "rare_conditions_reached": dict(sorted(probes.items())),
            "seeds_run_twice_and_compared": n["twice"], "seeds_skipped": n["skipped"],
            "real_code": c["real"], "unsimulated_imports": imports, "stubs": info.STUBS, "build_s": round(build_s, 1), "search_s": round(search_s, 1),
        },
        "assumptions": c.get("assumptions", []) + info.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (prop, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    keep = os.environ.get("VERIF_KEEP")
    if not keep:
        shutil.rmtree(out)
    print("%s %s: %d seeds, %d worlds, %d interleavings, %d faults fired, %.0f simulated s in %.0f s (+%.0f s build)" % (
        prop, tier, n["cases"], n["worlds"], len(scheds), sum(fired.values()), n["sim_us"] / 1e6, search_s, build_s))
    if replays:
        for (fn, cls, h, msg), dst in zip(confirmed, replays):
            print("  %s: %s" % (cls, msg[:500]))
            print("  replay with: %s/replay.sh %s" % (VERIF, dst))
        print("VIOLATION property=%s replay=%s" % (prop, replays[0]))
        sys.exit(1)
    if errs:
        die("; ".join(errs)[:6000])
    if n["cases"] < 10 or not n["nontrivial"]:
        die("only %d cases ran" % n["cases"])


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:  # anything unexpected is an error of the check, not a verdict
        import traceback
        traceback.print_exc()
        die(repr(e))
