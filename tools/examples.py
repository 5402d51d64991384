#!/usr/bin/env python3
"""C37: run the example programs of /repo and judge what they print (an offline checker over their output).

Everything printed is compared with the goal function recomputed here, with the settings stated in the source of the
example (SPEC) and with the other things printed."""
import fcntl, json, math, os, re, shutil, subprocess, sys, tempfile, time

REPO = "/repo"
EPS = 2.0 ** -23
# name: (function, dimension, bound, threshold, (no-change iterations, delta), max iterations, verbose, agents)
BIG = 10 ** 9
PLAIN = {
    "genetic-paraboloid": ("paraboloid", 5, 100.0, 1e-6, None, 3000, True, 200),
    "genetic-rastrigin": ("rastrigin", 30, 5.12, 1e-4, None, 3000, False, 20),
    "genetic-rosenbrock": ("rosenbrock", 3, 2.0, None, (3000, 1e-9), BIG, True, 600),
    "genetic-schwefel": ("schwefel", 15, 500.0, 1e-4, None, 3000, False, 500),
    "genetic-schwefel-iterative": ("schwefel", 15, 500.0, None, None, 500, False, 500),
    "particleswarm-paraboloid": ("paraboloid", 5, 100.0, 1e-6, (150, 1e-7), 3000, True, 80),
    "particleswarm-rastrigin": ("rastrigin", 3, 5.12, 1e-6, (150, 1e-8), 3000, True, 500),
    "particleswarm-rosenbrock": ("rosenbrock", 3, 2.0, 1e-6, (150, 1e-8), 3000, True, 1000),
    "particleswarm-schwefel": ("schwefel", 3, 500.0, 1e-6, (150, 1e-8), 3000, True, 100),
    "particleswarm-schwefel-iterative": ("schwefel", 3, 500.0, None, None, 150, True, 100),
}
# name: (function, dimension, bound, max iterations, agents, expected component, delta, total runs)
STATS = {
    "particleswarm-rastrigin-statistics-inertia": ("rastrigin", 3, 5.12, 400, 50, 0.0, 0.1, 1000),
    "particleswarm-schwefel-statistics-inertia": ("schwefel", 3, 500.0, 400, 50, 420.9687, 1.0, 1000),
    "particleswarm-schwefel-statistics-full": ("schwefel", 3, 500.0, 1000, 50, 420.9687, 1.0, 1000),
    "particleswarm-schwefel-statistics": ("schwefel", 3, 500.0, 3000, 30, 420.9687, 1.0, 1000),
    "particleswarm-rosenbrock-statistics": ("rosenbrock", 3, 2.0, BIG, 20, 1.0, 1e-2, 1000),
    "genetic-schwefel-statistics": ("schwefel", 3, 500.0, 3000, 100, 420.9687, 1.0, 1000),
    "genetic-rosenbrock-statistics": ("rosenbrock", 3, 2.0, BIG, 700, 1.0, 1e-2, 100),
}
SLOW = ("genetic-schwefel-statistics", "genetic-rosenbrock-statistics")


class Broken(Exception):
    pass


def need(ok, text, *args):
    if not ok:
        raise Broken(text % args if args else text)


def evaluate(name, x, digits):
    """(value, tolerance) for a goal computed in single precision at a point printed with this many decimals"""
    h = 0.5 * 10.0 ** -digits
    n = len(x)
    if name == "paraboloid":
        terms = [(v - (i + 1)) ** 2 for i, v in enumerate(x)]
        slope = sum(2 * abs(v - (i + 1)) for i, v in enumerate(x))
        # the differences are rounded, too
        extra = 0.0
    elif name == "rastrigin":
        terms = [10.0 * n] + [v * v for v in x] + [-10.0 * math.cos(2 * math.pi * v) for v in x]
        slope = sum(2 * abs(v) + 20 * math.pi for v in x)
        extra = sum(20 * math.pi * abs(v) * EPS * 2 for v in x)
    elif name == "schwefel":
        terms = [418.9829 * n] + [-v * math.sin(math.sqrt(abs(v))) for v in x]
        slope = sum(1 + math.sqrt(abs(v)) for v in x)
        extra = sum(abs(v) * math.sqrt(abs(v)) * EPS * 2 for v in x)
    else:
        terms, slope, extra = [], 0.0, 0.0
        for i in range(n - 1):
            d = x[i + 1] - x[i] * x[i]
            terms += [100 * d * d, (1 - x[i]) ** 2]
            slope += 200 * abs(d) * (1 + 2 * abs(x[i])) + 2 * abs(1 - x[i])
            extra += 200 * abs(d) * x[i] * x[i] * EPS * 2 + 100 * (x[i] * x[i] * EPS) ** 2
    size = sum(abs(t) for t in terms)
    # 8 roundings per term and one per addition
    return math.fsum(terms), (len(terms) + 8) * EPS * size + extra + slope * h + len(x) * 1000 * h * h + h


def check_point(fn, dim, bound, x, goal, digits, where):
    need(len(x) == dim, "%s: %d components instead of %d", where, len(x), dim)
    lim = float(bound) * (1 + EPS) + 10.0 ** -digits
    for v in x:
        need(abs(v) <= lim, "%s: %r is outside of the search box", where, v)
    value, tol = evaluate(fn, x, digits)
    need(abs(goal - value) <= tol, "%s: goal %r printed, the function is %r there (tolerance %g)", where, goal, value, tol)


def stops(goals, thr, nochange, limit, first):
    """The iteration at which a run with these best values (of iterations 1, 2, ...) has to stop; None: undecided."""
    old, change = (None, 0) if first is None else (first, 0)
    for it, g in enumerate(goals, 1):
        if it >= limit:
            return it
        if thr is not None:
            if g <= thr:
                return it
        if nochange:
            if old is None:
                old, change = g, it
            else:
                d = abs(g - old)
                if abs(d - nochange[1]) < 4e-15:
                    return None
                if d > nochange[1]:
                    old, change = g, it
            if it - change > nochange[0]:
                return it
    return -1


def check_plain(name, out, wall_ms, seen):
    fn, dim, bound, thr, nochange, limit, verbose, _ = PLAIN[name]
    iterative = name.endswith("iterative")
    swarm = name.startswith("particleswarm")
    lines = out.split("\n")
    goals, texts, blocks = [], [], []
    i = 0
    while i < len(lines):
        line = lines[i]
        if re.match(r"\d+\s", line):
            f = line.split()
            need(int(f[0]) == len(goals) + 1, "line %r instead of one of iteration %d", line[:60], len(goals) + 1)
            x, g = [float(t) for t in f[1:-1]], float(f[-1])
            check_point(fn, dim, bound, x, g, 15, "iteration %s" % f[0])
            if goals:
                need(g <= goals[-1], "iteration %s: the best goal gets worse, %r after %r", f[0], g, goals[-1])
            goals.append(g)
            texts.append((f[1:-1], f[-1]))
            seen["iterations"] += 1
        elif line == "Solution:":
            x = []
            i += 1
            while i < len(lines) and lines[i].strip():
                x.append(lines[i].strip())
                i += 1
            blocks.append({"x": x, "lines": len(goals)})
        elif line.startswith("Goal:"):
            need(blocks and "goal" not in blocks[-1], "a goal without a solution")
            blocks[-1]["goal"] = line.split()[1]
        elif line.startswith("Iterations count:"):
            need(blocks and "iterations" not in blocks[-1], "an iteration count without a solution")
            blocks[-1]["iterations"] = int(line.split()[2])
        elif line.startswith("Time elapsed:"):
            m = re.match(r"Time elapsed: (\d+) ms$", line)
            need(m and blocks and "ms" not in blocks[-1], "unexpected line %r", line)
            blocks[-1]["ms"] = int(m.group(1))
        else:
            need(not line.strip(), "unexpected line %r", line[:80])
        i += 1
    need(len(blocks) in ((1, 2) if iterative else (1,)), "%d reports at the end", len(blocks))
    spent = 0
    for b in blocks:
        need("goal" in b and "iterations" in b and "ms" in b, "an incomplete report %r", b)
        x, g = [float(t) for t in b["x"]], float(b["goal"])
        check_point(fn, dim, bound, x, g, 15, "the report")
        need(b["iterations"] <= limit, "%d iterations, the limit is %d", b["iterations"], limit)
        if verbose:
            need(b["iterations"] == b["lines"], "%d iterations reported, %d lines", b["iterations"], b["lines"])
            need((b["x"], b["goal"]) == texts[b["lines"] - 1], "the report differs from the last iteration")
        spent += b["ms"]
        seen["reports"] += 1
    need(spent <= wall_ms + 1, "%d ms reported, the program took %d ms", spent, wall_ms)
    for a, b in zip(blocks, blocks[1:]):
        need(a["iterations"] < b["iterations"] and float(a["goal"]) >= float(b["goal"]), "the continued run got worse")
    last = blocks[-1]
    if verbose:
        can = {stops(goals, thr, nochange, limit, None)}
        if swarm:
            can.add(stops(goals, thr, nochange, limit, goals[0]))
        if None not in can:
            need(last["iterations"] in can, "the run ended after %d iterations instead of %s", last["iterations"], sorted(can))
            seen["stops_decided"] += 1
    else:
        need(last["iterations"] == limit or (thr is not None and float(last["goal"]) <= thr),
             "the run ended after %d iterations with the goal %s", last["iterations"], last["goal"])
        seen["stops_decided"] += 1


def check_stats(name, out, wall_ms, seen, folder):
    fn, dim, bound, limit, agents, expected, delta, total = STATS[name]
    m = re.match(r"CPUs:\s*(\d+)\nRun count per CPU:\s*(\d+)\nRun optimizations\.\.\. OK\nRun count\s*(\d+)\n"
                 r"Success rate:\s*(\S+)\nAverage goal:\s*(\S+)\nStandard deviation for goal:\s*(\S+)\n"
                 r"Average goal function call count:\s*(\S+)\n$", out)
    need(m, "unexpected output %r", out[-300:])
    cpus, per, runs = (int(v) for v in m.groups()[:3])
    rate, average, deviation, calls = (float(v) for v in m.groups()[3:])
    need(per == total // cpus and runs == cpus * per, "%d runs of %d workers with %d runs each", runs, cpus, per)
    goals, sure, maybe, points = [], 0, 0, set()
    for n, line in enumerate(open(os.path.join(folder, "result_stat.txt"))):
        f = line.split()
        need(int(f[0]) == n, "result %d is numbered %s", n, f[0])
        need("Failed" not in line, "run %d found nothing", n)
        x, g = [float(t) for t in f[1:-1]], float(f[-1])
        check_point(fn, dim, bound, x, g, 10, "run %d" % n)
        goals.append(g)
        points.add(tuple(f[1:]))
        far = max(abs(v - expected) for v in x)
        margin = 4 * EPS * max(1.0, abs(expected)) + 1e-9
        sure += far <= delta - margin
        maybe += far <= delta + margin
        seen["results"] += 1
    need(len(goals) == runs, "%d results of %d runs", len(goals), runs)
    need(len(points) > runs // 20, "only %d different results", len(points))
    need(sure / runs - 6e-6 <= rate <= maybe / runs + 6e-6, "success rate %r, the results say %d..%d of %d", rate, sure, maybe, runs)
    mean = math.fsum(goals) / runs
    size = max(abs(g) for g in goals)
    need(abs(mean - average) <= 6e-6 + 1e-12 * size, "average goal %r, the results say %r", average, mean)
    dev = math.sqrt(math.fsum((g - mean) ** 2 for g in goals) / (runs - 1))
    need(abs(dev - deviation) <= 7e-6 + 1e-12 * size, "standard deviation %r, the results say %r", deviation, dev)
    conv = []
    for n, line in enumerate(open(os.path.join(folder, "convergence_stat.txt"))):
        f = line.split()
        need(int(f[0]) == n, "average convergence %d is numbered %s", n, f[0])
        conv.append(float(f[1]))
        seen["averages"] += 1
    need(0 < len(conv) <= limit, "%d averaged iterations, the limit is %d", len(conv), limit)
    for n in range(1, len(conv)):
        need(conv[n] <= conv[n - 1] * (1 + 2e-10) + 1e-12, "the average best goal gets worse in iteration %d", n)
    need(mean <= conv[-1] * (1 + 1e-9) + 1e-9, "average goal %r, but %r after %d iterations", mean, conv[-1], len(conv))
    need(limit == BIG or len(conv) < limit or abs(mean - conv[-1]) <= 1e-9 * max(1.0, size), "all runs have the same length")
    # one call per agent at the start and at most (swarm: exactly) one per agent and iteration
    sum_calls = calls * runs
    most = BIG if limit == BIG else runs * agents * (limit + 1)
    need(runs * agents <= sum_calls + 1 and sum_calls <= most + 1, "%r goal calls per run", calls)
    if name.startswith("particleswarm"):
        rounds = sum_calls / agents
        need(abs(rounds - round(rounds)) <= 6e-6 * runs, "%r goal calls are no multiple of the particles", sum_calls)
        need(round(rounds) >= runs * (len(conv) + 1), "%r goal calls are too few for %d iterations", calls, len(conv))
    seen["aggregates"] += 1


def build(check):
    """The target directory with the examples built from the current tree, or None"""
    env = check.environment("")
    env.update(CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS="true", CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="true")
    target = os.path.join(check.MON, "target/examples")
    stamp = os.path.join(target, ".verif-stamp")
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".verif-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        now = check.fingerprint()
        if not os.path.exists(stamp) or open(stamp).read() != now:
            # do not rely on modification times
            subprocess.run(["cargo", "+stable", "clean", "--offline", "--release", "-p", "optlib", "-p", "optlib-testfunc",
                            "--target-dir", target], cwd=REPO, env=env, stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL)
        r = subprocess.run(["cargo", "+stable", "build", "--offline", "--release", "--examples", "--target-dir", target],
                           cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-3000:])
            print("BUILD FAILED (examples)")
            return None
        if check.fingerprint() == now:
            with open(stamp, "w") as f:
                f.write(now)
    return target


def main(check, tier, seed):
    """check: the module check.py"""
    t0 = time.time()
    env = check.environment("")
    target = build(check)
    if target is None:
        return 2
    thorough = tier == "thorough"
    jobs = []
    for name in PLAIN:
        jobs += [name] * ((30 if PLAIN[name][7] < 500 else 12) if thorough else 3)
    for name in STATS:
        if name in SLOW and not thorough:
            continue
        jobs += [name] * (3 if thorough and name not in SLOW else 1)
    seen = {k: 0 for k in ("iterations", "reports", "stops_decided", "results", "averages", "aggregates")}
    missing, done, status, deadline = [], {}, 0, t0 + 780
    outputs, samples = set(), []
    for name in jobs:
        exe = os.path.join(target, "release/examples", name)
        if not os.path.exists(exe):
            if name not in missing:
                missing.append(name)
            continue
        if time.time() > deadline - (200 if name in SLOW else 0):
            break
        folder = tempfile.mkdtemp(prefix="verif-examples-")
        out, code = "", None
        try:
            begin = time.time()
            try:
                p = subprocess.run([exe], cwd=folder, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, text=True, errors="replace", timeout=400)
                out, code, err = p.stdout, p.returncode, p.stderr
            except subprocess.TimeoutExpired:
                # slow is not wrong
                print("INCONCLUSIVE property=C37 %s took longer than 400 s" % name)
                return 2
            wall = (time.time() - begin) * 1000
            try:
                need(code == 0, "the program ended with %d: %s", code, err[-600:])
                if name in PLAIN:
                    check_plain(name, out, wall, seen)
                else:
                    check_stats(name, out, wall, seen, folder)
                done[name] = done.get(name, 0) + 1
                if name not in PLAIN or len(samples) < 3:
                    samples.append("%s: %s" % (name, out[-250:]))
                outputs.add(hash(re.sub(r"Time elapsed.*", "", out)))
            except (Broken, ValueError, IndexError, OSError) as e:
                path = os.path.join(check.VERIF, "replay", "C37-%s-%s.txt" % (name, seed))
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w") as f:
                    f.write("property C37, example %s\n%s: %s\n\nreplay: %s/tools/check.sh C37\n\noutput:\n%s" % (
                        name, type(e).__name__, e, check.VERIF, out[-100000:]))
                print("%s: %s" % (name, e))
                print("VIOLATION property=C37 replay=%s" % path)
                status = 1
        finally:
            shutil.rmtree(folder)
        if status:
            break
    print("C37: programs=%d runs=%d %s wall=%.1fs" % (
        len(done), sum(done.values()), " ".join("%s=%d" % kv for kv in seen.items()), time.time() - t0))
    evidence(check, tier, seed, done, seen, missing, status, t0, len(outputs), samples)
    if status == 0 and (not done or min(seen.values()) == 0):
        print("INCONCLUSIVE property=C37 nothing was observed for some part (%s; missing programs: %s)" % (seen, missing))
        return 2
    return status


def evidence(check, tier, seed, done, seen, missing, status, t0, distinct, samples):
    path = os.path.join(check.VERIF, "evidence", "C37.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    e = {
        "property": "C37", "tier": tier, "seed": int(seed), "level": "exploration",
        "coverage": {
            "evaluations": sum(done.values()),
            "distinct_nontrivial": distinct,
            "rule": "runs of the example programs of /repo (built with debug assertions and overflow checks); distinct by their output",
            "samples": samples,
            "runs_per_program": done,
            "programs_missing": missing,
            "observed": seen,
        },
        "assumptions": ["the programs draw from the operating system's random source: the seed has no influence"],
        "wall_s": round(time.time() - t0, 3),
        "violations": status,
    }
    with open(path, "w") as f:
        json.dump(e, f, indent=1)
