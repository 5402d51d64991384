#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed n] [--only group:case]

Rebuilds the monitors of /verif/mon against /repo's current working tree and runs those of one property.
Exit 0: held on everything explored; 1 with a VIOLATION line: broken; 2: no answer."""
import fcntl, hashlib, json, os, re, subprocess, sys, time

sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = os.path.join(VERIF, "mon")
REPO = "/repo"
HOST = "x86_64-unknown-linux-gnu"
T0 = time.time()
# kind: toolchain, target dir, RUSTFLAGS, cargo arguments, binary
BUILDS = {
    "plain": ("stable", "target", "", [], "debug/mon"),
    # what `cargo build --release` gives to users: no debug assertions, wrapping arithmetic
    "release": ("stable", "target/release-build", "", ["--release"], "release/mon"),
    "asan": ("nightly", "target/asan", "-Zsanitizer=address", ["--target", HOST], HOST + "/debug/mon"),
    "tsan": ("nightly", "target/tsan", "-Zsanitizer=thread", ["-Zbuild-std", "--target", HOST], HOST + "/debug/mon"),
}
REPORT = re.compile(r"ERROR: AddressSanitizer|WARNING: ThreadSanitizer|unsafe precondition|has overflowed its stack"
                    r"|error: Undefined Behavior|^CRASH", re.M)


def environment(flags):
    env = {k: v for k, v in os.environ.items()
           if k not in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS",
                        "RUSTC_WRAPPER", "CARGO_BUILD_TARGET") and not k.startswith("CARGO_PROFILE_")}
    env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", VERIF_DIR=VERIF, RUSTC_WRAPPER="")
    if flags:
        env["RUSTFLAGS"] = flags
    return env


def fingerprint():
    """Of everything of /repo that the monitors are built from."""
    h = hashlib.sha256()
    for crate in ("optlib", "optlib-testfunc"):
        top = os.path.join(REPO, crate)
        files = [os.path.join(top, "Cargo.toml")]
        for d, _, names in os.walk(os.path.join(top, "src")):
            files += [os.path.join(d, n) for n in names]
        for f in sorted(files):
            try:
                h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
            except OSError:
                h.update(f.encode() + b"?")
    return h.hexdigest()


def build(kind):
    toolchain, target, flags, extra, binary = BUILDS[kind]
    env = environment(flags)
    target = os.path.join(MON, target)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".verif-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(target, ".verif-stamp-" + kind)
        now = fingerprint()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        cargo = ["cargo", "+" + toolchain]
        if old != now:
            # do not rely on modification times
            subprocess.run(cargo + ["clean", "--offline", "-p", "optlib", "-p", "optlib-testfunc", "-p", "mon",
                                    "--target-dir", target] + [a for a in extra if a != "-Zbuild-std"],
                           cwd=MON, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = subprocess.run(cargo + ["build", "--offline", "--target-dir", target] + extra,
                           cwd=MON, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-4000:])
            print("BUILD FAILED (%s)" % kind)
            return None
        if fingerprint() == now:
            with open(stamp, "w") as f:
                f.write(now)
    return os.path.join(target, binary)


def violation(prop, kind, seed, text, command):
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    path = os.path.join(VERIF, "replay", "%s-%s-%s.txt" % (prop, kind, seed))
    with open(path, "w") as f:
        f.write("property %s, %s build\n\n%s\n\nreplay: %s\n" % (prop, kind, text[-20000:], command))
    m = REPORT.search(text)
    print(text[m.start():m.start() + 1500] if m else text[-1500:])
    print("VIOLATION property=%s replay=%s" % (prop, path))


def execute(prop, kind, args, seed, limit, extra_env=None):
    """(exit status of the check, output)"""
    exe = build(kind)
    if exe is None:
        return 2, ""
    env = environment("")
    env.update(extra_env or {})
    cmd = [exe, prop] + args
    try:
        r = subprocess.run(cmd, cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit,
                           text=True, errors="replace")
    except subprocess.TimeoutExpired:
        print("INCONCLUSIVE property=%s the %s build took longer than %d s" % (prop, kind, limit))
        return 2, ""
    rc, out = r.returncode, r.stdout
    if rc in (0, 1, 2) and not REPORT.search(out):
        sys.stdout.write(out[-6000:])
        return rc, out
    if REPORT.search(out) or rc in (-4, -6, -7, -8, -11):
        violation(prop, kind, seed, out + "\nexit status %d" % rc,
                  "%s/tools/check.sh %s %s" % (VERIF, prop, " ".join(args)))
        return 1, out
    sys.stdout.write(out[-4000:])
    print("INCONCLUSIVE property=%s the %s build ended with %d" % (prop, kind, rc))
    return 2, out


def add_evidence(prop, key, value):
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path) as f:
        e = json.load(f)
    e["coverage"].setdefault("sanitizers", {})[key] = value
    e["wall_s"] = round(time.time() - T0, 3)
    with open(path, "w") as f:
        json.dump(e, f, indent=1)


def numbers(out, prop):
    m = re.search(r"^%s: (.*)$" % prop, out, re.M)
    return dict((k, float(v) if "." in v else int(v)) for k, v in re.findall(r"(\S+)=([\d.]+)(?=s?\b)", m.group(1))) if m else {}


def miri(prop, seed, cases, limit):
    """Run single cases under Miri; returns (status, number of cases finished)."""
    env = environment("")
    env["MIRIFLAGS"] = "-Zmiri-disable-isolation"
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--target-dir", os.path.join(MON, "target/miri"), "--",
           prop, "--no-evidence", "--seed", str(seed), "--only"]

    def start(c):
        return c, subprocess.Popen(cmd + [c], cwd=MON, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   text=True, errors="replace")

    done, todo, running, status = 0, list(cases), [], 0
    end = time.time() + limit
    first = True
    while todo or running:
        while todo and len(running) < (1 if first else 8) and time.time() < end:
            running.append(start(todo.pop(0)))
        if not running:
            break
        c, p = running.pop(0)
        try:
            out, _ = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            todo = []
            continue
        first = False
        if REPORT.search(out):
            violation(prop, "miri", seed, out, "%s %s" % (" ".join(cmd), c))
            status = 1
            todo = []
        elif p.returncode == 1 and "VIOLATION" in out:
            sys.stdout.write(out[-3000:])
            status = 1
            todo = []
        elif p.returncode == 0:
            done += 1
    return status, done


def main():
    argv = sys.argv[1:]
    prop, opts, i = "", {}, 0
    while i < len(argv):
        if argv[i].startswith("--"):
            opts[argv[i][2:]] = argv[i + 1]
            i += 2
        else:
            prop = argv[i]
            i += 1
    tier = opts.get("tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = opts.get("seed") or os.environ.get("VERIF_SEED") or "1"
    thorough = tier == "thorough"
    base = ["--tier", tier, "--seed", seed]
    if prop == "C37":
        import examples
        return examples.main(sys.modules[__name__], tier, seed)
    if "only" in opts:
        rc, _ = execute(prop, "plain", base + ["--only", opts["only"]], seed, 600)
        # the case may have come from the release build
        return rc or execute(prop, "release", base + ["--only", opts["only"]], seed, 280)[0]
    rc, _ = execute(prop, "plain", base, seed, 880)
    if rc != 0:
        return rc
    kind = {"C26": "asan", "C27": "tsan"}.get(prop)
    if kind:
        # the sanitizer build explores other cases than the plain one
        other = str(int(seed) + 1000003)
        scale = {"asan": "0.4", "tsan": "0.15"}[kind]
        args = ["--tier", "quick", "--seed", other, "--scale", str(float(scale) * (8 if thorough else 1)), "--no-evidence"]
        env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0", "TSAN_OPTIONS": "halt_on_error=1:exitcode=66"}
        rc, out = execute(prop, kind, args, seed, 600, env)
        if rc != 0:
            return rc
        add_evidence(prop, kind, numbers(out, prop))
    if prop != "C30":
        other = str(int(seed) + 2000003)
        args = ["--tier", "quick", "--seed", other, "--scale", "2" if thorough else "0.2", "--no-evidence"]
        rc, out = execute(prop, "release", args, seed, 300)
        if rc != 0:
            return rc
        add_evidence(prop, "release", numbers(out, prop))
    if prop == "C26" and thorough:
        cases = ["%s:%d" % (g, i) for i in range(60) for g in ("genetic", "swarm")]
        rc, done = miri(prop, seed, cases, 240)
        if rc != 0:
            return rc
        add_evidence(prop, "miri", {"cases": done, "note": "0: Miri could not run here"} if not done else {"cases": done})
    return 0


if __name__ == "__main__":
    sys.exit(main())
