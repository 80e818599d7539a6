#!/usr/bin/env python3
"""check.py <property> [--replay FILE] [--only SUB] [--scale X] [--no-checked]

Builds the harness against /repo's working tree (two profiles: `release` = what users ship, `checked` =
overflow checks and debug assertions on; C01 also with AddressSanitizer), runs the property's generated
cases in each, writes evidence/<property>.json and reports.
Exit 0: held on everything explored (listed known findings aside); 1: VIOLATION; 2/3: error of the check.
"""
import fcntl, json, os, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
LIMIT = 200 if TIER == "quick" else 6 * 3600
# (profile, share of the cases run there)
PROFILES = [("release", 1.0), ("checked", 0.25)]
ASAN = {"C01": 0.15}

def err(msg, code=2):
    print("ERROR " + msg, flush=True)
    sys.exit(code)

def env_for(profile):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_BUILD_RUSTFLAGS"):
            del e[k]
    e["HOME"] = e.get("HOME") or "/root"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["RUSTUP_TOOLCHAIN"] = "nightly" if profile == "asan" else "stable"
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, profile)
    if profile == "asan":
        e["RUSTFLAGS"] = "-Zsanitizer=address --cfg asan"
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e

TRIPLE = "x86_64-unknown-linux-gnu"

def binary(profile, prop):
    d = os.path.join(TARGET, profile)
    if profile == "asan":
        return os.path.join(d, TRIPLE, "release", prop.lower())
    return os.path.join(d, profile, prop.lower())

def forget(profile):
    # cargo judges freshness by mtime: never trust it for the code under test
    base = os.path.join(TARGET, profile)
    for sub in (profile, "release", os.path.join(TRIPLE, "release")):
        fp = os.path.join(base, sub, ".fingerprint")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith(("embedded-audio-tools-", "eat-pbt-")):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)

def build(profiles, prop):
    # two checks started at the same time share the build folder
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        build_alone(profiles, prop)

def build_alone(profiles, prop):
    procs = []
    for p in profiles:
        forget(p)
        what = ["--bin", prop.lower()] if prop else ["--bin", "c01"] if p == "asan" else ["--bins"]
        cmd = ["cargo", "build", "--offline", "--locked", "-q"] + what
        cmd += ["--release"] if p in ("release", "asan") else ["--profile", p]
        if p == "asan":
            cmd += ["--target", TRIPLE]
        procs.append((p, subprocess.Popen(cmd, cwd=HARNESS, env=env_for(p), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for p, pr in procs:
        out, _ = pr.communicate()
        if pr.returncode != 0:
            sys.stdout.write(out.decode(errors="replace")[-6000:])
            err("build failed (profile %s)" % p)

def known_findings(prop):
    sigs = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                sig, _, text = rest.partition(" ")
                sigs[sig[len("sig="):]] = text
    return sigs

def run_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:symbolize=0:allocator_may_return_null=1"
    e["RUST_BACKTRACE"] = "0"
    return e

def child(cmd, limit):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit, env=run_env(), cwd=HARNESS)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, HANG, b"", b"no answer within %d s" % limit)

HANG = -1000
STALLED = 11  # a case did not end and was left behind for confirmation

def crashed(r):
    return r.returncode == HANG or r.returncode < 0 and -r.returncode in (4, 5, 6, 7, 8, 11)

def death(r):
    return "did not come to an end" if r.returncode == HANG else "died on signal %d" % -r.returncode

def run_profile(profile, share, prop, known, args, work):
    out = os.path.join(work, profile + ".json")
    cmd = [binary(profile, prop), "run", "--tier", TIER, "--seed", str(SEED), "--scale", str(share * args["scale"]),
           "--out", out, "--known", "|".join(known)]
    if args["only"]:
        cmd += ["--only", args["only"]]
    trace = os.path.join(work, "trace-" + profile)
    os.makedirs(trace, exist_ok=True)
    r = child(cmd + ["--hang", trace], LIMIT)
    if r.returncode == STALLED:
        v = crash_violation(profile, prop, trace, r, work, must=False)
        if v:
            return None, v
        # the machine stood still, not the case
        r = child(cmd, LIMIT)
    if crashed(r):
        r2 = child(cmd + ["--trace", trace], LIMIT // 2 if r.returncode == HANG else LIMIT)
        return None, crash_violation(profile, prop, trace, r2 if crashed(r2) else r, work)
    if r.returncode not in (0, 10):
        sys.stdout.write(r.stdout.decode(errors="replace")[-3000:] + r.stderr.decode(errors="replace")[-3000:])
        err("check process ended with status %d (profile %s)" % (r.returncode, profile), 3)
    return json.load(open(out)), None

def read_trace(path):
    try:
        b = open(path, "rb").read()
        if len(b) < 16:
            return None
        sub, n = struct.unpack_from("<QQ", b, 0)
        return sub, list(struct.unpack_from("<%dQ" % n, b, 16))
    except Exception:
        return None

def replay_once(profile, prop, sub, tape, spill=None, limit=20):
    cmd = [binary(profile, prop), "replay", "--sub", str(sub), "--tape", ",".join(map(str, tape))]
    if spill:
        cmd += ["--spill", spill]
    return child(cmd, limit)

def crash_violation(profile, prop, trace, r, work, must=True):
    """The process died on a signal: find the case that does it, confirm and shrink it."""
    names = {}
    for l in subprocess.run([binary(profile, prop), "list"], stdout=subprocess.PIPE).stdout.decode().splitlines():
        i, n = l.split(" ", 1)
        names[int(i)] = n
    for f in sorted(os.listdir(trace)):
        t = read_trace(os.path.join(trace, f))
        if not t:
            continue
        sub, tape = t
        spill = os.path.join(work, "spill")
        if os.path.exists(spill):
            os.unlink(spill)
        rr = replay_once(profile, prop, sub, tape, spill)
        if rr.returncode == 10 and tape[:1] != [2**64 - 1]:
            # an ordinary failure whose shrinking ran into a case that does not end
            lines = rr.stdout.decode(errors="replace").splitlines()
            say = lambda w: next((l[len(w):] for l in lines if l.startswith(w)), "")
            return {"sub": names.get(sub, str(sub)), "tape": ",".join(map(str, tape)), "sig": None,
                    "case": say("case: "), "msg": say("FAIL ")}
        if not crashed(rr):
            continue
        if tape and tape[0] == 2**64 - 1 and len(tape) == 2:
            b = open(spill, "rb").read() if os.path.exists(spill) else b""
            full = list(struct.unpack("<%dQ" % (len(b) // 8), b[: len(b) // 8 * 8]))
            if not crashed(replay_once(profile, prop, sub, full)):
                continue
            tape = shrink_crash(profile, prop, sub, full)
            rr = replay_once(profile, prop, sub, tape)
            if not crashed(rr):
                tape, rr = full, replay_once(profile, prop, sub, full)
        tail = [l for l in rr.stderr.decode(errors="replace").splitlines() if l.strip()][:4]
        return {"sub": names.get(sub, str(sub)), "tape": ",".join(map(str, tape)), "sig": None, "case": "",
                "msg": "the process %s while running this case: %s" % (death(rr), " | ".join(tail))}
    if not must:
        return None
    sys.stdout.write(r.stderr.decode(errors="replace")[-3000:])
    err("the check process %s and no single case reproduces it (profile %s)" % (death(r), profile), 3)

def shrink_crash(profile, prop, sub, tape, budget=250):
    t0 = time.time()
    def bad(t):
        return crashed(replay_once(profile, prop, sub, t, limit=3))
    span = max(1, len(tape) // 2)
    while span >= 1:
        i = 0
        while i + span <= len(tape):
            if budget <= 0 or time.time() - t0 > 90:
                return tape
            budget -= 1
            c = tape[:i] + tape[i + span:]
            if bad(c):
                tape = c
            else:
                i += span
        span //= 2
    return tape

def write_replay(prop, profile, v):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (prop, v["sub"], profile))
    with open(path, "w") as f:
        json.dump({"property": prop, "profile": profile, "sub": v["sub"], "tape": v["tape"], "message": v["msg"],
                   "case": v["case"], "seed": SEED, "tier": TIER,
                   "how_to_replay": "./check.py %s --replay %s" % (prop, os.path.relpath(path, HERE))}, f, indent=1)
    return path

def do_replay(prop, path):
    j = json.load(open(path))
    build([j["profile"]], prop)
    r = replay_once(j["profile"], prop, j["sub"], [int(x) for x in j["tape"].split(",") if x])
    sys.stdout.write(r.stdout.decode(errors="replace") + r.stderr.decode(errors="replace"))
    if r.returncode == 10 or crashed(r):
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    sys.exit(0 if r.returncode == 0 else 3)

def main():
    a = sys.argv[1:]
    if not a:
        err("usage: check.py <property> [--replay FILE]")
    if a[0] == "setup":
        build([p for p, _ in PROFILES] + ["asan"], None)
        print("built")
        return
    prop = a[0].upper()
    def opt(k, d=None):
        return a[a.index(k) + 1] if k in a else d
    if opt("--replay"):
        do_replay(prop, opt("--replay"))
    args = {"only": opt("--only"), "scale": float(opt("--scale", "1"))}
    t0 = time.time()
    profiles = list(PROFILES) + ([("asan", ASAN[prop])] if prop in ASAN else [])
    build([p for p, _ in profiles], prop)
    built = time.time() - t0
    known = known_findings(prop)
    work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=TARGET)
    res, viols, seen = {}, [], {}
    try:
        for p, share in profiles:
            r, crash = run_profile(p, share, prop, known, args, work)
            if crash:
                viols.append((p, crash))
            if r:
                res[p] = r
                viols += [(p, v) for v in r["violations"]]
                for s, c in r["known"].items():
                    seen[s] = seen.get(s, 0) + c
            if viols:
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    # evidence
    main_res = res.get("release")
    cov = {
        "evaluations": sum(r["evaluations"] for r in res.values()),
        # profiles rerun the same case stream, so distinct cases are counted in the full run only
        "distinct_nontrivial": main_res["distinct_nontrivial"] if main_res else 0,
        "rule": RULES.get(prop, ""),
        "samples": (main_res or {}).get("samples", []),
        "subchecks": {p: r["subs"] for p, r in res.items()},
        "known_finding_hits": seen,
        "exhaustive": False,
    }
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": cov,
          "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "build_s": round(built, 2), "violations": len(viols)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not args["only"]:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for s, text in known.items():
        print("KNOWN-FINDING: property=%s %s %s (%d generated cases hit it)" % (prop, s, text, seen.get(s, 0)))
    for p, v in viols[:3]:
        path = write_replay(prop, p, v)
        print("%s/%s [%s]: %s" % (prop, v["sub"], p, v["msg"]))
        if v["case"]:
            print("  case: " + v["case"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs" %
          (prop, "VIOLATED" if viols else "held", cov["evaluations"], cov["distinct_nontrivial"], built, time.time() - t0), flush=True)
    sys.exit(1 if viols else 0)

ASSUME = [
    "x86-64 host build of the no_std crate (64-bit usize, IEEE f32); micromath 2.1.0 and tock-registers 0.8.1 as locked",
    "random case streams are a pure function of (code, VERIF_SEED, tier)",
]
RULES = json.load(open(os.path.join(HERE, "rules.json"))) if os.path.exists(os.path.join(HERE, "rules.json")) else {}

if __name__ == "__main__":
    main()
