#!/usr/bin/env python3
"""Sensitivity study (not a check): plants one small change at a time in a scratch copy of /repo and runs the
release checks of the affected properties on it.  mutate.py WORKDIR NWORKERS [file substring]
Results: WORKDIR/result.jsonl; survivors are those with killed == null."""
import json, os, re, shutil, subprocess, sys, threading, queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 "memory/": "02 03 04 05 01 06 17", "delay_line": "06 03 04 05 01 07 08", "comb.rs": "07 01", "all_pass": "08 01",
 "biquad/mod": "09", "butterworth": "10 11 12", "envelope": "13 14", "phase_accumulator": "15 16 17",
 "osc_functional": "16", "osc_wavetable": "17 01", "bit_manip": "19", "conversion": "18 19", "dsp_util": "28 14",
 "integral": "24", "interpolation": "20 05 04", "float/math": "22 23 24 25 16 10", "stereo": "26", "clipping": "27",
 "decibels": "21", "fixed_point": "22", "lookup_tables/mod": "25",
}
def code_lines(path):
    t = open(path).read().split("\n")
    out, depth = [], None
    for i, l in enumerate(t):
        if l.strip().startswith("#[cfg(test)]"):
            break
        s = l.strip()
        if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "pub const BAND")):
            continue
        out.append(i)
    return t, out
REPL = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "),
        (r" >= ", " > "), (r" < ", " > "), (r" > ", " < "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+= ", " -= "),
        (r" -= ", " += "), (r" \*= ", " /= "), (r" << ", " >> "), (r" >> ", " << "), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
        (r"\.floor\(\)", ""), (r"\.floor\(\)", ".ceil()"), (r"\.abs\(\)", ""), (r"\.neg\(\)", ""), (r"is_sign_positive", "is_sign_negative"), (r"-input", "input"),
        (r"IndexOutOfBound\b", "LengthOutOfBound"), (r"LengthOutOfBound\b", "IndexOutOfBound"), (r"\bZero\b", "Negative"), (r"\bNegative\b", "Zero"),
        (r"TooLeft", "TooRight"), (r"\bNan\b", "Infinite"), (r"InputNaN", "InputInfinite"), (r"wrapping_add", "saturating_add"),
        (r"saturating_mul", "wrapping_mul"), (r"rem_euclid\((.*?)\)", r"rem_euclid(\1 + 1 as _)"), (r"\.sqrt\(\)", ""), (r"\.exp\(\)", ".abs()"),
        (r"\bAttack\b", "Decay"), (r"\bDecay\b", "Sustain"), (r"\bSustain\b", "Release"), (r"\bRelease\b", "Idle"), (r"\bIdle\b", "Attack"),
        (r"\battack\b", "decay"), (r"\bdecay\b", "release"), (r"\brelease\b", "attack"), (r"\bsustain\b", "prev"),
        (r"\bf_0\b", "q"), (r"\b0\.\.", "1.."), (r"\.clamp\((.*?),", r".clamp(-2.0 *\1,"), (r"self\.0", "self.1"), (r"\bsamples?\.0", "samples.1"), (r"pan\.0", "pan.1"), (r"pan\.1", "pan.0"),
        (r"linear\.0", "linear.1"), (r"\bif (.*) \{", r"if true || (\1) {"), (r"\bif (.*) \{", r"if false && (\1) {"),
        (r"saturating_sub\(1\)", "saturating_sub(2)"), (r"\.\.=", ".."), (r"as isize", "as i32 as isize"), (r"as usize", "as u16 as usize"), (r"u32::MAX", "i32::MAX"),
        (r"FRAC_PI_2", "FRAC_PI_4"), (r"FRAC_PI_4", "FRAC_PI_2"), (r"\bPI\b", "(PI*1.0001)"), (r"TAU", "(TAU*1.0001)"),
        (r"\bb0\b", "b1"), (r"\bb1\b", "b2"), (r"\bb2\b", "b0"), (r"\ba1\b", "a2"), (r"\ba2\b", "a1"),]
def mutants(path, rel):
    t, idx = code_lines(path)
    seen = set()
    for i in idx:
        l = t[i]
        cand = []
        for a, b in REPL:
            for m in re.finditer(a, l):
                try:
                    cand.append(l[:m.start()] + m.expand(b) + l[m.end():])
                except Exception:
                    pass
        for m in re.finditer(r"(?<![\w.])(\d[\d_]*)(\.\d+)?(?![\w.]|\.\d)", l):
            if m.group(2) is None:
                if "fn " in l: continue
                v = int(m.group(1).replace("_", ""))
                for w in (v + 1, v - 1):
                    if w >= 0: cand.append(l[:m.start()] + str(w) + l[m.end():])
            else:
                v = float(m.group(0).replace("_", ""))
                for w in ([v * 1.001, v * 0.99, v + 1] if v else [1e-3, 1.0]):
                    cand.append(l[:m.start()] + repr(w) + l[m.end():])
        s = l.strip()
        if s.endswith(";") and not s.startswith(("let ", "type ", "fn ", "const ", "}", "return", "impl")) and s.count("(") == s.count(")"):
            cand.append("")
        for c in cand:
            if c != l and (i, c) not in seen:
                seen.add((i, c))
                yield rel, i, l, c
def worker(k, q, work, res, lock):
    root = os.path.join(work, "w%d" % k)
    os.makedirs(root, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", root + "/repo/"]) if shutil.which("rsync") else (shutil.rmtree(root + "/repo", True), shutil.copytree("/repo", root + "/repo", ignore=shutil.ignore_patterns("target", ".git")))
    shutil.rmtree(root + "/harness", True)
    shutil.copytree(os.path.join(HERE, "harness"), root + "/harness", ignore=shutil.ignore_patterns("target"))
    p = root + "/harness/Cargo.toml"
    s = open(p).read().replace('path = "/repo"', 'path = "%s/repo"' % root)
    open(p, "w").write(s)
    env = dict(os.environ, CARGO_TARGET_DIR=root + "/target", CARGO_NET_OFFLINE="true")
    def build(props):
        return subprocess.run(["cargo", "build", "--offline", "--release", "-q"] + sum([["--bin", "c" + p] for p in props], []), cwd=root + "/harness", env=env, capture_output=True).returncode == 0
    while True:
        try: rel, i, old, new = q.get_nowait()
        except queue.Empty: return
        path = os.path.join(root, "repo", rel)
        orig = open(path).read()
        t = orig.split("\n"); assert t[i] == old; t[i] = new
        open(path, "w").write("\n".join(t))
        props = next((v for kk, v in MAP.items() if kk in rel), "").split()
        killed, note = None, ""
        # cargo goes by mtime
        if not build(props):
            killed = "build"
        else:
            for p in props:
                try:
                    r = subprocess.run([root + "/target/release/c" + p, "run", "--scale", "0.5", "--out", root + "/o.json", "--known", "tanh_clip:todo-panic|poly_clip:todo-panic|sigmoid_clip:todo-panic"], capture_output=True, timeout=120)
                    if r.returncode == 10:
                        v = json.load(open(root + "/o.json"))["violations"][0]
                        killed, note = "C" + p, v["sub"] + ": " + v["msg"][:160]
                    elif r.returncode != 0:
                        killed, note = "C" + p, "rc %d" % r.returncode
                except subprocess.TimeoutExpired:
                    killed, note = "C" + p, "timeout"
                if killed: break
        open(path, "w").write(orig)
        with lock:
            res.write(json.dumps({"file": rel, "line": i + 1, "old": old.strip(), "new": new.strip(), "killed": killed, "note": note}) + "\n"); res.flush()
if __name__ == "__main__":
    work, n = sys.argv[1], int(sys.argv[2])
    pat = sys.argv[3] if len(sys.argv) > 3 else ""
    os.makedirs(work, exist_ok=True)
    q = queue.Queue()
    for d, _, fs in os.walk("/repo/src"):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(d, f), "/repo")
            if any(k in rel for k in MAP) and pat in rel and "bl_rect" not in rel and not rel.endswith("float/mod.rs"):
                for m in mutants(os.path.join("/repo", rel), rel): q.put(m)
    print(q.qsize(), "mutants", flush=True)
    res, lock = open(os.path.join(work, "result.jsonl"), "a"), threading.Lock()
    th = [threading.Thread(target=worker, args=(k, q, work, res, lock)) for k in range(n)]
    [x.start() for x in th]; [x.join() for x in th]
