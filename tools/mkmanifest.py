#!/usr/bin/env python3
"""Writes rules.json and MANIFEST.json (run by hand; both are committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = ("Random cases are functions of a recorded choice tape (seeded PRNG) and are distinct when their tapes differ; "
       "enumeration cases are distinct by index. ")
RULES = {
 "C01": "Histories over 1-4 poison-surrounded buffers and up to 3+ objects; non-trivial: at least 10 buffer accesses, or a shorter buffer was attached. table: phases within 128 of the turn's seam; tables: finite arguments.",
 "C02": "Histories of checked reads, writes, sub-views, copies, re-pointing against a slice model; non-trivial: at least 2 accesses in range and 1 out of range. sub-views: every (length, offset, sub-length), non-trivial when granted or at the limit.",
 "C03": "Non-trivial: the index is negative or the four-element window reaches the end of the buffer.",
 "C04": "Non-trivial: fractional position (checked), fractional position on or beyond the seam (wrapped), every scan.",
 "C05": "Non-trivial: the position is not an integer (and the polynomial has degree > 0).",
 "C06": "Histories of writes, advances, attachments and copies of up to 3 lines sharing buffers; non-trivial: the position wrapped or a buffer shorter than the position was attached.",
 "C07": "Histories of ticks, parameter changes and attachments against an f64 model; non-trivial: fed-back signal was heard and a parameter or the buffer changed.",
 "C08": "Histories of ticks and attachments against an f64 model; non-trivial: the buffer wrapped or was exchanged.",
 "C09": "Non-trivial: the recursive part contributed (an earlier output is not zero).",
 "C10": "Every random design counts; its coefficients differ from a trivial filter by construction.",
 "C11": "Non-trivial: gain magnitude differs from 1.",
 "C12": "Every random design counts; decay and boundedness runs need a non-silent signal.",
 "C13": "Histories of gate, reset, parameter and tick operations; non-trivial: at least 2 gate events.",
 "C14": "Non-trivial: at least 2 stages were entered (histories), every complete envelope, every long stage.",
 "C15": "Non-trivial: the phase wrapped and a parameter was changed (histories), positive frequency (setter), step > 1000 (long), non-zero phase (normalised).",
 "C16": "Non-trivial: at least 3 samples and one waveform switch (scripted), 5 samples and one change (soft), every phase of the shape sweep.",
 "C17": "Non-trivial: at least 3 samples (scripted), 5 samples and one change (soft), table of more than one sample (positions).",
 "C18": "Enumeration of every 32-bit word; non-trivial: neither +0 nor -0.",
 "C19": "Non-trivial: the reduction changed the sample (linear), arguments are invalid (arguments), depth > 0 (exponential, grid).",
 "C20": "Non-trivial: end points differ and the factor lies strictly inside (blend); the input is invalid (validate).",
 "C21": "Non-trivial: two different ratios/levels (pairs, volts), invalid or zero ratio (classify), every enumerated value.",
 "C22": "fixed enumerates every phase with every degree byte; non-trivial: degree <= 4, argument not zero.",
 "C23": "Non-trivial: two different arguments, argument not zero, every enumerated argument.",
 "C24": "Non-trivial: argument not zero (sinc), |x| > 1e-3 (integral), every enumerated argument.",
 "C25": "Non-trivial: argument inside a half period (bl_rect), inside (0,1) (period), |x| <= 1e4 (sine).",
 "C26": "Non-trivial: off-centre position and audible, different channels; rejected position (positions).",
 "C27": "Non-trivial: |sample| > 0.5 (digital), beyond full scale (saturation), every sample within full scale for the other clippers.",
 "C28": "Non-trivial: value not zero and sample rate not 1.",
 "C29": "script: phased schedules of 2-4 real threads over one buffer; non-trivial: a thread reads a sample another thread stored last. interleaved: operation sequences with another thread storing samples between any two memory accesses of the code under test (fault-and-single-step observer); non-trivial: it stored something during an operation that concerned it. unelided: optimised loops over nothing but accesses, each access observed; all cases count. instrument: the observer checked on plain volatile loops.",
 "C30": "functions, integral: instructions of a call with arbitrary arguments counted by single-stepping and compared with a call on ordinary arguments; objects: the same for one operation after a history of extreme parameters; lengths: the same operations on long and short buffers of constant content; total, histories: the same generators uncounted (panics, hangs). Non-trivial: an argument beyond 100 or NaN (functions), every counted operation (objects, lengths), ticks mixed with other operations (histories). instrument: the counter checked on loops of known length.",
 "C31": "order, together: lists of related calls (same function, some arguments changed) repeated in other orders / in three threads; non-trivial: more than 3 calls, two neighbours of the same function (order). objects: 2-4 objects with related histories run alone and interleaved, moved, among unrelated calls; non-trivial: more than 3 switches. copies: non-trivial: more than 2 operations before and after.",
 "C33": "functions, objects: every instruction of a call observed by single-stepping (stack pointer, system calls), heap and floating-point environment compared; total, histories: heap and environment only. Non-trivial: the call ended without panic (functions, total), the history contains other operations than samples (objects, histories). instrument: the instruments checked on calls that do use heap, stack, system and mode bits.",
 "C32": "settings: histories rewritten into equivalent ones by 1-12 insertions or exchanges of settings and queries; non-trivial: at least one rewriting applied and at least two samples processed. constructed: non-trivial: at least two samples processed.",
}
TECH = {
 "C01": "property-based testing: random operation histories over guarded buffers (NaN canaries, AddressSanitizer)",
 "C02": "model-based property testing against an ordinary slice",
 "C03": "property-based testing against rem_euclid, small lengths enumerated",
 "C04": "property-based testing against an f64 oracle and continuity relation",
 "C05": "property-based testing against f64 Lagrange polynomials (interpolation, polynomial reproduction)",
 "C06": "model-based property testing of operation histories (circular buffer model)",
 "C07": "model-based property testing against the f64 difference equation",
 "C08": "model-based property testing against the f64 difference equation",
 "C09": "model-based property testing: f64 recurrence, linearity and impulse relations",
 "C10": "property-based testing: frequency response of generated designs against the bilinear reference",
 "C11": "property-based testing: frequency response, boost/cut inverse relation",
 "C12": "property-based testing: pole location of generated designs, decay and boundedness runs",
 "C13": "model-based property testing of gate/parameter histories (protocol state machine)",
 "C14": "model-based property testing of stage progress and curves",
 "C15": "model-based property testing of step histories (twin accumulators, learned step)",
 "C16": "property-based testing with scripted phases and twin accumulator; phase sweep",
 "C17": "property-based testing with scripted phases against an f64 interpolation oracle",
 "C18": "round-trip testing over generated words (exhaustive enumeration)",
 "C19": "property-based testing against an exact integer-grid oracle, metamorphic relations",
 "C20": "property-based testing against an f64 oracle and error-order model",
 "C21": "property-based testing against f64 logarithm/power, monotonicity relation",
 "C22": "exhaustive generated inputs (fixed point) and property-based testing (float) against f64 sine",
 "C23": "property-based testing against f64 functions, symmetry and monotonicity relations",
 "C24": "property-based testing against f64 sine and quadrature of the sine integral",
 "C25": "property-based testing against a sine-integral reference curve, symmetry relations",
 "C26": "property-based testing against the panning laws, mirror/monotone/independence relations",
 "C27": "property-based testing of range, saturation, identity and panic freedom",
 "C28": "property-based testing: f64 oracle, round trip, oddness and scaling relations",
 "C29": "property-based testing of generated thread schedules against a sequential model: real threads in phases, and interleavings injected between single memory accesses (fault-and-single-step observer)",
 "C30": "property-based testing and fuzzing of every call with arbitrary arguments and histories: panic freedom, counted machine instructions bounded by those of ordinary calls",
 "C31": "metamorphic property-based testing: repeated, reordered and concurrent calls, interleaved against separate object histories, copies against originals, bit for bit",
 "C33": "property-based testing and fuzzing of every call with arbitrary arguments and histories under a counting allocator and an instruction-by-instruction observer",
 "C32": "metamorphic property-based testing: operation histories against equivalent ones (settings repeated, superseded, exchanged, queries inserted), bit for bit",
}
NOTE = ("Exploration: no counterexample among the generated cases, run in the shipped (release) build and in a build with overflow "
        "checks and debug assertions. Trusts the f64 reference/model in the harness, x86-64 IEEE arithmetic, and the pinned micromath; ")
EXTRA = {
 "C01": "out-of-buffer reads are seen through NaN canaries and AddressSanitizer redzones.",
 "C10": "numerical tolerances cover float rounding and the documented tangent approximation.",
 "C14": "curves are accepted anywhere between the exact power and the library's power approximation.",
 "C18": "all 2^32 words are enumerated in both tiers (release build).",
 "C22": "the fixed-point part is enumerated completely (65536 phases x 256 degrees).",
 "C29": "interleavings are injected between instructions that access the buffer (sequentially consistent; weak-memory reordering of the hardware is out of scope); merged or dropped accesses show in the optimised builds.",
 "C30": "work is measured as executed machine instructions (single-stepping), bounded by 20 times an ordinary call plus 3000.",
 "C31": "results are compared bit for bit (all NaNs equal) between runs of the same binary; real-thread runs sample schedules.",
 "C33": "measured in the harness's two optimised builds on x86-64; unoptimised builds may copy constant tables to the stack.",
 "C32": "results are compared bit for bit (all NaNs equal) between runs of the same binary.",
 "C27": "the three unimplemented clippers are listed as known findings; their saturation is still checked.",
}
NA = []
if __name__ == "__main__":
    rules = {k: v + " " + GEN.strip() for k, v in RULES.items()}
    json.dump(rules, open(os.path.join(HERE, "rules.json"), "w"), indent=1)
    checks = []
    for k in sorted(RULES):
        checks.append({
            "property": k,
            "quick_cmd": "python3 check.py %s" % k,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % k,
            "evidence_file": "evidence/%s.json" % k,
            "technique": TECH[k],
            "level": "exploration",
            "level_note": NOTE + EXTRA.get(k, "tolerances admit other evaluation orders of the same formula."),
        })
    json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": NA,
               "notes": "No hooks: every check drives the public API of /repo's crate. Replays: python3 check.py <id> --replay <file>."},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
