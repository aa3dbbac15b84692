#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property by symbolic execution of the code under test."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import jobs as J  # noqa: E402

REPO = "/repo"
VIOLATES = (10, 11, 14, 15)  # how the native run of a violation ends
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
ENGINE = os.path.join(HERE, "engine/target/release/lpsym")
REPLAY = os.path.join(HERE, "replay/target/replay")
HARNESS = os.path.join(HERE, "harness")
TARGET = {"dev": ("release", os.path.join(HARNESS, "target")), "rel": ("relsem", os.path.join(HARNESS, "target-rel")),
          "rx": ("release", os.path.join(HARNESS, "target-rx"))}
FEATURES = {"rx": ["--features", "rx"]}


def ll(prof):
    return os.path.join(TARGET[prof][1], TARGET[prof][0], "deps", "harness.ll")


def so(prof):
    return os.path.join(TARGET[prof][1], TARGET[prof][0], "libharness.so")


def fail(msg):
    print("ERROR " + msg, flush=True)
    sys.exit(2)


def sh(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError("%s: %s" % (" ".join(cmd), p.stdout[-3000:]))


def sources():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(HARNESS, "src")):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(HARNESS, "Cargo.toml")):
        h.update(open(p, "rb").read())
    return h.hexdigest()


def build_ir(prof, digest):
    name, target = TARGET[prof]
    stamp = os.path.join(target, "stamp-" + name)
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old == digest and os.path.exists(ll(prof)) and os.path.exists(so(prof)):
        return
    if os.path.exists(target):
        # never trust modification times: what is under test is compiled again
        for p in ("lang_pt", "harness"):
            subprocess.run(["cargo", "clean", "--profile", name, "--target-dir", target, "-p", p, "--offline"], cwd=HARNESS, env=ENV, capture_output=True)
    if os.path.exists(ll(prof)):
        os.remove(ll(prof))
    sh(["cargo", "rustc", "--lib", "--crate-type", "cdylib", "--profile", name, "--target-dir", target, *FEATURES.get(prof, []), "--offline", "--", "--emit=llvm-ir"], HARNESS)
    if not os.path.exists(ll(prof)) or not os.path.exists(so(prof)):
        raise RuntimeError("no IR was written for " + prof)
    open(stamp, "w").write(digest)


def build(profs):
    lock = open(os.path.join(HERE, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    os.makedirs(os.path.dirname(REPLAY), exist_ok=True)
    digest = sources()
    steps = [lambda p=p: build_ir(p, digest) for p in profs]
    steps.append(lambda: sh(["cargo", "build", "--release", "--offline"], os.path.join(HERE, "engine")))
    steps.append(lambda: sh(["gcc", "-O1", "-rdynamic", "-o", REPLAY, os.path.join(HERE, "replay/replay.c"), "-ldl"], HERE))
    with cf.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(s) for s in steps]:
            f.result()
    fcntl.flock(lock, fcntl.LOCK_UN)


def nums(v):
    return ",".join(str(x) for x in v) or "-"


def known_findings(prop):
    """lines `known: property=P14 harness=h_known params=0 check=<text of the violation> | <what fails>`"""
    r = []
    for l in open(os.path.join(HERE, "known-findings.txt")):
        if l.startswith("known:"):
            head, what = l[6:].split("|", 1)
            d, key = {}, None
            for w in head.split():
                k, eq, v = w.partition("=")
                if eq and k in ("property", "harness", "params", "inputs", "check"):
                    d[k] = v
                    key = k
                else:
                    d[key] += " " + w
            if d["property"] == prop:
                r.append((d, what.strip()))
    return r


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    todo = J.jobs(prop, tier)
    profs = sorted({j[0] for j in todo})
    try:
        build(profs)
    except RuntimeError as e:
        fail("build: %s" % e)
    t_build = time.time() - t0
    budget = 500 if tier == "quick" else 3000
    deadline = time.time() + budget
    out = os.path.join(HERE, "out", prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)

    known = known_findings(prop)

    def listed(h, p, v):
        return [w for d, w in known if d["harness"] == h and d["params"] == nums(p) and d["check"] in v["msg"]]

    def native(prof, h, p, v):
        """runs the inputs of a violation in the compiled code"""
        return subprocess.run([REPLAY, "one", so(prof), h, nums(p), nums(v["inputs"])], capture_output=True, text=True)

    stop = threading.Event()  # set once there is a confirmed violation: the other instances need not be finished

    def run(j, cap):
        prof, h, p, part = j
        name = "%s-%s-%s" % (prof, h, "_".join(str(x) for x in p)) + ("-part%d" % part[0] if part else "")
        f = os.path.join(out, name + ".json")
        left = min(deadline - time.time(), cap)
        if left < 1 or stop.is_set():
            return j, None
        cmd = [ENGINE, ll(prof), "--harness", h, "--param", nums(p), "--time", "%d" % left, "--out", f, "--cov", REPO + "/src", "--samples", "60"]
        if part:
            cmd += ["--shard", "%d/%d/%d" % part]
        if tier == "thorough":
            cmd += ["--dump", os.path.join(out, "q", name), "--dump-cap", "12"]
        err = tempfile.TemporaryFile("w+")
        e = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err)
        grace = 15
        while True:
            try:
                e.wait(1)
                break
            except subprocess.TimeoutExpired:
                grace -= stop.is_set()
                if grace < 0:
                    e.kill()
                    e.wait()
                    return j, None
        if not os.path.exists(f):
            err.seek(0)
            return j, {"status": "error", "error": "engine ended with %d: %s" % (e.returncode, err.read()[-500:])}
        d = json.load(open(f))
        for v in d.get("violations", []):
            if not listed(h, p, v) and not stop.is_set() and native(prof, h, p, v).returncode in VIOLATES:
                stop.set()
        return j, d

    random.seed(seed)
    # The longest first, as far as it is known. No instance gets all of the time before each had its turn: where the code has become harder,
    # the others are decided all the same.
    order = sorted(todo, key=lambda j: (-J.cost(j), random.random()))
    turn = (lambda j: max(45, 4 * J.cost(j))) if tier == "quick" else (lambda j: max(240, 4 * J.cost(j)))
    with cf.ThreadPoolExecutor(8) as ex:
        res = dict(ex.map(lambda j: run(j, turn(j)), order))
        again = [j for j in order if res[j] and "time budget" in (res[j].get("error") or "") and not res[j].get("violations")]
        for j, d in ex.map(lambda j: run(j, budget), again):
            res[j] = d or res[j]
    res = list(res.items())

    # -- what went wrong
    errors, incomplete, violations, covers = [], [], [], {}
    for j, d in res:
        if d is None:
            incomplete.append(j)
            continue
        for v in d.get("violations", []):
            violations.append((j, v))
        if d["status"] == "error" or d.get("error"):
            if "time budget" in d["error"]:
                incomplete.append(j)
            else:
                errors.append((j, d["error"]))
        for c, n in d.get("covers", {}).items():
            covers.setdefault(j[1], {}).setdefault(c, 0)
            covers[j[1]][c] += n
    reported, findings, unconfirmed, seen = [], [], [], set()
    for (prof, h, p, _), v in violations:
        k = listed(h, p, v)
        key = (h, v["kind"], v["msg"])
        if not k and (key in seen or len(reported) >= 8):
            continue
        r = native(prof, h, p, v)
        says = r.stdout.strip().splitlines()[-1:] or [""]
        if r.returncode in VIOLATES:
            if k:
                findings.append(k[0])
                continue
            seen.add(key)
            reported.append({"property": prop, "profile": prof, "harness": h, "params": list(p), "inputs": v["inputs"], "kind": v["kind"],
                             "check": v["msg"], "stack": v["stack"], "native": "exit %d: %s" % (r.returncode, says[0]), "stderr": r.stderr[-1500:]})
        else:
            unconfirmed.append((h, p, v, r.returncode, says[0]))

    # -- the executor against the compiled code: the same inputs have to give the same observations
    n_val = n_bad = 0
    mismatches = []
    for prof in profs:
        batch = os.path.join(out, "batch-" + prof)
        with open(batch, "w") as f:
            for (pr, h, p, _), d in res:
                if pr == prof and d:
                    for s in d.get("samples", []):
                        f.write("%s %s %s %s %d\n" % (h, nums(p), nums(s["inputs"]), nums(s["obs"]), int(s["panic"])))
        r = subprocess.run([REPLAY, "batch", so(prof), batch], capture_output=True, text=True)
        last = r.stdout.strip().splitlines()[-1:] or [""]
        if not last[0].startswith("batch"):
            errors.append((("", prof, (), None), "replay failed: " + r.stdout[-300:] + r.stderr[-300:]))
            continue
        n_val += int(last[0].split()[1])
        n_bad += int(last[0].split()[2])
        mismatches += [l for l in r.stdout.splitlines() if l.startswith("MISMATCH")]

    solver2 = second_solver(out) if tier == "thorough" else None
    if solver2 and solver2["disagree"]:
        errors.append((("", "", (), None), "the second solver disagrees: %s" % solver2["disagree"][:3]))

    # -- evidence
    done = [(j, d) for j, d in res if d]
    tot = lambda k: sum(d.get(k, 0) for _, d in done)  # noqa: E731
    fns, lines = set(), {}
    for _, d in done:
        fns.update(d.get("functions", []))
        for f, l in d.get("lines", {}).items():
            lines.setdefault(f, set()).update(l)
    samples = []
    for (pr, h, p, _), d in done:
        for s in d.get("samples", [])[:1]:
            if len(samples) < 12:
                samples.append({"harness": h, "params": list(p), "inputs": s["inputs"], "observed": s["obs"][:24], "panic": s["panic"]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("instructions"), "traces_validated_against_impl": n_val - n_bad, "samples": samples,
            "states_are": "completed symbolic execution paths (each stands for all inputs which satisfy its path condition)",
            "transitions_are": "LLVM IR instructions executed symbolically",
            "exhaustive": not incomplete and not errors,
            "instances": len(todo), "instances_incomplete": [list(j) for j in incomplete],
            "branches_forked": tot("forks"), "paths_ended_in_a_panic": tot("paths_panic"), "paths_infeasible": tot("paths_infeasible"),
            "assertions_on_paths": tot("asserts"), "assertions_decided_by_the_solver": tot("asserts_symbolic"),
            "queries_sat": tot("queries_sat"), "queries_unsat": tot("queries_unsat"), "queries_unknown": tot("queries_unknown"),
            "solver_s": round(tot("solver_s"), 3), "longest_query_s": max([d.get("max_query_s", 0) for _, d in done] or [0]),
            "solver": next((d["solver"] for _, d in done if d.get("solver")), ""), "second_solver": solver2,
            "functions_encoded": sorted(fns), "lines_encoded": {os.path.relpath(f, REPO): len(l) for f, l in sorted(lines.items())},
            "reached": covers, "bounds": J_bounds(todo), "build_s": round(t_build, 1),
            "longest_path_inputs": max([d.get("max_inputs", 0) for _, d in done] or [0]), "deepest_call": max([d.get("max_depth", 0) for _, d in done] or [0]),
        },
        "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - t0, 1), "violations": len(reported),
    }
    if findings:
        ev["coverage"]["known_findings"] = sorted(set(findings))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)

    print("%s %s: %d instances, %d paths, %d instructions, %d+%d queries, %.1f s solver, %d traces validated, build %.0f s, %.0f s in all" % (
        prop, tier, len(todo), tot("paths"), tot("instructions"), tot("queries_sat"), tot("queries_unsat"), tot("solver_s"), n_val - n_bad, t_build, time.time() - t0))
    for f in sorted(set(findings)):
        print("KNOWN-FINDING: property=%s %s" % (prop, f))
    for j in incomplete:
        print("INCOMPLETE %s %s" % (j[1], nums(j[2])))
    if reported:
        for i, v in enumerate(reported):
            f = os.path.join(out, "violation-%d.json" % i)
            v["replay"] = "%s one %s %s %s %s" % (REPLAY, so(v["profile"]), v["harness"], nums(v["params"]), nums(v["inputs"]))
            json.dump(v, open(f, "w"), indent=1)
            print("%s %s inputs %s: %s (native: %s)" % (v["harness"], nums(v["params"]), nums(v["inputs"]), v["check"], v["native"]))
            print("VIOLATION property=%s replay=%s" % (prop, f), flush=True)
        sys.exit(1)
    for h, p, v, rc, says in unconfirmed:
        print("UNCONFIRMED %s %s %s: %s, native %d %s" % (h, nums(p), nums(v["inputs"]), v["msg"], rc, says))
    for m in mismatches:
        print(m)
    for j, e in errors:
        print("ERROR %s %s: %s" % (j[1], nums(j[2]), e))
    # an instance the executor cannot encode is undecided, like one which ran out of time: unless nothing was decided at all
    lost = [j for j, e in errors if j[1]]
    if unconfirmed or mismatches or len(lost) < len(errors) or len(lost) + len(incomplete) == len(todo):
        fail("the machinery failed")
    got = {}
    for h, cs in covers.items():
        for c, n in cs.items():
            got[J.FAMILY.get(h, h), c] = n
    missing = sorted({(h, c) for _, h, _, _ in todo for c in J.COVERS[h] if not got.get((J.FAMILY.get(h, h), c))})
    if missing and not lost and not incomplete:
        fail("never reached: %s" % missing)
    sys.exit(0)


def second_solver(out):
    """a sample of the queries again, by another solver"""
    q = os.path.join(out, "q")
    n, bad, t = 0, [], time.time()
    fs = [os.path.join(d, f) for d, _, x in os.walk(q) for f in x if f.endswith(".smt2")]
    fs.sort()

    def one(f):
        want = "unsat" if "unsat" in os.path.basename(f) else "sat"
        r = subprocess.run(["cvc5", "--tlimit=20000", f], capture_output=True, text=True).stdout.split()
        return f, want, (r or ["none"])[0]

    with cf.ThreadPoolExecutor(8) as ex:
        for f, want, r in ex.map(one, fs[:400]):
            n += 1
            if r in ("sat", "unsat") and r != want:
                bad.append(os.path.basename(f))
    return {"solver": "cvc5", "queries": n, "disagree": bad, "wall_s": round(time.time() - t, 1)}


def J_bounds(todo):
    r = {}
    for prof, h, p, part in todo:
        r.setdefault(h, []).append(nums(p) + (" rel" if prof == "rel" else ""))
    return {h: {"instances": len(v), "parameters": sorted(set(v))[:60], "meaning": BOUNDS.get(h, "")} for h, v in r.items()}


BOUNDS = {
    "h_abs": "mode, input length, different arbitrary operands (1-3), projection, most children an operand gives, validation errors (0 none, 1 where the token can begin the operand, 2 anywhere), construct, construct of its operands, construct of theirs",
    "h_parse": "construct, mode (0 structural tokens, 1 all tokens, 2 bytes, 3 parser, 4 lexerless parser), operand pool, input length, projection, context (10 all), shard, shards",
    "h_nest": "construct, construct of its operands, mode, operand pool, input length, projection, shard, shards",
    "h_rec": "recursive grammar, mode, input length, projection",
    "h_words": "kind, most words, longest word, input length, level of the log (6: any)",
    "h_tokenizer": "lexemes, longest code, longest token, arbitrary code bytes",
    "h_combined": "states, lexemes per state, code length, longest token, arbitrary code bytes",
    "h_mixin": "kind, depth of the state stack, level of the log (6: any)",
    "h_wrap": "kind, code length, level of the log (6: any)",
    "h_nested": "code length, level of the logs (6: any)",
    "h_tokset": "most tokens in the set, raw",
    "h_position": "longest text",
    "h_stream": "most tokens",
    "h_tree": "most nodes, depth",
    "h_history": "grammar, lexerless, operand pool, input length, context",
    "h_variant": "grammar, mode, operand pool (99 arbitrary operands), input length, context, 1 logs 2 other construction, level of the logs (6: any)",
    "h_agree": "recursive grammar, or 100 + construct, input length, operand pool, context",
    "h_bytes": "recursive grammar, input length",
    "h_cache": "operand pool (0 arbitrary operands), mode, input length, shard, shards, children, validation errors",
    "h_unset": "nodes, kinds of nodes, terminals, input length, further kinds the last node is of, which may lack symbols (0 any, 1 the last, 2 the first), kind of the first node + 1",
    "h_leftrec": "nodes, kinds of nodes, terminals, input length, further kinds the last node is of",
    "h_debug": "grammar, lexerless, operand pool (99 arbitrary operands), input length",
    "h_pattern": "expression (a list of 25 in rex.rs), longest code from the position on, most bytes before it, level of the log (6: any)",
    "h_pattern_any": "longest code from the position on, most bytes before it, elements an expression is made of (one or two, each repeated in 6 ways, in sequence or as alternatives)",
    "h_field": "expression, longest code from the position on, most bytes before it, level of the log (6: any)",
    "h_rx": "construct, regular expression operands, code length, contexts, 0 productions 1 parser",
    "h_json": "0 lexerless 1 tokenized, length of the arbitrary part, 0 arbitrary bytes 1-7 letters of an alphabet 8-17 arbitrary bytes with fixed text around (rx.rs)",
    "h_print": "-",
    "h_known": "which known finding",
}
ASSUMPTIONS = [
    "the LLVM IR rustc 1.99.1 writes for the harness and lang_pt (opt-level 1, debug assertions and overflow checks on unless marked rel) means what the compiled crate does; sampled paths are compared with the compiled library on every run",
    "the executor's own semantics of LLVM IR, of the allocator and of memcpy/memcmp/memset, and Z3 4.8.12 are trusted; allocation never fails",
    "stand-ins: getrandom answers zeros, write/writev succeed, getenv finds nothing, there are no files, one processor, thread locals and locks run single threaded",
    "tokens hash to a constant (a lawful Hash), so that hash sets of symbolic tokens compare them for equality",
    "outside the claim: anything beyond the stated bounds (input length, operand pool, nesting, regular expressions), grammar printing",
]

if __name__ == "__main__":
    main()
