#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decides one property on /repo's current tree.

Builds the symbolic executor and, from /repo's source, the LLVM IR of the harness; runs every
job of plan.py to completion; replays what fails natively; writes evidence/PROPERTY.json.
exit 0: held on everything explored; 1: VIOLATION; 2: the check could not decide."""
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import plan  # noqa: E402

BUILD = os.path.join(HERE, ".build")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
    ENV.pop(k, None)
# keep the optimiser from emitting vector code: the executor works on scalars
IR_FLAGS = "-C no-vectorize-loops -C no-vectorize-slp"


class Undecided(Exception):
    pass


def sh(cmd, cwd, env=ENV, timeout=700):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        raise Undecided("%s failed:\n%s" % (" ".join(cmd), "\n".join(r.stdout.splitlines()[-40:])))
    return r.stdout


def build_engine():
    sh(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "engine")], os.path.join(HERE, "engine"))
    return os.path.join(BUILD, "engine/release/sx")


def build_ir(tag, serde):
    """the harness and everything it calls, as LLVM IR; always from scratch, from /repo's current source"""
    d = os.path.join(BUILD, "ir-" + tag)
    shutil.rmtree(d, ignore_errors=True)
    ll = os.path.join(d, "harness.ll")
    os.makedirs(d)
    cmd = ["cargo", "rustc", "--lib", "--crate-type", "staticlib", "--release", "--offline", "--target-dir", os.path.join(d, "t")]
    if serde:
        cmd += ["--features", "serde"]
    cmd += ["--", "--emit=llvm-ir=" + ll]
    sh(cmd, os.path.join(HERE, "harness"), dict(ENV, RUSTFLAGS=IR_FLAGS))
    shutil.rmtree(os.path.join(d, "t"), ignore_errors=True)
    return ll


def native_cmd(tag, serde):
    d = os.path.join(BUILD, "native-" + tag)
    f = "native,serde" if serde else "native"
    return (["cargo", "build", "--profile", "replay", "--features", f, "--bin", "replay", "--offline", "--target-dir", d],
            os.path.join(d, "replay/replay"))


def model(job, values):
    return "fn %s\ncfg %s\nbytes %s\nend\n" % (job.fn, " ".join(map(str, job.cfg)), " ".join("%02x" % v for v in values))


def known(prop):
    """findings listed for this property: the model each one fails on"""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            if l.startswith("finding: property=%s " % prop):
                key, _, what = l.split(" ", 2)[2].partition(" ")
                out.append((key, what.strip()))
    return out


def main():
    prop = sys.argv[1]
    if prop == "setup":
        os.makedirs(BUILD, exist_ok=True)
        build_engine()
        for tag in ("plain", "serde"):
            sh(native_cmd(tag, tag == "serde")[0], os.path.join(HERE, "harness"))
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    serde = prop[0] == "E"
    os.makedirs(BUILD, exist_ok=True)
    sx = build_engine()
    tag = prop + "-" + tier
    ll = build_ir(tag, serde)
    t_build = time.time() - t0
    cmd, replay = native_cmd("serde" if serde else "plain", serde)
    # the native build runs beside the executor
    native = subprocess.Popen(cmd, cwd=os.path.join(HERE, "harness"), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    work = os.path.join(BUILD, "run-" + tag)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    js = plan.make(prop, tier)
    jobs_file, out_file = os.path.join(work, "jobs"), os.path.join(work, "out.json")
    with open(jobs_file, "w") as f:
        f.write("".join(j.text() for j in js))
    budget = 780 - (time.time() - t0) if tier == "quick" else 3600
    engine = [sx, ll, jobs_file, out_file, "--threads", str(os.cpu_count() or 4), "--budget", "%.0f" % budget, "--max-fails", "40"]
    if tier == "thorough" and os.environ.get("SX_CROSS"):
        engine += ["--cross", os.environ["SX_CROSS"]]
    r = subprocess.run(engine, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    nout, _ = native.communicate()
    os.remove(ll)
    if r.returncode != 0:
        raise Undecided("executor: " + r.stdout[-3000:])
    if native.returncode != 0:
        raise Undecided("native build: " + nout[-3000:])
    d = json.load(open(out_file))
    res = d["jobs"]

    # replay: failing models must fail in the real code, passing samples must pass and cover the same
    fails = [(j, msg, vals) for j, x in zip(js, res) for msg, vals in x["fails"]]
    samples = [(j, cov, vals) for j, x in zip(js, res) for cov, vals in x["samples"]]
    batch = os.path.join(work, "samples")
    with open(batch, "w") as f:
        f.write("".join(model(j, v) for j, _, v in samples))
    validated, mismatches = 0, []
    if samples:
        out = sh([replay, "--batch", batch], work, timeout=300).split("\n")
        for (j, cov, vals), l in zip(samples, out):
            _, o, c = l.split()
            if o == "held" and int(c) == cov:
                validated += 1
            else:
                mismatches.append("%s on %s: executor held/%d, native %s/%s" % (j.name, bytes(vals), cov, o, c))
    violations, ghosts, slow, listed = [], [], [], []
    findings = known(prop)
    # paths the executor could not follow are no failures; the real code shows whether they are
    lost = [(j, msg, vals) for j, x in zip(js, res) for msg, vals in x["lost"]][:200]
    lost_failed = []
    if lost:
        with open(batch, "w") as f:
            f.write("".join(model(j, v) for j, _, v in lost))
        try:
            out = sh([replay, "--batch", batch], work, timeout=120).split("\n")
            lost_failed = [z for z, l in zip(lost, out) if l.split()[1] in ("failed", "panic")]
        except (Undecided, subprocess.TimeoutExpired, IndexError):
            lost_failed = lost[:10]
    for k, (j, msg, vals) in enumerate(fails + lost_failed):
        path = os.path.join(work, "violation-%d" % k)
        m = model(j, vals)
        with open(path, "w") as f:
            f.write(m)
        try:
            q = subprocess.run([replay, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60, errors="replace")
            code, text = q.returncode, q.stdout
        except subprocess.TimeoutExpired:
            code, text = 1, "no end within 60 s\n"
        with open(path, "a") as f:
            f.write("".join("# %s\n" % l for l in ["job: " + j.name, "executor: " + msg] + text.splitlines()))
        if code in (1, 101) or code < 0:
            doc = text.split("\n")
            hit = [w for key, w in findings if any(key == json.dumps(l, ensure_ascii=True).replace(" ", "\\u0020") for l in doc)]
            if hit:
                listed.append(hit[0])
            else:
                violations.append((path, text))
        elif k < len(fails) and msg.startswith("no termination"):
            slow.append(j.name)
        elif k < len(fails):
            ghosts.append("%s: `%s` on %s does not fail natively (exit %d)" % (j.name, msg, bytes(vals), code))
        if len(violations) >= 5:
            break

    complete = [x for x in res if x["complete"]]
    engine_errors = [e for x in res for e in x["engine"]]
    covered = 0
    for x in res:
        covered |= x["covers"]
    need = plan.NEED[prop]
    undecided, gaps = [], []
    if d["panicked"]:
        undecided.append("%d executor threads panicked" % d["panicked"])
    if ghosts:
        undecided.append("not reproduced: " + ghosts[0])
    if mismatches:
        undecided.append("executor and native code disagree: " + mismatches[0])
    if not violations and len(complete) < len(res):
        gaps.append("%d of %d jobs incomplete, first: %s%s" % (
            len(res) - len(complete), len(res), [x for x in res if not x["complete"]][0]["name"], "; executor: " + engine_errors[0] if engine_errors else ""))
        # most of what was asked has to be decided, or there is no answer
        if len(complete) * 2 < len(res):
            undecided += gaps
    if slow:
        gaps.append("%d paths cut at the step limit, which end natively, first in: %s" % (len(slow), slow[0]))
    if not violations and not undecided and covered & need != need:
        undecided.append("coverage marks never reached: %#x" % (need & ~covered))

    paths = sum(x["paths"] for x in res)
    shown = sorted(zip(js, res), key=lambda z: -z[1]["paths"])[:4]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": paths,
            "transitions": d["forks"],
            "traces_validated_against_impl": validated,
            "samples": [{"job": j.name, "inputs": x["inputs"], "paths": x["paths"], "model": bytes(v).decode("utf-8", "replace")}
                        for j, x in shown for _, v in x["samples"][:2]],
            "explanation": "states: symbolic paths of the real code run to their end; transitions: branches on symbolic data decided; "
                           "every job is exhausted (the domains of its paths add up to all its inputs) unless listed as incomplete",
            "jobs": len(res), "jobs_complete": len(complete), "inputs_covered": sum(x["volume"] for x in res),
            "inputs_assumed_away": sum(x["assumed_volume"] for x in res),
            "symbolic_bytes_max": max(x["symbolic_bytes"] for x in res),
            "steps_max": max(x["max_steps"] for x in res),
            "bounds": bounds(js),
            "ir_instructions": d["insts"], "branch_decisions": d["decisions"], "decisions_confirmed_by_solver": d["decisions_confirmed"],
            "assertions": d["checks"], "solver_queries": d["queries"], "solver_sat": d["sat"], "solver_unsat": d["unsat"],
            "solver_cache_hits": d["cache_hits"], "solver_s": d["solver_s"],
            "functions_encoded": len(d["functions"]),
            "functions_of_the_crate": [f for f in d["functions"] if "yamd" in f and "yh" not in f][:400],
            "coverage_marks": "%#x" % covered, "coverage_marks_needed": "%#x" % need,
            "exhaustive": len(complete) == len(res) and not slow,
            "build_s": round(t_build, 1), "executor_s": d["wall"],
            "undecided": undecided,
            "gaps": gaps,
            "paths_lost": sum(x["nlost"] for x in res),
        },
        "assumptions": [
            "memory allocation never fails; the allocator is the executor's own",
            "the code is the one rustc stable compiles at opt-level 2 with debug assertions and overflow checks on",
            "inputs outside the stated templates and lengths are not covered",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    # listed findings that lie outside the bounds: still there?
    for key, what in findings:
        j = plan.FINDINGS.get(key)
        if j:
            path = os.path.join(work, "finding-" + key)
            with open(path, "w") as f:
                f.write(model(j, []))
            try:
                code = subprocess.run([replay, path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode
            except subprocess.TimeoutExpired:
                code = 1
            if code != 0:
                listed.append(what)
    for w in sorted(set(listed)):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    print("%s %s: %d jobs (%d complete), %d paths, %d inputs, %d solver queries, %d traces replayed, %.0f s" % (
        prop, tier, len(res), len(complete), paths, evidence["coverage"]["inputs_covered"], d["queries"], validated, time.time() - t0))
    if violations:
        for path, text in violations:
            print(text.rstrip())
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for g in gaps:
        print("GAP " + g)
    if undecided:
        for u in undecided:
            print("UNDECIDED " + u)
        return 2
    return 0


def bounds(js):
    """jobs grouped by the shape of their name, with the number of symbolic bytes"""
    n = {}
    for j in js:
        n[len(j.doms)] = n.get(len(j.doms), 0) + 1
    return {"%d symbolic" % k: "%d jobs" % v for k, v in sorted(n.items())}


if __name__ == "__main__":
    try:
        sys.exit(main())
    except (Undecided, subprocess.TimeoutExpired) as e:
        print("UNDECIDED", e)
        sys.exit(2)
