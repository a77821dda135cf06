#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--baseline]

Decides one property: symbolic execution (symx) of the harness entries listed for it in props.py,
over LLVM IR built from /repo's working tree.  Exit 0: held on everything explored.  Exit 1 and a
VIOLATION line: broken, with an input that fails when replayed natively.  Exit 2: no verdict."""
import concurrent.futures as cf
import json, os, random, re, resource, shutil, subprocess, sys, tempfile, time

import build
from props import PROPS

HERE = os.path.dirname(os.path.abspath(__file__))
KNOWN = os.path.join(HERE, "known-findings.txt")
EXPECT = os.path.join(HERE, "expect.json")
REPLAY_S = 20


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def replay(binary, entry, hexin):
    """Runs the real code on a concrete input: (outcome, text, logs)."""
    try:
        p = subprocess.run([binary, entry, hexin], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=REPLAY_S,
                           preexec_fn=limits, cwd="/", env={"PATH": "/usr/bin:/bin"})
    except subprocess.TimeoutExpired:
        return "hang", "no end within %d s" % REPLAY_S, None
    out = p.stdout.decode("utf-8", "replace")
    m = re.search(r"^LOGS (.*)$", out, re.M)
    logs = [int(x) for x in m.group(1).split(",") if x] if m else None
    kind = {0: "done", 42: "check", 43: "assumption", 44: "expected panic", 45: "panic"}.get(p.returncode, "crash %d" % p.returncode)
    return kind, "\n".join(l for l in out.splitlines() if not l.startswith(("LOGS", "REACH")))[-600:], logs


def reproduces(v, outcome, text):
    if outcome == "check":
        return v["kind"] != "check" or ("CHECK-FAILED " + v["label"]) in text
    return outcome == "panic" or outcome == "hang" or outcome.startswith("crash")


def known():
    """Lines `known: property=P entry=E key=K -- what fails` of the known-findings file."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) entry=(\S+) key=(.*?) -- (.*)$", l.strip())
            if m:
                out.append(m.groups())
    return out


def second_solver(smt, want):
    """Re-decides sampled queries with another solver; returns (agreed, skipped, disagreements)."""
    ok = skipped = 0
    bad = []
    for cmd in (["cvc5", "--lang=smt2", "--tlimit=5000", "-q"], ["z3-new", "-in", "-T:5"]):
        exe = shutil.which(cmd[0])
        if not exe:
            continue
        def one(q):
            try:
                r = subprocess.run([exe] + cmd[1:], input=q[0] if "(check-sat)" in q[0] else q[0] + "\n(check-sat)\n",
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=10).stdout
            except subprocess.TimeoutExpired:
                return None
            m = re.search(r"^(sat|unsat)$", r, re.M)
            return m.group(1) if m and "error" not in r else None
        with cf.ThreadPoolExecutor(8) as ex:
            for q, a in zip(smt, ex.map(one, smt)):
                w = q[1] if isinstance(q[1], str) else ("sat" if q[1] else "unsat")
                if a is None:
                    skipped += 1
                elif a == w:
                    ok += 1
                else:
                    bad.append((cmd[0], q[0][:2000]))
    return ok, skipped, bad


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    baseline = "--baseline" in a
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rnd = random.Random(seed)
    P = PROPS[prop]
    t0 = time.time()
    try:
        ll, nat, dg, build_s = build.build()
    except build.BuildError as e:
        print("BUILD FAILED\n" + str(e))
        return 2
    entries = list(P["quick"])
    if tier == "thorough":
        names = {e[0] for e in P.get("thorough", [])}
        entries = [e for e in entries if e[0] not in names] + list(P.get("thorough", []))
    expect = json.load(open(EXPECT)) if os.path.exists(EXPECT) else {}
    knowns = known()
    work = tempfile.mkdtemp(prefix="uwuhi-check-")
    outdir = os.path.join(HERE, "out", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    violations, unconfirmed, troubles, findings = [], [], [], []
    per, funcs, lines, samples = [], set(), {}, []
    tot = {k: 0 for k in ("paths", "pruned", "steps", "forks", "expected_panics", "queries", "sat", "unsat", "table", "guessed",
                          "table_checked", "cache_hits")}
    solver_s = 0.0
    validated = agreed = skipped = 0
    smt = []
    hits = {}
    newexp = {}
    for name, limit in entries:
        scale = 8 if tier == "thorough" else 1
        res = os.path.join(work, name + ".json")
        knownhere = any(k[0] == prop and k[1] == name for k in knowns)
        cmd = [build.SYMX, ll, name, "--time", str(limit * scale), "--out", res, "--samples", "3"]
        if not knownhere:
            cmd += ["--grace", "3"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if not os.path.exists(res):
            troubles.append("%s: symx failed (%s): %s" % (name, p.returncode, p.stdout[-800:]))
            continue
        d = json.load(open(res))
        os.unlink(res)
        if d["fatal"]:
            troubles.append("%s: %s" % (name, d["fatal"]))
        for k in tot:
            tot[k] += d[k]
        solver_s += d["solver_s"]
        funcs |= set(d["functions"])
        for f, l in d["lines"].items():
            lines.setdefault(f, set()).update(l)
        for k, v in d["reach"].items():
            hits[k] = hits.get(k, 0) + v
        newexp[name] = sorted(d["reach"])
        smt += d["smt"][:6]
        # violations: only what the real code shows too
        for v in d["violations"]:
            done = False
            for h in v["inputs"]:
                outcome, text, _ = replay(nat, name, h)
                if reproduces(v, outcome, text):
                    k = [x for x in knowns if x[0] == prop and x[1] == name and x[2] == v["key"]]
                    if k:
                        findings.append(k[0][3])
                    else:
                        violations.append((name, v, h, outcome, text))
                    done = True
                    break
            if not done:
                unconfirmed.append("%s: %s (native replay: %s)" % (name, v["key"], outcome))
        # paths taken at random: the native run must agree with the symbolic one
        ss = d["samples"]
        with cf.ThreadPoolExecutor(8) as ex:
            for s, (outcome, text, logs) in zip(ss, ex.map(lambda s: replay(nat, name, s["input"]), ss)):
                good = outcome == ("expected panic" if s["panic"] else "done")
                if good and (logs is None or [x & (2**64 - 1) for x in s["logs"]] == logs):
                    validated += 1
                else:
                    troubles.append("%s: path %s ends as %s natively (%s), logs %s / %s"
                                    % (name, s["input"], outcome, text, s["logs"], logs))
        if ss:
            s = rnd.choice(ss)
            samples.append({"entry": name, "input": s["input"], "outcome": "expected panic" if s["panic"] else "done", "logs": s["logs"][:16]})
        missing = [] if d["violations"] or not d["exhausted"] else [l for l in expect.get(name, []) if l not in d["reach"]]
        if missing:
            troubles.append("%s: never reached: %s" % (name, ", ".join(missing)))
        if not d["paths"]:
            troubles.append("%s: no path was completed" % name)
        per.append({
            "entry": name, "exhausted": d["exhausted"], "paths": d["paths"], "symbolic_bytes": d["sym_bytes"],
            "longest_path_instructions": d["max_steps"], "queries": d["queries"], "table_decisions": d["table"],
            "solver_s": round(d["solver_s"], 2), "wall_s": round(d["wall_s"], 2), "reached": d["reach"],
            "checks": {k: {"evaluated": v[0], "sent_to_solver": v[1]} for k, v in d["checks"].items()},
            "given_up": d["lost"],
        })
        if violations and tier == "quick":
            break
    rnd.shuffle(smt)
    if not violations:
        agreed, skipped, bad = second_solver(smt[: 40 if tier == "quick" else 400], None)
        for b in bad:
            troubles.append("solvers disagree (%s): %s" % b)
    shutil.rmtree(work, ignore_errors=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"],
            "transitions": tot["steps"],
            "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "explanation": "states = symbolic paths followed to their end (each stands for every input that takes it); "
                           "transitions = IR instructions executed symbolically; traces_validated = randomly chosen paths whose "
                           "model was run natively with the same outcome",
            "exhaustive": all(e["exhausted"] for e in per) and len(per) == len(entries),
            "bounds": P["bounds"],
            "outside": P.get("outside", ""),
            "entries": per,
            "functions_encoded": sorted(funcs),
            "source_lines_executed": {f: len(l) for f, l in sorted(lines.items())},
            "forks": tot["forks"], "infeasible_or_assumed_away": tot["pruned"], "expected_panics": tot["expected_panics"],
            "smt_queries": tot["queries"], "smt_sat": tot["sat"], "smt_unsat": tot["unsat"], "smt_cached": tot["cache_hits"],
            "single_byte_branches_decided_by_complete_table": tot["table"], "of_these_repeated_with_z3": tot["table_checked"],
            "branches_with_guessed_witness": tot["guessed"],
            "solver_s": round(solver_s, 2), "queries_repeated_with_second_solver": agreed, "second_solver_gave_no_answer": skipped,
            "source_digest": dg, "build_s": round(build_s, 1),
            "known_findings_seen": findings,
        },
        "assumptions": P.get("assumptions", []) + COMMON,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if baseline:
        if violations or troubles or unconfirmed:
            print("not recorded")
        else:
            expect.update(newexp)
            with open(EXPECT, "w") as f:
                json.dump(dict(sorted(expect.items())), f, indent=1)
    for e in per:
        print("%-24s %8d paths %8.1f s%s%s" % (e["entry"], e["paths"], e["wall_s"], "" if e["exhausted"] else "  (not exhausted)",
                                               "  gave up on: " + "; ".join(list(e["given_up"])[:2]) if e["given_up"] else ""))
    for w in sorted(set(findings)):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    for n, (name, v, h, outcome, text) in enumerate(violations):
        path = os.path.join(outdir, "%d.json" % n)
        with open(path, "w") as f:
            json.dump({"property": prop, "entry": name, "violation": v["key"], "input": h, "where": v["trace"], "native_outcome": outcome,
                       "native_output": text, "replay_with": "python3 %s/replay.py %s" % (HERE, path)}, f, indent=1)
        print("  %s: %s: %s" % (name, v["key"], text.strip()[-300:]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    for t in unconfirmed:
        print("NOT CONFIRMED: " + t)
    for t in troubles:
        print("TROUBLE: " + t[:1500])
    print("%s %s: %d paths, %d queries (%.1f s), %d validated natively, %.1f s" % (prop, tier, tot["paths"], tot["queries"], solver_s, validated, time.time() - t0))
    if violations:
        return 1
    return 2 if unconfirmed or troubles else 0


COMMON = [
    "the LLVM IR is rustc's for this tree at opt-level 1 with overflow checks and debug assertions on, 64-bit little endian",
    "allocation succeeds below 1 MiB per request; a larger request is reported as a violation",
    "symx (the symbolic executor in engine/) and Z3 are trusted; sampled paths are replayed natively and sampled queries repeated with cvc5 and a second Z3",
]

if __name__ == "__main__":
    sys.exit(main())
