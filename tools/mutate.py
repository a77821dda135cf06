#!/usr/bin/env python3
"""mutate.py OUT.jsonl [N-workers] [regex of files] [sample] : looks for holes in the checks.

Makes small changes to the sources (one each), keeps those that compile and pass the tests, and runs the quick checks
of the properties the file matters to, in a mount namespace of its own with copies of /repo and /verif, until
one reports a violation.  Writes one line per mutant; those with "by": null are what to look at."""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time

PROPS = [
    (r"src/error.rs", "C23 C01"),
    (r"src/hex.rs", "C01 C20"),
    (r"src/name.rs", "C03 C23 C13 C02 C06 C07"),
    (r"src/num.rs", "C08 C09 C23 C01"),
    (r"src/packet.rs", "C08 C09 C23 C01 C05 C20"),
    (r"src/packet/decoder.rs", "C02 C05 C04 C01 C23 C20 C08"),
    (r"src/packet/encoder.rs", "C06 C07 C22 C23 C08"),
    (r"src/packet/macros.rs", "C09 C23"),
    (r"src/packet/records.rs", "C04 C06 C23 C01 C09"),
    (r"src/packet/section.rs", "C01 C05 C20 C23"),
    (r"src/resolver.rs", "C24 C16 C22 C15"),
    (r"src/service.rs", "C13 C14 C12 C18 C23 C10 C17"),
    (r"src/service/advertising.rs", "C24 C10 C11 C21 C12"),
    (r"src/service/discovery.rs", "C24 C18 C22 C12 C17"),
    (r"src/tap.rs", "C24 C20"),
    (r"uwuhi-async/src/resolver.rs", "C24 C19 C22"),
    (r"uwuhi-async/src/service/advertising.rs", "C24 C21"),
    (r"uwuhi-async/src/service/discovery.rs", "C24 C19 C22"),
]


def mutants(path, src):
    lines = src.split("\n")
    # leave out the test modules
    skip = set()
    for i, l in enumerate(lines):
        if re.match(r"\s*#\[cfg\(test\)\]", l):
            depth, j, seen = 0, i + 1, False
            while j < len(lines):
                depth += lines[j].count("{") - lines[j].count("}")
                seen |= "{" in lines[j]
                skip.add(j)
                if (seen and depth <= 0) or (not seen and lines[j].rstrip().endswith(";")):
                    break
                j += 1
    out = []

    def add(i, new, what):
        if new != lines[i]:
            out.append((i + 1, what, "\n".join(lines[:i] + ([new] if new is not None else []) + lines[i + 1 :])))

    log = False
    for i, l in enumerate(lines):
        s = l.strip()
        if i in skip or not s or s.startswith("//") or s.startswith("#[") or s.startswith("use "):
            continue
        if re.match(r"(log::)?(trace|debug|warn|error|info)!", s):
            log = True
        if log:
            if s.endswith(";") or s.endswith("),") or s.endswith(")"):
                log = False
            continue
        code = l.split("//")[0]
        # statement deletion
        if re.match(r"^\s+(?!let |return |pub |fn |use |struct |\}|type |impl )[^{}]*;\s*$", code):
            add(i, re.match(r"\s*", l).group() + "/* deleted */", "delete " + s)
        subs = [
            (r"(?<![-=<>])<(?![=<])(?= )", "<="), (r"(?<= )<=", "<"), (r"(?<= )>(?![=>])(?= )", ">="), (r"(?<= )>=", ">"),
            (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|(?= )", "&&"),
            (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
            (r"(?<= )\+(?= )", "-"), (r"(?<= )-(?= )", "+"), (r"<<", ">>"), (r">>(?= )", "<<"),
            (r"(?<= )\|(?= )", "&"), (r"(?<= )&(?= )", "|"), (r"\+=", "-="), (r"-=", "+="), (r"\|=", "&="),
            (r"\bSome\((\w+)\) =>", r"Some(\1) if false =>"),
            (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"\bcontinue;", ""),
            (r"\.is_empty\(\)", ".is_empty() == false"), (r"\bif !", "if "), (r"\bif (?!let|!)", "if !"),
            (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
            (r"\bif (?!let)(.*) \{", r"if true || (\1) {"), (r"\bif (?!let)(.*) \{", r"if false && (\1) {"),
            (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\.\.=", ".."), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
            (r"_be_bytes", "_le_bytes"), (r"\bread_u16\b", "read_u8"), (r"\.eq_ignore_ascii_case\((.*?)\)", r" == *\1"),
            (r"Ipv4Addr", "Ipv6Addr"), (r"\bA\b", "AAAA"), (r"\bPTR\b", "SRV"), (r"\bSRV\b", "PTR"), (r"\bTXT\b", "SRV"),
            (r"\?;", ".ok();"), (r"Ok\(None\)", "Err(Error::Eof)"), (r"Err\(Error::(\w+)\)", "Err(Error::InvalidValue)"),
            (r"\.extend\(", ".clone_from(&"), (r"\.push\(", ".insert(0, "), (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""),
            (r"\.take\((.*?)\)", ""), (r"\.filter\(", ".skip_while("),
        ]
        for a, b in subs:
            for m in re.finditer(a, code):
                add(i, code[: m.start()] + m.expand(b) + code[m.end() :], "%s -> %s : %s" % (m.group(), m.expand(b), s))
        for m in re.finditer(r"(?<![\w.\"#])(0x[0-9a-fA-F_]+|0b[01_]+|\d+)(?![\w\"])", code):
            try:
                v = int(m.group().replace("_", ""), 0)
            except ValueError:
                continue
            for n in {v + 1, v - 1, v * 2} - {v}:
                if n >= 0:
                    add(i, code[: m.start()] + str(n) + code[m.end() :], "%d -> %d : %s" % (v, n, s))
        m = re.match(r"^(\s+)return (.*);", code)
        if m:
            add(i, m.group(1) + "/* no return */", "drop return : " + s)
    # swap neighbouring statements
    for i in range(len(lines) - 1):
        if i in skip or i + 1 in skip:
            continue
        st = r"^\s{4,}(?!\}|//|#|use |pub |type )[^{}]*;\s*$"
        if re.match(st, lines[i]) and re.match(st, lines[i + 1]) and not re.search(r"log::|trace!|debug!", lines[i] + lines[i + 1]):
            out.append((i + 1, "swap with next : " + lines[i].strip(), "\n".join(lines[:i] + [lines[i + 1], lines[i]] + lines[i + 2 :])))
    seen, res = set(), []
    for n, w, t in out:
        if t not in seen and t != src:
            seen.add(t)
            res.append((n, w, t))
    return res


def ns(w, cmd, timeout):
    sh = "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /repo && %s" % (w, w, cmd)
    p = subprocess.Popen(["unshare", "-Urm", "sh", "-c", sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return -9, "timeout"


def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b


def main():
    out = sys.argv[1]
    nw = int(sys.argv[2]) if len(sys.argv) > 2 else 4
    pat = sys.argv[3] if len(sys.argv) > 3 else "."
    sample = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    jobs = []
    for f, props in PROPS:
        if not re.search(pat, f):
            continue
        src = open("/repo/" + f).read()
        ms = [(f, n, w, t, props.split()) for n, w, t in mutants(f, src)]
        if sample and len(ms) > sample:
            ms = random.Random(7).sample(ms, sample)
        jobs += ms
    done = set()
    if os.path.exists(out):
        done = {(j["file"], j["line"], j["what"]) for j in map(json.loads, open(out))}
    jobs = [j for j in jobs if (j[0], j[1], j[2]) not in done]
    print(len(jobs), "mutants", flush=True)
    random.Random(3).shuffle(jobs)
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    lock = threading.Lock()

    def work(k):
        w = "/tmp/mut/w%d" % k
        if not os.path.exists(w):
            os.makedirs(w)
            subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
            subprocess.run(["cp", "-a", "/verif", w + "/verif"], check=True)
        else:
            subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "/repo/", w + "/repo/"])
        while True:
            try:
                f, n, what, t, props = q.get_nowait()
            except queue.Empty:
                return
            p = w + "/repo/" + f
            orig = open("/repo/" + f).read()
            open(p, "w").write(t)
            r = {"file": f, "line": n, "what": what}
            try:
                rc, o = ns(w, "RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu timeout 300 cargo test --workspace --offline --no-run", 320)
                if rc:
                    r["state"] = "no-compile"
                    continue
                rc, o = ns(w, "RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu timeout 60 cargo test --workspace --offline", 80)
                if rc:
                    r["state"] = "tests"
                    continue
                r["state"] = "survives tests"
                r["by"] = None
                for pr in props:
                    s = time.time()
                    rc, o = ns(w, "cd /verif && python3 check.py %s --tier quick" % pr, 900)
                    r.setdefault("ran", []).append([pr, rc, round(time.time() - s)])
                    if rc == 1:
                        r["by"] = pr
                        break
                    if rc not in (0, 1):
                        r["trouble"] = o[-1500:]
            finally:
                open(p, "w").write(orig)
                with lock:
                    with open(out, "a") as g:
                        g.write(json.dumps(r) + "\n")

    ts = [threading.Thread(target=work, args=(k,)) for k in range(nw)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
