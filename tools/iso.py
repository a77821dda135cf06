#!/usr/bin/env python3
"""iso.py [-j N] catch ID… | quiet NAME… [-- PROP…]: runs quick checks on planted changes (each with the check of
its property) or on refactorings (all checks), in mount namespaces with copies of /repo and /verif."""
import json, os, queue, subprocess, sys, threading, time

PROPS = ["C%02d" % i for i in range(1, 25)]


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    a = sys.argv[1:]
    n = 2
    if a[0] == "-j":
        n = int(a[1])
        a = a[2:]
    mode, a = a[0], a[1:]
    props = PROPS
    if "--" in a:
        props = a[a.index("--") + 1 :]
        a = a[: a.index("--")]
    jobs = []
    for x in a:
        if mode == "catch":
            jobs.append((x, "/verif/seeded/%s/patch.diff" % x, [json.load(open("/verif/seeded/%s/meta.json" % x))["property"]] if props is PROPS else props))
        else:
            jobs.append((x, "/verif/tools/refactors/%s.diff" % x, props))
    q = queue.Queue()
    for j in jobs:
        q.put(j)

    def work(k):
        w = "/tmp/iso/%s%d" % (os.environ.get("ISO", "w"), k)
        os.makedirs(w, exist_ok=True)
        sh("rsync -a --delete /repo/ %s/repo/; rsync -a --delete --exclude out /verif/ %s/verif/" % (w, w))
        while True:
            try:
                name, patch, ps = q.get_nowait()
            except queue.Empty:
                return
            sh("git checkout -q -- . && git apply %s" % patch, cwd=w + "/repo")
            for p in ps:
                s = time.time()
                r = sh("unshare -Urm sh -c 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && timeout 900 python3 check.py %s --tier quick'" % (w, w, p))
                msg = "%s %s rc=%d %ds" % (name, p, r.returncode, time.time() - s)
                if (mode == "quiet") == (r.returncode != 0):
                    msg += "\n" + "\n".join(l[:300] for l in r.stdout.split("\n") if "VIOL" in l or "TROUBLE" in l or l.startswith("  "))[:1500]
                print(msg, flush=True)
            sh("git checkout -q -- .", cwd=w + "/repo")

    ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
