#!/usr/bin/env python3
"""mutate.py FILE.py [NAME..]: applies each edit of MUTS=[(name, props, [(file, old, new)])] to scratch copies of /repo,
runs the properties' checks from scratch copies of /verif (4 at a time), and prints the exit codes.
A quick probe of what the checks see; the confirmed ones are kept by mkseed.py."""
import os, queue, shutil, subprocess, sys, threading
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
g = {}
exec(open(sys.argv[1]).read(), g)
q = queue.Queue()
for m in g["MUTS"]:
    if len(sys.argv) < 3 or m[0] in sys.argv[2:]:
        q.put(m)
S = "/tmp/mutate.%d" % os.getpid()
def worker(i):
    d = "%s/%d" % (S, i)
    os.makedirs(d)
    sh("rsync -a --exclude target /repo %s/ || cp -a /repo %s/; mkdir %s/verif; cp -a /verif/lib /verif/driver /verif/check.py /verif/*.json %s/verif/; cp -a /verif/.build %s/build" % ((d,) * 5))
    e = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_BUILD=d + "/build")
    while True:
        try:
            name, prop, edits = q.get_nowait()
        except queue.Empty:
            return
        sh("git -C %s/repo checkout -- ." % d)
        bad = None
        for f, a, b in edits:
            s = open("%s/repo/%s" % (d, f)).read()
            if s.count(a) != 1:
                bad = "EDIT DOES NOT APPLY %d" % s.count(a); break
            open("%s/repo/%s" % (d, f), "w").write(s.replace(a, b))
        if bad:
            print(name, bad); continue
        for p in prop.split(","):
            r = sh("timeout 800 python3 check.py %s" % p, cwd=d + "/verif", env=e)
            l = r.stdout.strip().splitlines()
            print(name, p, r.returncode, "|", " / ".join(x[:130] for x in l[:2]))
            sys.stdout.flush()
ts = [threading.Thread(target=worker, args=(i,)) for i in range(min(4, q.qsize()))]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(S)
