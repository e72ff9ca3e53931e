#!/usr/bin/env python3
"""mkseed.py FILE.py [--keep-going]: plants a bug in /repo, confirms it (builds, tests pass, demo fails with it and passes without),
runs the property's check and stores it in /verif/seeded/<id>.
FILE defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, MAIN (rust source after the prelude) or SHELL (demo.sh text)."""
import json, os, subprocess, sys, shutil
V = "/verif"
T = V + "/tools/demo_template"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    d = "%s/seeded/%s" % (V, g["ID"])
    assert sh("git -C /repo status --short").stdout == "", "repo dirty"
    os.makedirs(d, exist_ok=True)
    if "SHELL" in g:
        open(d + "/demo.sh", "w").write(g["SHELL"])
        os.chmod(d + "/demo.sh", 0o755)
    else:
        shutil.copy(T + "/demo.sh", d)
        shutil.copy(T + "/Cargo.toml.in", d)
        shutil.copy(V + "/lib/ws.Cargo.lock", d + "/Cargo.lock")
        open(d + "/main.rs", "w").write(open(T + "/src/prelude.rs").read() + g["MAIN"])
    for f, t in g.get("FILES", {}).items():
        open(d + "/" + f, "w").write(t)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    r0 = sh("%s/demo.sh" % d, cwd="/repo")
    print("demo unchanged:", r0.returncode)
    if r0.returncode:
        print(r0.stdout[-3000:])
        return 1
    try:
        for f, a, b in g["EDITS"]:
            s = open("/repo/" + f).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open("/repo/" + f, "w").write(s.replace(a, b))
        open(d + "/patch.diff", "w").write(subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE, text=True).stdout)
        r = sh("bash /opt/vp/build.sh", cwd="/repo")
        print("build:", r.returncode)
        if r.returncode:
            print(r.stdout[-3000:])
            return 1
        r = sh("bash /opt/vp/test.sh /tmp/o.json", cwd="/repo")
        o = json.load(open("/tmp/o.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        names = base["stable"]
        passed = set(o.get("passed", []))
        miss = [x for x in names if x not in passed]
        print("tests: missing", miss[:5])
        r = sh("%s/demo.sh" % d, cwd="/repo")
        print("demo changed:", r.returncode, r.stdout[-600:])
        for p in [g["PROP"]] + g.get("ALSO", []):
            r = sh("python3 check.py %s" % p, cwd=V)
            print("check", p, r.returncode, r.stdout[-1500:])
    finally:
        sh("git -C /repo checkout -- .")
    return 0


sys.exit(main())
