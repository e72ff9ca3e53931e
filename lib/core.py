"""Common frame of all checks: extract, analyse, report, evidence."""
import json, os, re, sys, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
KNOWN = os.path.join(VERIF, "known_findings.json")


class Report:
    """what one check covered and found"""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obligations = 0
        self.discharged = 0
        self.violations = []        # (key, text)
        self.inconclusive = []      # (key, reason): analysed construct outside the modelled language
        self.cov = {}
        self.rules = {}
        self.samples = []
        self.fns = set()

    def ok(self, rule, n=1):
        self.obligations += n
        self.discharged += n
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += n
        r[1] += n

    def bad(self, rule, key, text):
        self.obligations += 1
        self.rules.setdefault(rule, [0, 0])[0] += 1
        self.violations.append((rule + ": " + key, text))

    def unsure(self, rule, key, why):
        self.obligations += 1
        self.rules.setdefault(rule, [0, 0])[0] += 1
        self.inconclusive.append((rule + ": " + key, why))

    def floor(self, rule, n, least, what):
        """a rule that no longer finds the sites confirmed by hand must not pass silently"""
        if n >= least:
            self.ok(rule)
        else:
            self.bad(rule, "floor", "only %d %s found, %d expected: the rule lost its anchors" % (n, what, least))


def load_program():
    from prog import Program
    from extract import extract
    import fcntl
    import extract as ex
    os.makedirs(ex.B, exist_ok=True)
    with open(os.path.join(ex.B, "load.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return Program(extract())


def known(pid):
    try:
        d = json.load(open(KNOWN))
    except FileNotFoundError:
        return {}
    return {x["key"]: x["what"] for x in d.get("findings", []) if x["property"] == pid}


def finish(rep, level, note, t0, seed):
    kn = known(rep.pid)
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    new = []
    hit = set()
    for k, t in rep.violations:
        if k in kn:
            hit.add(k)
        else:
            new.append((k, t))
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (rep.pid, kn[k]))
    cov = dict(rep.cov)
    cov.update(obligations=rep.obligations, discharged=rep.discharged,
               rules={k: {"instances": v[0], "hold": v[1]} for k, v in sorted(rep.rules.items())},
               functions_analysed=len(rep.fns), inconclusive=[list(x) for x in rep.inconclusive[:40]],
               known_findings=sorted(hit), explanation=note, samples=rep.samples[:12])
    json.dump({"property": rep.pid, "tier": rep.tier, "seed": seed, "level": level, "coverage": cov,
               "wall_s": round(time.time() - t0, 2), "violations": len(new)},
              open(os.path.join(ev, rep.pid + ".json"), "w"), indent=1)
    path = os.path.join(ev, rep.pid + ".violations.txt")
    if os.path.exists(path):
        os.unlink(path)
    if new:
        with open(path, "w") as f:
            for k, t in new:
                f.write("%s\n    %s\n" % (k, t))
        for k, t in new[:20]:
            print("%s\n    %s" % (k, t))
        print("VIOLATION property=%s replay=%s" % (rep.pid, path))
        return 1
    print("%s: %d obligations, %d discharged, %d known, %d inconclusive, %.1f s" % (
        rep.pid, rep.obligations, rep.discharged, len(hit), len(rep.inconclusive), time.time() - t0))
    return 0


def big_stack(f):
    box = {}

    def g():
        try:
            box["r"] = f()
        except BaseException as ex:     # noqa
            box["e"] = (ex, traceback.format_exc())
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(100000)
    th = threading.Thread(target=g)
    th.start()
    th.join()
    if "e" in box:
        raise RuntimeError(box["e"][1])
    return box["r"]


def guarded(rep, f):
    """an analysis that meets something it was not built for gives no verdict on it, rather than a wrong one"""
    try:
        big_stack(f)
    except RuntimeError as ex:
        sys.stderr.write(str(ex)[-3000:])
        rep.unsure("analysis", "internal", str(ex)[-1500:])
