import sys, threading, time, traceback
from prog import Program
from wire import *
from spec import jobs
def main():
    P = Program("/verif/.build/dump")
    W = World(P)
    pat = sys.argv[1] if len(sys.argv) > 1 else ""
    tot = 0
    for T, rf, wf, wi, fixed, kw in jobs(W):
            if pat not in T: continue
            if 1:
                t = time.time()
                try:
                    d, st = analyse(W, T, rf, wf, wi, fixed, **kw)
                except Exception as ex:
                    print("!!", T, rf.name, wf.name, repr(ex)[:300])
                    if "-v" in sys.argv: traceback.print_exc()
                    continue
                tag = "ok" if not d else "DIFF"
                print("%-5s %s %s/%s cfgs=%d ev=%d/%d %.1fs" % (tag, T.split("::",1)[1], rf.name, wf.name, st["configs"], st["events_r"], st["events_w"], time.time()-t), flush=True)
                seen=set()
                for x in d:
                    k=(x["kind"],x["detail"])
                    if k in seen: continue
                    seen.add(k)
                    print("      ", x["kind"], x["detail"], "| trace", x["trace"][-6:], "|", x.get("site"), "| cfg", {a:b for a,b in x["cfg"].items() if a!="has_unversioned_properties"})
                if "-u" in sys.argv: print("   unk", st["unknown"])
threading.stack_size(512*1024*1024)
sys.setrecursionlimit(100000)
th=threading.Thread(target=main); th.start(); th.join()
