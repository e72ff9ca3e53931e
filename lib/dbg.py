import sys
from prog import Program
from wire import *
P = Program("/verif/.build/dump"); W=World(P)
def show(key, side, cfg, T=None, wi=None, **kw):
    fn=[f for k,f in P.fns.items() if key in k][0] if key not in P.fns else P.fns[key]
    I=W.run(fn, side, cfg, T, obj_arg=wi, **kw)
    print(fn.key, 'exit', I.res.exit, 'val', I.res.value)
    for a,l,b in I.res.edges:
        print('  ',a,'->',b, l if not isinstance(l,Event) else ('EV',l.label,l.slot,I.deepval(l.val) if l.val is not None else None,l.line))
    print(I.unknown)
    return I
