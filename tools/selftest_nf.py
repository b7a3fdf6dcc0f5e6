"""The normal form must denote the same function as the term it came from."""
import sys, time
sys.argv = sys.argv[:1] + sys.argv[1:]
sys.path.insert(0, "/verif"); sys.path.insert(0, "/verif/tools")
sys.setrecursionlimit(40000)
sel = sys.argv[1:]
sys.argv = sys.argv[:1]
from pbsa.harness import *
from pbsa import nf, rint
import smoke_otf
sys.argv = [sys.argv[0], "__none__"]
import smoke_rest
def terms(S, v, out, pre=""):
    if isinstance(v, TupleV):
        for i, x in enumerate(v.items): terms(S, x, out, pre + "[%d]" % i)
    elif isinstance(v, (Term, Ref)):
        out.append((pre, S.term(v)))
    elif isinstance(v, ObjV):
        for k, x in S.fields(v).items():
            terms(S, x, out, pre + "." + str(k))
for l, f in smoke_otf.T + smoke_rest.T:
    if sel and l not in sel: continue
    S = Session(); S.summarise_atm()
    try:
        v = f(S)
    except Exception as e:
        print(l, "FAIL", e); continue
    out = []
    terms(S, v, out)
    for pre, t in out:
        t0 = time.time()
        if t.unk: print(l, pre, "UNK"); continue
        try:
            c = nf.decanon(nf.canon(t))
        except nf.TooBig:
            print(l, pre, "TOOBIG"); continue
        t1 = time.time()
        r = rint.differ(t, c, 12)
        print(l, pre, "nf %.2f ev %.2f" % (t1 - t0, time.time() - t1), (rint.differ.last, "" if rint.differ.last[1] else repr(rint.differ.why)[:100]) if not r else "DIFFER " + str(rint.describe(*r, [t]))[:600])
