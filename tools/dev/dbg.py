import sys; sys.path[:0]=['/verif','/verif/engine','/verif/props']
import loops
o=loops.rec
def rec(ip,lf,P,X,I,anc,t):
    r=None
    try:
        r=o(ip,lf,P,X,I,anc,t)
        return r
    finally:
        if r is None: print("REC FAIL", repr(lf)[:60], "t=",t, "\n   P=",repr(P)[:900], "\n   X=",repr(X)[:200],"\n   I=",repr(I)[:300])
loops.rec=rec
sys.argv=['check.py']+sys.argv[1:]
exec(open('/verif/check.py').read())
