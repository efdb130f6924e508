"""Checks the class domain's transfer functions against sampled machine results (tool test, no part of any check)."""
import sys, os, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sa"))
import classes
from classes import *
from classes import _fop, _pow, _tdiv
bad=0
def say(*a):
    global bad
    bad+=1
    if bad<12: print(*a)
def rv(ty):
    if ty in FL:
        c=random.choice(sorted(ALL[ty])); 
        if c==NAN: return math.nan
        lo,hi=BYN[ty][c]
        return random.choice([lo,hi,rnd(ty,lo+(hi/2-lo/2)*2*random.random())]) if math.isfinite(lo) else lo
    c=random.choice(CL[ty]); return random.choice([c[1],c[2],random.randint(c[1],c[2])])
for _ in range(int(sys.argv[1]) if len(sys.argv)>1 else 200000):
    ty=random.choice(list(FL)); a,b=rv(ty),rv(ty)
    A,B=frozenset((of(ty,a),)),frozenset((of(ty,b),))
    op=random.choice(["Add","Sub","Mul","Div","Rem"])
    r=rnd(ty,_fop(op,a,b))
    if of(ty,r) not in binop(ty,op,A,B)[0]: say(ty,op,a,b,r,A,B,binop(ty,op,A,B)[0])
    m=random.choice(list(MONO)+["sin","cos","tan","cosh","abs"])
    f=MONO.get(m) or EVENF.get(m) or getattr(math,m,None)
    if a==a and not (m in("sin","cos","tan") and math.isinf(a)):
        r=rnd(ty,f(a))
        if of(ty,r) not in math1(ty,m,A): say(ty,m,a,r,A,math1(ty,m,A))
    m=random.choice(["powf","atan2","hypot"])
    if a==a and b==b:
        f={"powf":_pow,"atan2":math.atan2,"hypot":math.hypot}[m]
        r=rnd(ty,f(a,b))
        if of(ty,r) not in math2(ty,m,A,B): say(ty,m,a,b,r,A,B,math2(ty,m,A,B))
    ty=random.choice(["i8","i16","i64","u8","u64","u32","i32"]); a,b=rv(ty),rv(ty)
    A,B=frozenset((of(ty,a),)),frozenset((of(ty,b),))
    op=random.choice(["Add","Sub","Mul","Div","Rem","BitAnd","BitOr","BitXor","Shl","Shr"])
    w=INTW[ty][0]
    if op in("Div","Rem") and b==0: continue
    r={"Add":lambda:a+b,"Sub":lambda:a-b,"Mul":lambda:a*b,"Div":lambda:_tdiv(a,b),"Rem":lambda:a-_tdiv(a,b)*b,"BitAnd":lambda:a&b,"BitOr":lambda:a|b,"BitXor":lambda:a^b,"Shl":lambda:a<<(b%w),"Shr":lambda:a>>(b%w)}[op]()
    if of(ty,r) not in binop(ty,op,A,B)[0]: say(ty,op,a,b,r,A,B,binop(ty,op,A,B)[0])
    t2=random.choice(list(FL))
    if of(t2,tofl(t2,a)) not in cast(ty,t2,A): say("cast",ty,t2,a)
print("unsound results:",bad)
