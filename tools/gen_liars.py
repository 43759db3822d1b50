"""Strong-pseudoprime-rich composites n=(2x+1)(4x+1), x odd: a quarter of all bases are liars."""
import random, math
R=random.Random(20261118)
small=[p for p in range(3,2000) if all(p%q for q in range(2,int(p**.5)+1))]
def mr(n,k=8):
    d=n-1;s=0
    while d%2==0: d//=2;s+=1
    for _ in range(k):
        a=R.randrange(2,n-1);x=pow(a,d,n)
        if x in(1,n-1): continue
        for _ in range(s-1):
            x=x*x%n
            if x==n-1: break
        else: return False
    return True
out=[]
while len(out)<4:
    x=R.randrange(int(0.615*2**60)<<451,int(0.70*2**60)<<451)|1
    a,b=2*x+1,4*x+1
    if any(a%p==0 or b%p==0 for p in small): continue
    if pow(2,a-1,a)!=1 or pow(2,b-1,b)!=1: continue
    if not(mr(a) and mr(b)): continue
    n=a*b
    assert n.bit_length()==1024 and n>>1022==3
    out.append(n)
print("\n".join("%x"%n for n in out))
