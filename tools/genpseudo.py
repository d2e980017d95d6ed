# composites that are hard on primality tests, for C15 (offline, a few minutes; output committed)
# line: kind bits hex
import random, sys
random.seed(20261118)
sm=[p for p in range(3,20000,2) if all(p%q for q in range(3,int(p**.5)+1,2))]
def mr(n,k=12):
    for p in sm[:300]:
        if n%p==0: return n==p
    d=n-1;s=0
    while d%2==0: d//=2;s+=1
    for _ in range(k):
        a=random.randrange(2,n-1);x=pow(a,d,n)
        if x in(1,n-1): continue
        for _ in range(s-1):
            x=x*x%n
            if x==n-1: break
        else: return False
    return True
def top2(n,bits): return n.bit_length()==bits and n>>(bits-2)==3
def forms(coefs,bits,per):
    """product of (c*m+1) for c in coefs, all prime, of exactly `bits` bits with both top bits set"""
    out=[]
    prod=1
    for c in coefs: prod*=c
    lo=int((( 3<<(bits-2))//prod)); hi=((1<<bits)//prod)
    def root(v,k):
        a,b=0,1<<(v.bit_length()//k+2)
        while a<b:
            c=(a+b)//2
            if c**k<v: a=c+1
            else: b=c
        return a
    lo=root(lo,len(coefs))+1; hi=root(hi,len(coefs))-2
    while len(out)<per:
        base=random.randrange(lo,hi-(1<<22))
        W=1<<21
        sieve=bytearray(b'\1')*W
        for p in sm:
            for c in coefs:
                if c%p==0: continue
                # c*(base+i)+1 = 0 mod p
                r=(-pow(c,-1,p)-base)%p
                sieve[r::p]=bytes(len(range(r,W,p)))
        for i in range(W):
            if not sieve[i]: continue
            m=base+i
            if len(coefs)==2 and m%2==0: continue
            if all(pow(2,c*m,c*m+1)==1 for c in coefs) and all(mr(c*m+1,6) for c in coefs):
                n=1
                for c in coefs: n*=c*m+1
                if top2(n,bits):
                    out.append(n)
                    if len(out)>=per: break
    return out
for bits,per in ((1024,6),(1536,3),(2048,1)):
    for n in forms((2,4),bits,per): print('double',bits,'%x'%n); sys.stdout.flush()
for bits,per in ((1024,4),(1536,1)):
    for n in forms((6,12,18),bits,per): print('carmichael',bits,'%x'%n); sys.stdout.flush()
