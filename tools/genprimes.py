# regenerates harness/data/primes.txt (run once; the file is committed): bits hex, one per line
import random, sys
from sympy import isprime, nextprime
R = random.Random(20260101)
def prime(bits, top):
    # top: leading bits as a binary string
    while True:
        v = int(top + ''.join(R.choice('01') for _ in range(bits-len(top))),2) | 1
        if isprime(v): return v
out=[]
for bits,n in ((1024,6),(1025,2),(1026,1),(1027,1),(1028,2),(1032,2),(1040,1),(1056,1),(1088,2),(1100,1),(1152,1),(1280,2),(1536,3),(2048,3),(3072,2),(4096,2)):
    for i in range(n): out.append(prime(bits,'11'))
for bits in (1024,1024,1024,1028,1032,1056):
    out.append(prime(bits,'100'))
# extreme shapes
for bits in (1024,1536):
    v=(1<<bits)-1
    while not isprime(v): v-=2
    out.append(v)                       # largest prime below 2^bits
    v=(3<<(bits-2))+1
    while not isprime(v): v+=2
    out.append(v)                       # just above 0.75*2^bits
v=(1<<1024)-(1<<64)-1
while not isprime(v): v-=2
out.append(v)
# p with p-1 divisible by 65537
k=random.Random(5).getrandbits(1006)|(3<<1005)
while True:
    v=2*65537*k+1
    if v.bit_length()==1024 and v>>1022==3 and isprime(v): break
    k+=1
    if v.bit_length()>1024: k>>=1
out.append(v)
# small helpers used for unbalanced keys
for bits in (512,700,900,960,1000,1008,1016,1020,1023):
    out.append(prime(bits,'11'))
with open('primes.txt','w') as f:
    for v in out: f.write('%d %x\n'%(v.bit_length(),v))
