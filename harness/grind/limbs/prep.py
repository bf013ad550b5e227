import hashlib
P=2**256-2**32-977;N=0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
G=(0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798,0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8)
def add(a,b):
    if a is None:return b
    if b is None:return a
    if a[0]==b[0]:
        if (a[1]+b[1])%P==0:return None
        l=3*a[0]*a[0]*pow(2*a[1],-1,P)%P
    else: l=(b[1]-a[1])*pow(b[0]-a[0],-1,P)%P
    x=(l*l-a[0]-b[0])%P
    return x,(l*(a[0]-x)-a[1])%P
def mul(k):
    r=None;q=G
    while k:
        if k&1:r=add(r,q)
        q=add(q,q);k>>=1
    return r
ps=[]
for t in range(6):
    s=hashlib.sha256(b'limb%d'%t).digest();k=int.from_bytes(s,'big')%N
    x,y=mul(k);pub=bytes([2+y%2])+x.to_bytes(32,'big')
    idx=t%3
    if t%3==2:
        idx|=1<<31;d=b'\0'+s+idx.to_bytes(4,'big')
    else:d=pub+idx.to_bytes(4,'big')
    ps.append((s,idx,d))
if __name__=='__main__':
    for s,i,d in ps:print(d.hex(),s.hex())
