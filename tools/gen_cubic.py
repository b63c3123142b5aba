# prints the certificates in lean/Curve.lean: x^p modulo the cubic of P-256, and the inverse of x^p - x modulo it
p=2**256-2**224+2**192+2**96-1
n=0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
b=0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b
A=3;B=p-b
def mul(u,v):
    d0=u[0]*v[0];d1=u[0]*v[1]+u[1]*v[0];d2=u[0]*v[2]+u[1]*v[1]+u[2]*v[0];d3=u[1]*v[2]+u[2]*v[1];d4=u[2]*v[2]
    return ((d0+B*d3)%p,(d1+A*d3+B*d4)%p,(d2+A*d4)%p)
X=(0,1,0)
rows=[];cur=(1,0,0)
for c in bin(p)[2:]:
    cur=mul(cur,cur)
    if c=='1': cur=mul(cur,X)
    rows.append((c=='1',cur))
g=(cur[0],(cur[1]+p-1)%p,cur[2])
# inverse of g mod f: solve linear system M v = e0 where M columns = g*x^i
cols=[mul(g,(1,0,0)),mul(g,X),mul(g,(0,0,1))]
M=[[cols[j][i] for j in range(3)]+[1 if i==0 else 0] for i in range(3)]
for i in range(3):
    k=next(r for r in range(i,3) if M[r][i]%p)
    M[i],M[k]=M[k],M[i]
    iv=pow(M[i][i],-1,p)
    M[i]=[x*iv%p for x in M[i]]
    for r in range(3):
        if r!=i:
            f=M[r][i]
            M[r]=[(x-f*y)%p for x,y in zip(M[r],M[i])]
v=tuple(M[i][3] for i in range(3))
assert mul(v,g)==(1,0,0)
L=",\n  ".join(f"({'true' if r[0] else 'false'}, {r[1][0]}, {r[1][1]}, {r[1][2]})" for r in rows)
print(f"""def cubicPowers : List (Bool × ℕ × ℕ × ℕ) := [
  {L}]
def cubicLast : ℕ × ℕ × ℕ := ({cur[0]}, {cur[1]}, {cur[2]})
def cubicG : ℕ × ℕ × ℕ := ({g[0]}, {g[1]}, {g[2]})
def cubicV : ℕ × ℕ × ℕ := ({v[0]}, {v[1]}, {v[2]})""")
