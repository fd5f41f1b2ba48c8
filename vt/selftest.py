"""Run by setup: the term constructors against direct evaluation and z3, the specification against hashlib."""
import random
from . import spec
from .expr import *

R = random.Random(1)


def one(N):
    vars_=[var('v%d'%i,32) for i in range(4)]
    env={'v%d'%i:R.getrandbits(32) for i in range(4)}
    pool=[(v,env[v.a]) for v in vars_]+[(const(c,32),c) for c in (0,1,0xff,0xff00,7,0x80000000,0xffffffff)]
    M=0xffffffff
    for _ in range(N):
        o=R.choice(['add','sub','and','or','xor','not','shl','lshr','ashr','rotl','ext','sext','ite','mul','udiv','urem','cmp','catb'])
        (a,x),(b,y),(c,z)=[R.choice(pool) for _ in range(3)]
        k=R.randrange(32)
        s=lambda v: v-(1<<32) if v>>31 else v
        if o=='add': n,v=add(a,b),x+y
        elif o=='sub': n,v=sub(a,b),x-y
        elif o=='and': n,v=band(a,b),x&y
        elif o=='or': n,v=bor(a,b),x|y
        elif o=='xor': n,v=bxor(a,b),x^y
        elif o=='not': n,v=bnot(a),~x
        elif o=='shl': n,v=shl(a,const(k,32)),x<<k
        elif o=='lshr': n,v=lshr(a,const(k,32)),x>>k
        elif o=='ashr': n,v=ashr(a,const(k,32)),s(x)>>k
        elif o=='rotl': n,v=rotl(a,k),((x<<k)|(x>>(32-k)))
        elif o=='ext': 
            w=R.randrange(1,32-k+1); n,v=zext(ext(a,k,w),32),(x>>k)&((1<<w)-1)
        elif o=='sext':
            w=R.randrange(1,33); n=sext(ext(a,0,w),32); v=x&((1<<w)-1); v=v-(1<<w) if v>>(w-1) else v
        elif o=='ite': n,v=ite(ult(a,b),b,c),(y if x<y else z)
        elif o=='mul': n,v=mul(a,b),x*y
        elif o=='udiv': n,v=(udiv(a,b),x//y) if y else (a,x)
        elif o=='urem': n,v=(urem(a,b),x%y) if y else (a,x)
        elif o=='catb':
            n=bor(zext(ext(a,0,8),32),bor(shl(zext(ext(a,8,8),32),const(8,32)),shl(zext(ext(b,0,16),32),const(16,32)))); v=(x&0xffff)|((y&0xffff)<<16)
        else:
            r=R.choice(['ult','ule','slt','sle','eq'])
            n=zext({'ult':ult,'ule':ule,'slt':slt,'sle':sle,'eq':eq}[r](a,b),32)
            v=int({'ult':x<y,'ule':x<=y,'slt':s(x)<s(y),'sle':s(x)<=s(y),'eq':x==y}[r])
        v&=M
        got=ev([n],env)[n]
        assert got==v,(o,a,b,c,k,n,hex(got),hex(v))
        if R.random()<0.02:
            z=z3m(); q=z.simplify(z.substitute(to_z3(n),[(z.BitVec(i,32),z.BitVecVal(j,32)) for i,j in env.items()]))
            assert q.as_long()==v,(o,n,q,v)
        pool.append((n,v))
        if len(pool)>40: pool.pop(R.randrange(11,len(pool)))


def main():
    for i in range(40):
        one(150)
    n = spec.selftest()
    print('selftest: terms ok, %d digests of the specification agree with hashlib' % n)


if __name__ == '__main__':
    main()
