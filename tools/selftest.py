"""Compares the reference enclosures of fpv with mpmath (development check, not run by the checks)."""
import subprocess, random, sys
from mpmath import mp, mpf
import mpmath as m
mp.dps = 60
random.seed(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
F2 = {'beta': lambda x,y: m.beta(x,y), 'gp': lambda a,x: m.gammainc(a,0,x,regularized=True), 'gq': lambda a,x: m.gammainc(a,x,m.inf,regularized=True)}
def wz(x,y):
    z=m.mpc(x,y); return m.exp(-z*z)*m.erfc(m.mpc(y,-x))
F2.update({'jy0': m.besselj, 'jy1': m.bessely, 'jy2': lambda n,x: m.besselj(n,x)*n/x-m.besselj(n+1,x), 'jy3': lambda n,x: m.bessely(n,x)*n/x-m.bessely(n+1,x),
 'ik0': m.besseli, 'ik1': m.besselk, 'ik2': lambda n,x: m.besseli(n,x)*n/x+m.besseli(n+1,x), 'ik3': lambda n,x: m.besselk(n,x)*n/x-m.besselk(n+1,x),
 'wr': lambda x,y: wz(x,y).real, 'wi': lambda x,y: wz(x,y).imag, 'betai': lambda a,b: m.betainc(a,b,0,ZX,regularized=True)})
F = {
 'erf': lambda n,x: m.erf(x), 'erfc': lambda n,x: m.erfc(x),
 'erfcx': lambda n,x: m.exp(x*x)*m.erfc(x) if x < 1e4 else (1/(x*m.sqrt(m.pi)))*(1-1/(2*x*x)+3/(4*x**4)-15/(8*x**6)+105/(16*x**8)-945/(32*x**10)+10395/(64*x**12)),
 'dawson': lambda n,x: m.sqrt(m.pi)/2*m.exp(-x*x)*m.erfi(x),
 'ln_gamma': lambda n,x: m.loggamma(x), 'gamma': lambda n,x: m.gamma(x), 'rgamma': lambda n,x: m.rgamma(x),
 'jn': lambda n,x: m.besselj(n,x), 'yn': lambda n,x: m.bessely(n,x),
 'in': lambda n,x: m.besseli(n,x), 'kn': lambda n,x: m.besselk(n,x), 'kns': lambda n,x: m.besselk(n,x)*m.exp(x),
 'exp': lambda n,x: m.exp(x), 'ln': lambda n,x: m.log(x), 'sqrt': lambda n,x: m.sqrt(x), 'sin': lambda n,x: m.sin(x), 'cos': lambda n,x: m.cos(x),
}
def U(a,b): return random.uniform(a,b)
def L(a,b): return float(m.exp(U(float(m.log(a)),float(m.log(b)))))
G = {
 'erf': lambda: U(-8,8), 'erfc': lambda: U(-8,27), 'erfcx': lambda: random.choice([U(-26,60), L(1e-10,1e10)]),
 'dawson': lambda: random.choice([U(0,12), L(1e-6,1e6), -U(0,5)]), 'ln_gamma': lambda: L(1e-300,1e15),
 'gamma': lambda: U(-20,171), 'rgamma': lambda: U(-20,171), 'jn': lambda: U(0,100), 'yn': lambda: L(.01,100), 'in': lambda: L(1e-3,700),
 'kn': lambda: L(.01,700), 'kns': lambda: L(.01,700), 'exp': lambda: U(-700,700), 'ln': lambda: L(1e-300,1e300), 'sqrt': lambda: L(1e-300,1e300), 'sin': lambda: U(-100,100), 'cos': lambda: U(-100,100),
}
def ax():
    a=L(.01,10000); s=a**.5
    return a, random.choice([max(1e-6,a+U(-10,10)*s), L(1e-3,max(a*3,1)), L(1e-10,1)])
G2 = {'beta': lambda: (L(.01,100),L(.01,100)), 'gp': ax, 'gq': ax}
def nx(): return (random.choice([U(0,20),random.randint(0,20),random.randint(0,20)+U(-1,1)*10**-U(1,16),0.5]), L(.1,50))
def nx2():
    a,b=nx(); return abs(a),b
for f in ['jy0','jy1','jy2','jy3','ik0','ik1','ik2','ik3']: G2[f]=nx2
for f in ['wr','wi']: G2[f]=lambda: (random.choice([U(-100,100),U(-12,12),U(-1,1)]),random.choice([L(.01,100),U(.01,10)]))
def bx():
    a,b=L(.1,10000),L(.1,10000); return a,b
G2['betai']=bx
q=[]
for f in G2:
    for i in range(60):
        x,y = G2[f]()
        w = random.choice([0, 1e-6, 1e-3, 0.02])
        z=0.5
        if f=='betai':
            w = w if w<1e-5 else 0
            mu=x/(x+y); sd=(x*y/(x+y)**2/(x+y+1))**.5
            z=min(1-1e-9,max(1e-9,random.choice([mu+U(-6,6)*sd,U(0,1)])))
        lo,hi=sorted((x,x*(1+w)))
        q.append((f,0,lo,hi,y,y*(1+w/2),z) if w else (f,0,x,x,y,y,z))
for f in G:
    for i in range(60):
        n = random.choice([0,0,1,1,2,3,7,15,30,50]) if f in ('jn','yn','in','kn','kns') else 0
        x = G[f]()
        w = random.choice([0, 1e-9, 1e-4, 0.02])
        lo = x; hi = x + abs(x)*w if w else x
        q.append((f,n,lo,hi,1,1,0))
out = subprocess.run(['/verif/.build/fpv/release/fpv','selftest'],input='\n'.join(f'{f} {n} {lo!r} {hi!r} {a!r} {b!r} {z!r}' for f,n,lo,hi,a,b,z in q)+'\n',capture_output=True,text=True).stdout.splitlines()
assert len(out)==len(q), (len(out), len(q))
bad=0; stat={}
for (f,n,lo,hi,a2,b2,ZX),l in zip(q,out):
    v=[float(t.replace('NaN','nan')) for t in l.split()]
    r=v[6]
    if r!=r or r==float('inf'):
        stat.setdefault(f,[]).append(('inf',lo,hi,n)); continue
    mid = lo/2+hi/2; import math
    rad = math.nextafter(hi/2-lo/2, math.inf) if hi>lo else 0
    pts=[mpf(mid)-mpf(rad), mpf(mid), mpf(mid)+mpf(rad)]
    for k,p in enumerate(pts):
        mid2=mpf(a2/2+b2/2); rad2=mpf(b2/2-a2/2); t=F2[f](p,mid2+(k-1)*rad2) if f in F2 else F[f](n,p)
        got=mpf(v[2*k])+mpf(v[2*k+1])
        e=abs(got-t)
        if e>mpf(r)*(1+mpf(10)**-9)+abs(t)*mpf(10)**-29*3:
            bad+=1
            if bad<20: print('BAD',f,n,lo,hi,k,'err',m.nstr(e,5),'r',r,'val',m.nstr(t,8))
    stat.setdefault(f,[]).append(float(mpf(r)) if f in F2 else float(mpf(r)/abs(F[f](n,mpf(mid)))) if F[f](n,mpf(mid))!=0 else 0)
for f,s in stat.items():
    z=[x for x in s if not isinstance(x,tuple)]; i=[x for x in s if isinstance(x,tuple)]
    z.sort()
    print(f'{f:9s} ok {len(z)} none {len(i)} median {z[len(z)//2]:.1e} max {z[-1]:.1e}', [(f'{a[1]:.3g}',f'{a[2]:.3g}',a[3]) for a in i[:4]])
print('bad',bad)
