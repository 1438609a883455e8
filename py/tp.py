import sys,time,random,collections,traceback; sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/py')
import build, runner, props
from multiprocessing import Pool
D=build.build(); lab=None
def one(a):
    global lab
    prop,i=a
    if lab is None: lab=runner.Lab(D,1)
    r=random.Random('%s/1/%d'%(prop,i)); out=[]; c0=props.Ctx(lab)
    try:
        for chk,sc,p,x in props.generate(prop,i,r,c0):
            try: f=props.CHECKS[chk](c0,sc,p,x)
            except Exception: f=[('EXC '+chk,traceback.format_exc()[-600:])]
            out.append((chk,f,i,p['ranks']))
    except Exception: out.append(('GEN',[('EXC gen',traceback.format_exc()[-600:])],i,0))
    n=c0.nruns; c0.free(); return out,n
if __name__=='__main__':
    prop=sys.argv[1]; N=int(sys.argv[2]); t=time.time()
    with Pool(8) as P: rs=P.map(one,[(prop,i) for i in range(N)],chunksize=1)
    t=time.time()-t; n=sum(x[1] for x in rs); cases=[c for x in rs for c in x[0]]
    print(prop,'%d indices %d cases %d runs %.1fs %.0f runs/s'%(N,len(cases),n,t,n/t), collections.Counter(c[0] for c in cases))
    d=collections.OrderedDict()
    for chk,f,i,rk in cases:
        for k,tx in f: d.setdefault(k,[]).append((i,tx))
    for k,v in sorted(d.items(), key=lambda z:-len(z[1])): print('  %5d %s i=%s : %s'%(len(v),k,v[0][0],v[0][1][:400]))
