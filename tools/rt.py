import sys; sys.path.insert(0,'/verif')
from vlib.env import *; from vlib import caps, gen, oracle
import re, numpy as np, signal, collections, traceback
class TO(BaseException): pass
def h(*a): raise TO()
signal.signal(signal.SIGALRM,h)
def main():
    pat=sys.argv[1]; N=int(sys.argv[2]); data=len(sys.argv)>3 and 'd' in sys.argv[3]; 
    for name,cap in caps.CAPS.items():
        if pat!='all' and not name.startswith(pat): continue
        res=collections.Counter(); ex={}
        with scratch() as d:
            for s in range(N):
                rng=np.random.default_rng([s,1])
                ref=gen.gen(rng,cap,size=['tiny','small','small','medium'][s%4],data=data)
                fn=cap.path(d,'m%d'%s)
                signal.alarm(20)
                try:
                    c=observe(cap.write,fn,ref.mesh())
                    if c.exc is not None: k='W '+re.sub(r'[0-9]+|\'[^\']*\'','#',exc_str(c.exc))[:90]
                    else:
                        c=observe(cap.read,fn)
                        if c.exc is not None: k='R '+re.sub(r'[0-9]+|\'[^\']*\'','#',exc_str(c.exc))[:90]
                        else:
                            v=oracle.wellformed(c.value)+oracle.cmp_geometry(ref,c.value,cap)+(oracle.cmp_data(ref,c.value,cap) if data else [])
                            k=v[0][0] if v else 'ok'
                            if v: ex.setdefault(k,(s,v[0][1],ref.describe()))
                except TO: k='TIMEOUT'
                finally: signal.alarm(0)
                if k not in ex and k!='ok': ex[k]=(s,'',ref.describe())
                res[k]+=1
        print(name,dict(res) if len(res)<4 else '')
        for k,_ in res.most_common(4):
            if k!='ok': print('    ',res[k],k,'|',str(ex[k])[:200])
main()
