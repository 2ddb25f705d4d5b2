import sys; sys.path.insert(0,'/verif/tools')
from probe import *
T={'ansys':['tetra','triangle'],'cgns':['tetra'],'dolfin':['triangle'],'flac3d':['tetra','hexahedron'],'neuro':['triangle'],'obj':['triangle','quad'],'off':['triangle'],'ply':['triangle','quad'],'stl':['triangle'],'wkt':['triangle'],'tetgen':['tetra'],'tecplot':['tetra'],'su2':['tetra','wedge'],'h5m':['triangle','tetra']}
rng=np.random.default_rng(0)
def mk(kind,n):
    sh={'s':(n,),'1':(n,1),'2':(n,2),'3':(n,3),'6':(n,6),'9':(n,9),'33':(n,3,3),'4':(n,4)}[kind.split(':')[1]]
    dt=kind.split(':')[0]
    if dt[0] in 'iu': return rng.integers(0,100,sh).astype(dt)
    return (rng.random(sh)).astype(dt)
kinds=['f8:s','f8:1','f8:2','f8:3','f8:4','f8:6','f8:9','f8:33','f4:s','f4:3','i8:s','i4:s','i8:3','i2:s','i1:s','u1:s','u4:s','u8:s']
sel=sys.argv[1:] or list(V)
with scratch() as d:
  for v in sel:
    types=T.get(v.split('-')[0],['triangle','quad'])
    out=[]
    for where in 'pc':
      res={}
      for k in kinds:
        P=rng.random((10,3)); cells=[(t,np.array([rng.permutation(10)[:NN[t]] for _ in range(4+i)])) for i,t in enumerate(types)]
        r=Ref(P,cells)
        if where=='p': r.point_data={'a':mk(k,10)}
        else: r.cell_data={'a':[mk(k,len(c)) for _,c in cells]}
        try: s,m,c=rt(r,v,d)
        except Exception as e: s='X:'+exc_str(e)[:50]; m=None
        if m is not None:
            data=m.point_data if where=='p' else m.cell_data
            if 'a' in data:
                got=data['a'] if where=='p' else np.concatenate(data['a']) if len(set(x.shape[1:] for x in data['a']))==1 else 'ragged'
                exp=r.point_data['a'] if where=='p' else np.concatenate(r.cell_data['a'])
                if isinstance(got,str): s+=' ragged'
                elif got.shape!=exp.shape: s+=f' shape{exp.shape[1:]}->{got.shape[1:]}'
                elif not np.allclose(got,exp,rtol=1e-6): s+=' VAL'
                elif got.dtype!=exp.dtype: s+=f' dt->{got.dtype}'
                elif not np.array_equal(got,exp): s+=' v~'
            else: s+=' MISSING '+str(list(data))
        res.setdefault(s,[]).append(k)
      out.append((where,res))
    print('==',v)
    for w,res in out:
        for s,ks in res.items(): print('  ',w,s[:90],':',' '.join(ks))
