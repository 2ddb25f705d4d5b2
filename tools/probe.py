import sys; sys.path.insert(0,'/verif')
from vlib.env import *; from vlib.ref import *
import numpy as np, signal
V = {
 'abaqus':('.inp','abaqus',{}),'ansys-b':('.msh','ansys',{'binary':True}),'ansys-a':('.msh','ansys',{'binary':False}),
 'avsucd':('.avs','avsucd',{}),'cgns':('.cgns','cgns',{}),'dolfin':('.xml','dolfin-xml',{}),'exodus':('.e','exodus',{}),
 'flac3d-a':('.f3grid','flac3d',{'binary':False}),'flac3d-b':('.f3grid','flac3d',{'binary':True}),
 'gmsh22-a':('.msh','gmsh22',{'binary':False}),'gmsh22-b':('.msh','gmsh22',{}),'gmsh41-a':('.msh','gmsh',{'binary':False}),'gmsh41-b':('.msh','gmsh',{}),
 'gmsh40-a':('.msh','gmsh40',{'binary':False}),'gmsh40-b':('.msh','gmsh40',{}),
 'h5m':('.h5m','h5m',{}),'hmf':('.hmf','hmf',{}),'mdpa':('.mdpa','mdpa',{}),'med':('.med','med',{}),
 'medit-a':('.mesh','medit',{}),'medit-b':('.meshb','medit',{}),
 'nastran':('.bdf','nastran',{}),'nastran-free':('.bdf','nastran',{'point_format':'free','cell_format':'free'}),'nastran-ll':('.bdf','nastran',{'point_format':'fixed-large','cell_format':'fixed-large'}),
 'netgen':('.vol','netgen',{}),'neuro':('','neuroglancer',{}),'obj':('.obj','obj',{}),'off':('.off','off',{}),'permas':('.post','permas',{}),
 'ply-a':('.ply','ply',{'binary':False}),'ply-b':('.ply','ply',{}),'stl-a':('.stl','stl',{}),'stl-b':('.stl','stl',{'binary':True}),'su2':('.su2','su2',{}),
 'tecplot':('.dat','tecplot',{}),'tetgen':('.node','tetgen',{}),'ugrid-a':('.ugrid','ugrid',{}),'ugrid-b8':('.b8.ugrid','ugrid',{}),'ugrid-lr4':('.lr4.ugrid','ugrid',{}),
 'vtk42-a':('.vtk','vtk42',{'binary':False}),'vtk42-b':('.vtk','vtk42',{}),'vtk51-a':('.vtk','vtk',{'binary':False}),'vtk51-b':('.vtk','vtk',{}),
 'vtu-a':('.vtu','vtu',{'binary':False}),'vtu-b':('.vtu','vtu',{}),'wkt':('.wkt','wkt',{}),
 'xdmf-x':('.xdmf','xdmf',{'data_format':'XML'}),'xdmf-b':('.xdmf','xdmf',{'data_format':'Binary'}),'xdmf-h':('.xdmf','xdmf',{}),
}
def wr(fn,m,fmt,kw):
    if fmt=='gmsh40': return meshio.gmsh.write(fn,m,fmt_version='4.0',**kw)
    return meshio.write(fn,m,fmt,**kw)
def rd(fn,fmt):
    fmt={'gmsh22':'gmsh','gmsh40':'gmsh','vtk42':'vtk'}.get(fmt,fmt)
    return meshio.read(fn,fmt)
class TO(Exception): pass
def h(*a): raise TO()
signal.signal(signal.SIGALRM,h)
def rt(ref,v,d):
    ext,fmt,kw=V[v]; fn=os.path.join(d,'m'+ext)
    signal.alarm(5)
    try:
        c=observe(lambda: wr(fn,ref.mesh(),fmt,kw))
        if c.exc is not None: return 'W:'+exc_str(c.exc)[:60],None,c
        c2=observe(lambda: rd(fn,fmt))
        if c2.exc is not None: return 'R:'+exc_str(c2.exc)[:60],None,c
        return 'ok'+('~' if 'arning' in c.warned else ''),c2.value,c
    finally: signal.alarm(0)
if __name__=='__main__':
    rng=np.random.default_rng(0)
    types=list(dict.fromkeys(['vertex','line','triangle','quad','tetra','hexahedron','wedge','pyramid','line3','triangle6','quad8','quad9','tetra10','hexahedron20','hexahedron24','hexahedron27','wedge15','wedge18','pyramid13','pyramid14','line4','triangle10','quad16','tetra20','wedge40','hexahedron64','polygon']))
    sel=sys.argv[1:] or list(V)
    with scratch() as d:
        for v in sel:
            res={}
            for t in types:
                n=NN.get(t,5); npt=max(n+3,12)
                P=rng.random((npt,3))
                C=np.array([rng.permutation(npt)[:n] for _ in range(3)])
                try: s,m,c=rt(Ref(P,[(t,C)]),v,d)
                except Exception as e: s='X:'+exc_str(e)[:60]; m=None
                if m is not None:
                    if len(m.cells)==0: s+=' nocells'
                    elif [ (x.type,np.array(x.data).shape) for x in m.cells]!=[(t,C.shape)]: s+=' type->'+str([x.type for x in m.cells])[:40]
                    elif not np.array_equal(m.cells[0].data,C): s+=' CONN'
                    if m.points.shape!=P.shape: s+=f' pshape{m.points.shape}'
                    elif not np.allclose(m.points,P,rtol=1e-6): s+=' PTS'
                    elif not np.array_equal(m.points,P): s+=' p~'
                res.setdefault(s,[]).append(t)
            print('==',v)
            for s,ts in res.items(): print('   ',s,':',' '.join(ts))
