import numpy as np, pm_probe as p
assert p.sum([1,2])==3 and p.sum2((1,2,4))==7 and p.sum2(l={5})==5
assert p.dict({1:2,'a':3})==[(1,2),('a',3)] and p.dict2({1:2})==('1',2)
d=p.mk(); assert d['a']==1 and d['b'] is None and d['c']=='x' and d[4]==2.5
a=p.arr(np.array([1,2],dtype=np.int64)); assert a.tolist()==[[99,2],[2,3]]
assert p.vec([1,2]).tolist()==[1,2] and p.vec2([3]).tolist()==[3]
try: p.opt(); assert 0
except ValueError: pass
assert p.opt(4)==4 and p.nogil(1)==2
assert p.isi([1])==(True,False,False,False,2,False), p.isi([1])
assert p.isi(np.zeros(2))==(False,True,False,False,2,True)
assert p.isi(3)==(False,False,False,True,2,False)
assert p.l(3)==(0,1,2) and p.set({2,1})=={'x':[1,2]} and p.np([1,2,3])==6
z,s,sh=p.np2(np.zeros((2,3))); assert z.dtype==np.int64 and s=='(2, 3)' and sh==[2,3]
q=p.P(4); assert q.get(k=1)==5 and q.g2(1.0)==-1 and q.g3(2)==6 and q.x==4 and q.y==8; q.x=7; assert q.x==7 and repr(q)=='P(7)' and p.P.st(4)==8 and p.P().x==1 and p.P('abc').x==3 and p.mkp(9).x==9 and p.mkpp(8).x==8
assert p.cap().tolist()==[1,2,3] and p.buf(np.array([1.,2]))==3 and p.__version__=='1.0'
try: p.ke(1); assert 0
except KeyError: pass
try: p.ke(0); assert 0
except RuntimeError: pass
print('ok')
