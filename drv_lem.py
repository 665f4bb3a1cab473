import sys; sys.path[:0]=['irv','spec']
import importlib, z3, time
m=importlib.import_module(sys.argv[1])
for nm,h,g in m.LEMMAS:
    s=z3.Solver(); s.set('timeout',20000); s.add(*h); s.add(z3.Not(g)); t=time.time(); r=s.check(); print(r, '%.1f'%(time.time()-t), nm)
