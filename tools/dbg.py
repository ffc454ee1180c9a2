import sys; sys.path.insert(0,'/verif')
from vh import core
core.quiet_import()
import importlib
P,N,S,I=sys.argv[1],sys.argv[2],int(sys.argv[3]),int(sys.argv[4])
importlib.import_module('props.'+P.lower())
s=[x for x in core.SCENARIOS[P] if x[0]==N][0]
m,_,_=core.run_iter(P,N,s[1],S,I)
print('\n'.join(m.desc)); 
for v in m.viol: print(v[0]); print(v[1])
