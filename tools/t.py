import sys,time
sys.path.insert(0,'/verif')
from vstat import api, rules
t=time.time()
for pid in sys.argv[1:]:
    print(api.run_check(pid,'quick',write=False), time.time()-t)
