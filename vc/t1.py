import sys, json, z3, time
import mir, core, models
from core import *
c=mir.Crate(json.load(open('/tmp/md/server.json')))
T=Types(c)
for meth in sys.argv[1:]:
    inst=c.find("<server::storage::hashmap_storage::HashMapStorage as server::storage::types::Storage>::"+meth)
    ex=Exec(c,T); models.install(ex)
    st=State()
    args=[ex.sym(st,inst["locals"][i+1],"a%d"%i) for i in range(inst["argc"])]
    outs=[]
    ex.on_done=lambda ex,st: outs.append(st)
    t0=time.time()
    ex.start(inst,st,args); ex.run(st)
    print(meth,"paths",len(outs),"undecided",ex.undecided,"obls",[(o.name,o.status,o.line) for o in ex.obls],"%.2f"%(time.time()-t0))
    for o in outs: print("   ",o.cells[o.ghost["ret"]])
