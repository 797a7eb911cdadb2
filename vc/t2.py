import sys, os, importlib, time
sys.path.insert(0,'/verif/vc')
import engine
sys.modules['engine']=engine
from engine import *
for m in sys.argv[1].split(','): importlib.import_module('specs.'+m)
dd=os.environ.get('DUMP','/tmp/md/server.json')
p={"server":Program(dd)}
ad=os.path.join(os.path.dirname(dd),'async_server.json')
if os.path.exists(ad): p["async_server"]=Program(ad)
cs=[c for c in CONTRACTS if len(sys.argv)<3 or re.search(sys.argv[2],c.name)]
t=time.time()
for r in run_all(p,cs,1 if os.environ.get('VC_DEBUG') else 8):
    bad=[o for o in r['obls'] if o['status']!='discharged']
    print("%-40s obls %d bad %d paths %d wall %.1f solver %.1f"%(r['contract'],len(r['obls']),len(bad),r['paths'],r['wall'],r['stats']['time']))
    for b in bad[:12]: print('    ',b['status'],b['name'],b['line'],b['tags'],'havoc' if b['havoced'] else '')
    for u in r['undecided'][:4]: print('     UNDECIDED',u)
print(time.time()-t)
