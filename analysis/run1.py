import json,sys,time
from interp import *
from natives import Natives
d=json.load(open('/tmp/dump/solana_slashing_program.json'))
p=Prog(d)
I=Interp(p,Natives())
name=sys.argv[1]
i=[k for k in range(len(p.I)) if p.I[k]['path'].endswith(name) and p.I[k]['body']][0]
b=p.I[i]['body']
print(p.I[i]['path'])
args=[p.sym(b['locals'][k+1],('arg',k)) for k in range(b['args'])]
t=time.time()
v,s=I.run(i,args,State(1,{}))
print('time',time.time()-t,'blocks',I.blocks_done,'bdd',len(bdd.names))
print(repr(v)[:3000])
print('panics')
for x in I.panics: print(' ',x.msg,x.loc,show_guard(x.g)[:300])
print('effects')
for x in I.effects: print(' ',repr(x)[:400])
print('unknown')
for x in dict.fromkeys(I.unknown): print('  ',str(x)[:300])
print(I.loopinfo)
