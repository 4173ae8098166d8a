import sys,json,glob,os
sys.path.insert(0,'/verif')
import importlib
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
head=open('/verif/tools/design_head.md').read()
tail=open('/verif/tools/design_tail.md').read()
seeds={}
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(f)); seeds.setdefault(d['property'],[]).append((os.path.basename(os.path.dirname(f)),d['needs']))
WHY=json.load(open('/verif/tools/design_why.json'))
out=[head]
for p in props:
    m=importlib.import_module('checks.c'+p['id'][1:])
    out.append('### %s %s\n'%(p['id'],p['title']))
    out.append('*Monitored:* '+m.RULE+'.\n')
    out.append('*Oracle:* '+WHY[p['id']][0]+'\n')
    out.append('*Beyond tests:* '+WHY[p['id']][1]+'\n')
    n=', '.join('%s >= %d'%x for x in sorted(m.FLOOR.items()))
    out.append('*Evidence floor (quick; a run that observes less fails):* '+n+'.\n')
    if getattr(m,'ASSUMPTIONS',None): out.append('*Bounds and assumptions:* '+'; '.join(m.ASSUMPTIONS)+'.\n')
    if p['id'] in seeds: out.append('*Planted changes caught:* '+'; '.join('`%s` (%s)'%x for x in seeds[p['id']])+'.\n')
out.append(tail)
open('/verif/DESIGN.md','w').write('\n'.join(out))
