#!/usr/bin/env python3
"""Summarise the violations of a solver_num check (replay/<ID>)."""
import json,glob,re,sys
for t in sorted(glob.glob('/verif/replay/%s/*.txt'%sys.argv[1])):
    s=open(t).read(); m=re.search(r'BAD line (\d+)',s)
    if not m: print(t,s[:300]); continue
    ln=int(m.group(1))
    nd=glob.glob(t.replace('.txt','.*.ndjson'))[0]
    L=[json.loads(x) for x in open(nd)]
    r=L[ln-1]; sol=[x for x in L[:ln] if x['op']=='solver'][-1]; ds=[x for x in L[:ln] if x['op']=='dir']; d=ds[-1] if ds else None
    print(t,ln,re.findall(r'"CK", "([^"]*)"',s))
    print('  ',sol['kind'],'eq',sol['eq'],'lq',sol['lq'],'op',r['op'],'a',r.get('a'),'feas',r.get('feas'),'ok',r.get('ok'),'preg',r.get('preg'),'recalc',d and d['recalc'],'nu',d and [n['nu'] for n in d['n']],'lim',d and [n['lim'] for n in d['n']],'nh',d and [len(n['h']) for n in d['n']],'ndx',sol['ndx'])
