#!/usr/bin/env python3
"""show.py LOG [trace]: compact listing of a recorded trace."""
import json,sys
L=[json.loads(l) for l in open(sys.argv[1])]
tr=int(sys.argv[2]) if len(sys.argv)>2 else None
rng=sys.argv[3] if len(sys.argv)>3 else None
n=0
for i,l in enumerate(L,1):
    if tr is not None and l['tr']!=tr: continue
    o={k:v for k,v in l['op'].items() if k not in('g','w','wc')}
    for k in('s','q'):
        if k in o and isinstance(o[k],list): o[k]=''.join(o[k])
    if 'd' in o: o['d']={j:x for j,x in enumerate(o['d']) if x!='-'}
    s=l['st']
    print(i,json.dumps(o,ensure_ascii=False)[:150],'->',l['res']['k'],str(l['res']['v'])[:60],'|','/'.join(''.join(b['t'])+(f"L{b['l']}" if b['l']>=0 else '')+f"#{b['i']}" for b in s['B']),s['C'],'u' if s['u'] else '-','r' if s['r'] else '-', 'm' if s['m'] else '', [tuple(e.values()) for e in s['ev']])
