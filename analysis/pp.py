"""Pretty printer for dumped MIR (debug aid)."""
import json, sys
d = json.load(open(sys.argv[1]))
T = d['types']; I = d['insts']
def ts(t): return T[t]['s'] if T[t] else '?'
def place(p):
    s = f"_{p[0]}"
    for e in p[1]:
        if e[0]=='*': s=f"(*{s})"
        elif e[0]=='f': s=f"{s}.{e[1]}"
        elif e[0]=='i': s=f"{s}[_{e[1]}]"
        else: s=f"{s}.{e}"
    return s
def const(c):
    k=c['c']
    if k=='int': return f"{c['v']}_{ts(c['t'])}"
    if k=='str': return repr(bytes.fromhex(c['hex']))[:60]
    if k=='ref': return '&'+const(c['v'])
    if k=='zst': return f"zst<{ts(c['t'])[:100]}>"
    return json.dumps(c)[:160]
def op(o):
    if o[0] in 'pm': return ('move ' if o[0]=='m' else '')+place(o[1])
    return const(o[1])
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k in('ref','reborrow'): return f"&{'mut ' if r[2] else ''}{place(r[1])}"
    if k=='bin': return f"{r[1]}({op(r[2])}, {op(r[3])})"
    if k=='un': return f"{r[1]}({op(r[2])})"
    if k=='cast': return f"{op(r[2])} as[{r[1]}] {ts(r[3])}"
    if k=='agg': return f"{r[1]} {ts(r[2])[:60]}#{r[3]}({', '.join(map(op,r[4]))})"
    if k=='discr': return f"discr({place(r[1])})"
    return json.dumps(r)[:200]
def show(i):
    f=I[i]
    print(f"fn #{i} {f['full']} kind={f['kind']} trait={f['trait']} {f['loc']}")
    b=f['body']
    if not b: print("  (no body)"); return
    for n,l in enumerate(b['locals']): print(f"   let _{n}: {ts(l)[:150]}")
    for n,bb in enumerate(b['blocks']):
        if bb is None: continue
        print(f"  bb{n}:")
        for s in bb['st']:
            print("     ", (place(s[0]) if s[0] else '-'),"=",rv(s[1]))
        k=bb['t']['k']
        if k[0]=='call':
            c=k[1]
            nm = I[c['inst']]['full']+f"#{c['inst']}{'' if I[c['inst']]['body'] else '!'}" if c.get('inst') is not None else json.dumps(c)
            print("     ", place(k[3]),"= CALL",nm,'(',', '.join(map(op,k[2])),') ->',k[4])
        elif k[0]=='switch': print("      switch",op(k[1]),k[2],'else',k[3])
        elif k[0]=='assert': print("      assert",op(k[1]),k[2],k[3],'->',k[4])
        elif k[0]=='drop': print("      drop",place(k[1]),'->',k[2])
        else: print("     ",k)
for i,f in enumerate(I):
    if any(a in f['path'] for a in sys.argv[2:]): show(i)
