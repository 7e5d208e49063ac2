import json,sys,collections
d=json.load(open('/verif/.build/out/walk/clients.json'))
c=collections.Counter()
for k,b in d['bodies'].items():
    for bl in b.get('blocks',[]):
        t=bl['t']
        if t['k']=='call' and not bl['cleanup']:
            f=t['f']
            if f.get('key'): continue
            if f['kind']=='fnptr_shim': f=f['target']
            if f and f.get('key'): continue
            c[(f['kind'],f['path'],f.get('rpath') if f.get('rpath')!=f['path'] else '',f.get('mod'))]+=1
for x in sorted(c.items(),key=lambda x:x[0][1]): print(x)
