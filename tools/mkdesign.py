#!/usr/bin/env python3
# DESIGN.md = design.head.md + index of harnesses + index of seeded changes
import re,glob,json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out=[open(V+'/tools/design.head.md').read()]
out.append('## 6. Harnesses and bounds\n\nBounds: p.* sizes, sched = preemptions, steps = instructions per path, time = seconds, ff = ms per field query.\n')
rows=[]
for f in sorted(glob.glob(V+'/harness/*/c*.go')):
    t=open(f).read()
    for m in re.finditer(r'((?:^//.*\n)*)^func ([HK]C\w+)\(',t,re.M):
        c=' '.join(l[2:].strip() for l in m.group(1).split('\n') if l.startswith('//') and not l.startswith('//symgo')).strip()
        r=[x[12:] for x in m.group(1).split('\n') if x.startswith('//symgo:run')]
        if r: rows.append((r[0].split()[0],m.group(2),os.path.relpath(f,V+'/harness'),'; '.join(' '.join(x.split()[1:]) for x in r),c))
for p in sorted({r[0] for r in rows}):
    out.append('\n'+p+'\n')
    for r in rows:
        if r[0]==p: out.append('- `%s` (%s; %s)%s\n'%(r[1],r[2],r[3],': '+r[4] if r[4] else ''))
res={}
if os.path.exists(V+'/tools/caught.json'): res=json.load(open(V+'/tools/caught.json'))
out.append('\n## 7. Seeded changes\n\nEach was confirmed in a scratch copy (builds, passes the tests, demonstration fails with it). "caught" is the quick check of the property.\n\n')
for d in sorted(glob.glob(V+'/seeded/*/meta.json'),key=lambda d:(json.load(open(d))['property'],d)):
    m=json.load(open(d)); n=os.path.basename(os.path.dirname(d))
    out.append('- %s `%s` (%s): %s. Needs %s.\n'%(m['property'],n,res.get(n,'not run yet'),m['what_it_breaks'],m['needs']))
open(V+'/DESIGN.md','w').write(''.join(out))
