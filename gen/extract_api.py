#!/usr/bin/env python3
"""One-off extraction of the public API (run by the author; the output api.json is
committed and is the API the checks exercise, so that refactorings that add helpers
do not change what is checked)."""
import re, glob, json, subprocess, sys
R='/repo'
src='#define CGLM_DEFINE_PRINTS 1\n#include <cglm/cglm.h>\n#include <cglm/struct.h>\n#include <cglm/struct/aabb2d.h>\n#include <cglm/call.h>\n'
import os
for d in ('clipspace','struct/clipspace','call/clipspace','handed','struct/handed'):
    for f in sorted(os.listdir(R+'/include/cglm/'+d)): src+='#include <cglm/%s/%s>\n'%(d,f)

out=subprocess.run(['gcc','-std=gnu11','-E','-I',R+'/include','-x','c','-'],input=src,capture_output=True,text=True,check=True).stdout
cur=None; text=''; 
lines=[]
for l in out.split('\n'):
    m=re.match(r'# (\d+) "([^"]+)"',l)
    if m: cur=m.group(2); continue
    if cur and cur.startswith(R): lines.append((cur,l))
# concatenated text with file markers
buf='';pos=[]
for f,l in lines:
    pos.append((len(buf),f)); buf+=l+'\n'
import bisect
def fileof(i):
    k=bisect.bisect_right([p for p,_ in pos],i)-1
    return pos[k][1]
P=[p for p,_ in pos]
def fileof(i): return pos[bisect.bisect_right(P,i)-1][1]
api=[]
seen=set()
rx=re.compile(r'(static inline __attribute\(\(always_inline\)\)|__attribute__\(\(visibility\("default"\)\)\))\s+([\w\s\*]+?)\s*\b(\(?glm[sc]?_\w+|glm_\w+|glm)\)?\s*\(((?:[^()]|\([^()]*\))*)\)\s*(\{|;)')
for m in rx.finditer(buf):
    name=m.group(3).strip('(')
    if name in seen: continue
    seen.add(name)
    ret=re.sub(r'\s+',' ',m.group(2)).strip()
    ps=[]
    args=m.group(4).strip()
    if args and args!='void':
        for p in args.split(','):
            p=re.sub(r'\s+',' ',p).strip()
            mm=re.match(r'^(.*?)\s*\b(\w+)\s*((?:\[[^\]]*\])*)$',p)
            t,n,d=mm.groups()
            t=t.replace('__restrict','').strip()
            t=re.sub(r'\s*\*','*',t)
            ps.append({'type':(t+d).strip(),'name':n})
    api.append({'name':name,'ret':ret,'params':ps,'file':fileof(m.start()).replace(R+'/','')})
# roles from docs
roles={}
for f in set(a['file'] for a in api):
    s=open(R+'/'+f).read()
    for m in re.finditer(r'/\*!(.*?)\*/\s*CGLM_INLINE\s+[\w\s\*]+?\s*\b(glm\w*?_?)(?:\((\w+)\)\s*|\s*)\(([^)]*)\)',s,flags=re.S):
        nm=m.group(2)+(m.group(3) or '')
        r={}
        for t in re.finditer(r'@param\s*\[([^\]]*)\]\s*(\w+)',m.group(1)):
            r[t.group(2)]=re.sub(r'\s','',t.group(1))
        roles[nm]=r
for a in api:
    r=roles.get(a['name'],{})
    for p in a['params']: p['role']=r.get(p['name'],'?')
json.dump(api,sys.stdout,indent=0)
