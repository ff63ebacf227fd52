"""API contract: normalised signatures, parameter roles and the mapping of the three API
forms onto one slot layout.  Everything here comes from the committed api.json (extracted
once from the pinned tree) plus the explicit corrections below; it is never re-derived from
the tree under test, so a refactoring of the tree cannot change what is checked."""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))

# element kind, columns, rows(=elements per column)
SHAPES = {
 'vec2':('a',1,2),'vec3':('a',1,3),'vec4':('a',1,4),'versor':('a',1,4),
 'ivec2':('n',1,2),'ivec3':('n',1,3),'ivec4':('n',1,4),
 'mat2':('a',2,2),'mat3':('a',3,3),'mat4':('a',4,4),
 'mat2x3':('a',2,3),'mat2x4':('a',2,4),'mat3x2':('a',3,2),'mat3x4':('a',3,4),
 'mat4x2':('a',4,2),'mat4x3':('a',4,3),
 'vec3[2]':('a',2,3),'vec2[2]':('a',2,2),'vec4[6]':('a',6,4),'vec4[8]':('a',8,4),
 'vec4[4]':('a',4,4),'float[6]':('a',1,6),'int[3]':('n',1,3),
}
CASTS = {'mat2':'(vec2*)','mat3':'(vec3*)','mat4':'(vec4*)','mat2x3':'(vec3*)','mat2x4':'(vec4*)',
 'mat3x2':'(vec2*)','mat3x4':'(vec4*)','mat4x2':'(vec2*)','mat4x3':'(vec3*)','vec3[2]':'(vec3*)',
 'vec2[2]':'(vec2*)','vec4[6]':'(vec4*)','vec4[8]':'(vec4*)','vec4[4]':'(vec4*)'}
NARR = 8   # capacity of identity_array / mulN slots

ACC = re.compile(r'^glm_i?vec[234]_(add|sub|mul|max|min)(add|sub|adds|subs)$|^glm_i?vec[234]_(mul)(add|sub)s$')

def scalar_kind(t):
    return {'float':'f','int':'i','_Bool':'i','size_t':'i','uint32_t':'i','glm_euler_seq':'i','void':'v'}.get(t)

def load():
    raw = json.load(open(os.path.join(HERE,'api.json')))
    by = {f['name']: f for f in raw}
    api = {}
    for f in raw:
        n = f['name']
        if not n.startswith('glm_'): continue
        ps = []
        skip = False
        for i,p in enumerate(f['params']):
            t, r = p['type'], p['role']
            if t in ('FILE*','const char*'): skip = True; break
            if ACC.match(n) and p['name']=='dest': r='in,out'
            if re.search(r'_(zero|one|identity|identity_array|invalidate)$',n) and i==0 and not n.endswith('norm_one'): r='out'
            if n in ('glm_mat4_ins3',) and p['name']=='dest': r='in,out'
            if n=='glm_swapf': r='in,out'
            if n in ('glm_quat_rotate_at','glm_quat_rotate_atm'):
                r={'m':'in,out' if n=='glm_quat_rotate_at' else 'out','q':'in','pivot':'in'}[p['name']]
            if n=='glm_ray_sphere': r={'t1':'in,out','t2':'in,out'}.get(p['name'],'in')
            if n=='glm_ray_triangle': r={'d':'in,out'}.get(p['name'],'in')
            r = {'in':'i','out':'o','in,out':'b','?':'i'}[r]
            if t in SHAPES: k,c,rw = SHAPES[t]
            elif scalar_kind(t): k,c,rw = scalar_kind(t),1,1
            elif t in ('float*','const float*','int*'):
                k = 'n' if t=='int*' else 'a'; c=1; rw=1
                m = re.match(r'glm_(\w+?)_make$',n)
                if m: _,c,rw = SHAPES['versor' if m.group(1)=='quat' else m.group(1)]
                if n in ('glm_make_rad','glm_make_deg'): c=rw=1
                if n in ('glm_vec2','glm_ivec2'): c,rw = 1,2
            elif t=='mat4*[]': k,c,rw='M',NARR*4,4
            elif t in ('mat4*','mat3*','mat2*','versor*'):
                _,c,rw = SHAPES[t[:-1]]; k='a'; c*=NARR
            else: raise Exception((n,t))
            ps.append(dict(type=t,name=p['name'],role=r,kind=k,cols=c,rows=rw,n=c*rw))
        if skip: continue
        api[n] = dict(name=n,base=n[4:],ret=f['ret'],rk=scalar_kind(f['ret']),params=ps,file=f['file'])
    for n,f in api.items():
        b=f['base']
        # linked form: positional
        c = by.get('glmc_'+b)
        f['call'] = None
        if c:
            if [p['type'] for p in c['params']]==[p['type'] for p in f['params']]:
                f['call'] = 'glmc_'+b
            else: f['callx']=[p['type'] for p in c['params']]
        s = by.get('glms_'+b)
        f['struct'] = None
        if s:
            m = smap(f, s)
            if m: f['struct']=m
            else: f['structx']=(s['ret'],[(p['type'],p['name']) for p in s['params']])
    return api, by

def unS(t):
    """array type a struct type stands for"""
    if t=='versors': return 'versor'
    if t=='versors*': return 'versor*'
    m = re.match(r'^(i?vec\d|mat\d(?:x\d)?)s(.*)$',t)
    return m.group(1)+m.group(2) if m else t

def smap(f, s):
    """-> dict(name, args=[(slot, struct type)], out=slot|None|'ret', rett)"""
    P=f['params']
    outs=[i for i,p in enumerate(P) if p['role']!='i']
    args=[]; used=set(); j=0
    sp=s['params']; 
    b=f['base']
    if b.startswith('vec2_complex_'):
        # struct form takes one trailing, unused by-value dest
        if len(sp)!=len(P): return None
        args=[(i,x['type']) for i,x in enumerate(sp)]
        return dict(name=s['name'],args=args,out=len(P)-1,rett=s['ret'])
    if b.startswith('perspective_resize'):
        return dict(name=s['name'],args=[(1,'mat4s'),(0,'float')],out=1,rett='mat4s')
    # full positional (all params present incl. outs as pointers/arrays)
    def eq(t,p): return unS(t)==p['type'] or (t.endswith('*') and unS(t[:-1])==p['type'])
    if len(sp)==len(P) and all(eq(x['type'],p) for x,p in zip(sp,P)) and (s['ret']==f['ret']):
        # by-value struct can't be an output
        if all(p['role']=='i' or x['type'].endswith(('*',']')) for x,p in zip(sp,P)):
            return dict(name=s['name'],args=[(i,x['type']) for i,x in enumerate(sp)],out='ret' if f['rk']!='v' else None,rett=s['ret'])
    # drop pure outs, result returned
    ins=[i for i,p in enumerate(P) if p['role']!='o']
    rets=[i for i in outs]
    if len(sp)==len(ins) and all(eq(x['type'],P[i]) for x,i in zip(sp,ins)):
        if len(rets)==1 and f['rk']=='v' and unS(s['ret'])==P[rets[0]]['type']:
            return dict(name=s['name'],args=[(i,x['type']) for x,i in zip(sp,ins)],out=rets[0],rett=s['ret'])
    return None

if __name__=='__main__':
    api,by=load()
    print(len(api), sum(1 for f in api.values() if f['call']), sum(1 for f in api.values() if f['struct']))
    for n,f in api.items():
        if 'callx' in f: print('CALL?',n,[p['type'] for p in f['params']],f['callx'])
        if 'structx' in f: print('STRUCT?',n,[(p['type'],p['role']) for p in f['params']],f['structx'])
