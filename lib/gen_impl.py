"""Generate the uniform-ABI wrapper translation unit for one API form."""
import contract

HEAD = r'''
#include <stddef.h>
#include <stdint.h>
#include <string.h>
%(pre)s
%(inc)s
#ifdef VT_NS
#include VT_NS
#endif
typedef void (*w_fn)(void **);
#ifdef __cplusplus
#define VT_EXT extern "C" const __attribute__((visibility("default")))
#else
#define VT_EXT __attribute__((visibility("default"))) const
#endif
#define LD(T, q) ({ T t_; memcpy(&t_, (q), sizeof t_); t_; })
'''
INC = {
 'inline': ['cglm/cglm.h'],
 'call':   ['cglm/cglm.h','cglm/call.h'],
 'struct': ['cglm/cglm.h','cglm/struct.h'],
}
CS = ['lh_no','lh_zo','rh_no','rh_zo']
def includes(form):
    l=list(INC[form])
    pre={'inline':'cglm/','call':'cglm/','struct':'cglm/struct/'}[form]
    cams=['ortho','persp','project','view']
    if form=='call':
        l+=['cglm/call/clipspace/%s_%s.h'%(k,c) for k in ('ortho','persp') for c in CS]
        l+=['cglm/call/clipspace/view_%s.h'%c for c in ('lh_no','lh_zo','rh_no','rh_zo')]
        l+=['cglm/call/clipspace/project_no.h','cglm/call/clipspace/project_zo.h']
    else:
        l+=[pre+'clipspace/%s_%s.h'%(k,c) for k in ('ortho','persp') for c in CS]
        l+=[pre+'clipspace/view_%s.h'%c for c in ('lh_no','lh_zo','rh_no','rh_zo')]
        l+=[pre+'clipspace/project_no.h',pre+'clipspace/project_zo.h']
        if form=='inline': l+=[pre+'clipspace/view_lh.h',pre+'clipspace/view_rh.h']
        l+=[pre+'handed/euler_to_quat_lh.h',pre+'handed/euler_to_quat_rh.h']
    return l

def arg(p,i,cref=False):
    t=p['type']; s='p[%d]'%i
    if p['kind']=='f': return '*(float*)'+s
    if p['kind']=='i':
        if t=='glm_euler_seq': return '(glm_euler_seq)*(int*)'+s
        if t=='size_t': return '(size_t)*(int*)'+s
        if t=='uint32_t': return '(uint32_t)*(int*)'+s
        return '*(int*)'+s
    if t in contract.CASTS: return contract.CASTS[t]+s
    if t in ('mat4*','mat3*','mat2*','versor*'): return '(%s)%s'%(t,s)
    if p['kind']=='n': return '(int*)'+s
    return '(float*)'+s

def wrap(f,form,idx):
    P=f['params']; np=len(P); pre=''; post=''
    def retst(call):
        if f['rk']=='v': return call+';'
        if f['rk']=='f': return '*(float*)p[%d] = %s;'%(np,call)
        return '*(int*)p[%d] = (int)(%s);'%(np,call)
    if form in('inline','call'):
        name = f['name'] if form=='inline' else f['call']
        args=[]
        for i,p in enumerate(P):
            if p['kind']=='M':
                pre='mat4 *ms[%d]; for (int k=0;k<%d;k++) ms[k]=(mat4*)((float*)p[%d]+16*k); '%(contract.NARR,contract.NARR,i)
                args.append('ms')
            else: args.append(arg(p,i))
        body=pre+retst('%s(%s)'%(name,', '.join(args)))
    else:
        m=f['struct']; args=[]
        for slot,t in m['args']:
            p=P[slot]
            if t=='mat4s*[]':
                pre='mat4s *ms[%d]; for (int k=0;k<%d;k++) ms[k]=(mat4s*)((float*)p[%d]+16*k); '%(contract.NARR,contract.NARR,slot)
                args.append('ms')
            elif t.endswith(']') and contract.unS(t)!=t:
                args.append('(%s*)p[%d]'%(t[:t.index('[')],slot))
            elif t.endswith('*') and contract.unS(t)!=t: args.append('(%s)p[%d]'%(t,slot))
            elif contract.unS(t)!=t: args.append('LD(%s,p[%d])'%(t,slot))
            else: args.append(arg(p,slot))
        call='%s(%s)'%(m['name'],', '.join(args))
        if m['out'] is None: body=pre+call+';'
        elif m['out']=='ret': body=pre+retst(call)
        else: body=pre+'%s r_ = %s; memcpy(p[%d], &r_, sizeof r_);'%(m['rett'],call,m['out'])
    return 'static void w%d(void **p) { (void)p; %s }\n'%(idx,body)

TYPES=['vec2','vec3','vec4','versor','ivec2','ivec3','ivec4','mat2','mat3','mat4','mat2x3','mat2x4','mat3x2','mat3x4','mat4x2','mat4x3']

def source(form, names, api, pre='', sfx=''):
    out=HEAD%dict(pre=pre,inc='\n'.join('#include <%s>'%h for h in includes(form)))
    ent=[]
    for i,n in enumerate(names):
        f=api[n]
        if form!='inline' and not f[form]: ent.append('{"%s",0}'%n); continue
        out+=wrap(f,form,i); ent.append('{"%s",w%d}'%(n,i))
    out+='struct vt_fn { const char *name; w_fn fn; };\nVT_EXT struct vt_fn vt_fns%s[] = {%s,{0,0}};\n'%(sfx,',\n'.join(ent))
    out+='struct vt_al { const char *name; int size, align; };\nVT_EXT struct vt_al vt_als%s[] = {%s,{0,0,0}};\n'%(sfx,','.join('{"%s",sizeof(%s),__alignof__(%s)}'%(t,t,t) for t in TYPES))
    return out
if __name__=='__main__':
    import sys
    api,by=contract.load()
    print(source(sys.argv[1],list(api),api))
