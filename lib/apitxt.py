import contract,sys
def text():
    api,by=contract.load(); o=[]
    for n,f in api.items():
        o.append('F %s %s %d %d %d'%(n,f['rk'],len(f['params']),1 if f['call'] else 0,1 if f['struct'] else 0))
        for p in f['params']: o.append('P %s %s %d %d %s %s'%(p['kind'],p['role'],p['cols'],p['rows'],p['name'],p['type']))
    return chr(10).join(o)+chr(10)
if __name__=='__main__': sys.stdout.write(text())
