#!/usr/bin/env python3
"""Author tool: which input conditions do the generators reach?  For every function, how many of the judged generated cases satisfy each of a list
of predicates over its inputs (degenerate, aligned, extreme, nearly-something); lists (function, predicate) pairs that are never (or hardly ever)
reached.   trigcov.py [CASES] [LEAST] [FUNCTION-REGEX]"""
import sys, os, re, subprocess, struct, collections
sys.path.insert(0, '/verif/lib')
import numpy as np
import build, contract
np.seterr(all='ignore')
def vecpreds(v):
    n = v.shape[1]; v = v.astype(np.float64); l = np.sqrt((v * v).sum(1)); a = np.abs(v); fin = np.isfinite(v).all(1); z = (v == 0).sum(1)
    P = {'len<1e-6': (l < 1e-6) & (l > 0), 'len in 1e-6..1e-3': (l < 1e-3) & (l > 1e-6), 'len<1e-15': (l < 1e-15) & (l > 0), 'len>1e4': (l > 1e4) & fin, 'len>1e12': (l > 1e12) & fin,
         'allneg': (v < 0).all(1), 'allpos': (v > 0).all(1), 'zero': (z == n), 'axis': z == n - 1, 'onezero': z == 1, 'equalcomps': (v == v[:, :1]).all(1) & (v[:, 0] != 0), 'ints': (v == np.round(v)).all(1) & fin & (l > 0),
         'unit': (np.abs(l - 1) < 1e-6) & (z < n - 1), 'nearunit': (np.abs(l - 1) > 1e-5) & (np.abs(l - 1) < 1e-2), 'sum0': (v.sum(1) == 0) & (l > 0), 'huge ratio': (a.max(1) > 1e5 * a.min(1)) & (a.min(1) > 0)}
    for i in range(n): P['v%d is largest neg' % i] = (a.argmax(1) == i) & (v[:, i] < 0); P['only v%d zero' % i] = (z == 1) & (v[:, i] == 0)
    return P
def scal(s):
    s = s.astype(np.float64)
    return {'<0': s < 0, '>1': s > 1, '=0': s == 0, '=1': s == 1, '=-1': s == -1, '=.5': s == .5, '(0,1)': (s > 0) & (s < 1), 'big>1e4': np.abs(s) > 1e4, 'big>1e8': np.abs(s) > 1e8, 'tiny': (np.abs(s) < 1e-6) & (s != 0), 'just below 1': (s < 1) & (s > .9999), 'just above 0': (s > 0) & (s < 1e-4), 'int': (s == np.round(s)) & (s != 0)}
def pair(a, b):
    a = a.astype(np.float64); b = b.astype(np.float64); la = np.sqrt((a * a).sum(1)); lb = np.sqrt((b * b).sum(1)); d = (a * b).sum(1); c = d / (la * lb)
    return {'equal': (a == b).all(1) & (la > 0), 'negated': (a == -b).all(1) & (la > 0), 'dot<0': d < 0, 'orth': (d == 0) & (la > 0) & (lb > 0), 'nearorth': (np.abs(c) < 1e-3) & (d != 0), 'nearpar': (c > 1 - 1e-5) & ~(a == b).all(1), 'nearopp': (c < -1 + 1e-5) & ~(a == -b).all(1), 'a>>b': (la > 1e4 * lb) & (lb > 0), 'a<<b': (lb > 1e4 * la) & (la > 0), 'a<b all': (a < b).all(1), 'a>b all': (a > b).all(1), 'share one comp': ((a == b) & (a != 0)).sum(1) == 1, 'close': (np.abs(a - b).max(1) < 1e-5 * (la + lb)) & ~(a == b).all(1)}
def ints(v, n):
    a = np.abs(v.astype(np.int64)); v = v.astype(np.int64)
    P = {'i any0': (v == 0).any(1), 'i all0': (v == 0).all(1), 'i anyneg': (v < 0).any(1), 'i allneg': (v < 0).all(1), 'i allpos': (v > 0).all(1), 'i min': (v == -2**31).any(1), 'i max': (v == 2**31 - 1).any(1), 'i >65535': (a > 65535).any(1), 'i >2^24': (a > 2**24).any(1), 'i >2^24 odd': ((a > 2**24) & (a % 2 == 1)).any(1), 'i pow2': ((a & (a - 1)) == 0).all(1) & (a != 0).all(1), 'i one': (v == 1).any(1), 'i minus1': (v == -1).any(1), 'i small': (a < 10).all(1) & (a > 0).any(1)}
    if n > 1:
        P['i equal'] = (v == v[:, :1]).all(1) & (v[:, 0] != 0)
        for i in range(n): P['i only%d zero' % i] = (v[:, i] == 0) & ((v == 0).sum(1) == 1); P['i max%d' % i] = (a.argmax(1) == i) & (v[:, i] < 0)
    return P
def ipair(a, b):
    a = a.astype(np.int64); b = b.astype(np.int64); z = (b != 0).all(1)
    bb = np.where(b == 0, 1, b)
    P = {'i equal': (a == b).all(1) & (a != 0).any(1), 'i neg': (a == -b).all(1) & (a != 0).any(1), 'i divides': (a % bb == 0).all(1) & z & (np.abs(bb) > 1).all(1) & (a != 0).any(1), 'i signs differ': ((a < 0) != (b < 0)).all(1), 'i both neg': (a < 0).all(1) & (b < 0).all(1), 'i a<b': (a < b).all(1), 'i a>b': (a > b).all(1), 'i mixed<': (a < b).any(1) & (a > b).any(1), 'i prod>2^31': (np.abs(a * b) > 2**31).any(1), 'i sum>2^31': (np.abs(a + b) > 2**31).any(1), 'i |a|<|b|': (np.abs(a) < np.abs(b)).all(1), 'i diff>2^31': (np.abs(a - b) > 2**31).any(1)}
    if a.shape[1] > 1: P['i one differs'] = ((a != b).sum(1) == 1); P['i one equal'] = ((a == b) & (a != 0)).sum(1) == 1; P['i last only'] = (a[:, :-1] == b[:, :-1]).all(1) & (a[:, -1] != b[:, -1])
    return P
def mat(m, n):
    m = m.astype(np.float64); M = m.reshape(-1, n, n); fin = np.isfinite(m).all(1); D = np.zeros(len(m)); D[fin] = np.linalg.det(M[fin]); off = m.copy(); off[:, ::n + 1] = 0; d = m[:, ::n + 1]; tr = d.sum(1); mx = np.abs(m).max(1)
    P = {'det<0': D < 0, 'det>0': D > 0, 'singular': (D == 0) & fin, 'small': (mx < 1e-3) & (mx > 0), 'large': (mx > 1e4) & fin, 'diag': (off == 0).all(1) & (d != 1).any(1), 'ident': (off == 0).all(1) & (d == 1).all(1), 'sym': (M == M.transpose(0, 2, 1)).all((1, 2)) & (off != 0).any(1), 'antisym': (off.reshape(M.shape) == -off.reshape(M.shape).transpose(0, 2, 1)).all((1, 2)) & (off != 0).any(1), 'ints': (m == np.round(m)).all(1), 'tr<0': tr < 0, 'zero entry': (m == 0).any(1), 'no zero': (m != 0).all(1), 'smalldet': (np.abs(D) < 1e-6) & (D != 0)}
    if n == 4: P.update({'affine': (M[:, :3, 3] == 0).all(1) & (M[:, 3, 3] == 1), 'm33=0': M[:, 3, 3] == 0, 'no translation': (M[:, 3, :3] == 0).all(1), 'proj row': (M[:, :3, 3] != 0).all(1), 'm33!=1 affine': (M[:, :3, 3] == 0).all(1) & (M[:, 3, 3] != 1) & (M[:, 3, 3] != 0)})
    return P
def main():
    cases = int(sys.argv[1]) if len(sys.argv) > 1 else 4000; least = int(sys.argv[2]) if len(sys.argv) > 2 else 1; rx = re.compile(sys.argv[3] if len(sys.argv) > 3 else '.')
    exe, api = build.driver(); procs = []
    for sh in range(8): procs.append(subprocess.Popen([exe, '--api', api, '--out', '/tmp/tc/o%d' % sh, '--mode', 'record', '--arg', '/tmp/tc/l%d' % sh, '--cases', str(cases), '--seed', '1', '--prop', 'C99', '--shard', '%d/8' % sh], stdout=subprocess.DEVNULL))
    for p in procs: p.wait()
    fns = list(contract.load()[0].values()); data = collections.defaultdict(list)
    for sh in range(8):
        b = open('/tmp/tc/l%d' % sh, 'rb').read(); o = 0
        while o + 12 <= len(b):
            fn, idx, s = struct.unpack_from('<iii', b, o); w = sum(p['n'] for p in fns[fn]['params'])
            if s == 0: data[fn].append(b[o + 12:o + 12 + 4 * w])
            o += 12 + 4 * w + ((w + 3) & ~3)
    miss = collections.Counter(); out = []
    for fn, f in enumerate(fns):
        if not rx.search(f['name']): continue
        P = f['params']; w = sum(p['n'] for p in P); X = np.frombuffer(b''.join(data[fn]), dtype=np.float32).reshape(-1, w) if w else np.zeros((0, 0)); o = 0; vs = []; iv = []; res = {}
        for p in P:
            x = X[:, o:o + p['n']]; o += p['n']
            if p['role'] == 'o': continue
            t = p['type']
            if t.startswith(('int', 'uint', 'ivec', 'bool')) or p['kind'] == 'i':
                y = np.ascontiguousarray(x).view(np.int32)
                if p['n'] <= 4:
                    for k, v in ints(y, p['n']).items(): res[p['name'] + ':' + k] = int(v.sum())
                    iv.append((p['name'], y))
                continue
            if p['n'] == 1: q = scal(x[:, 0])
            elif t == 'mat4': q = mat(x, 4)
            elif t == 'mat3': q = mat(x, 3)
            elif t == 'mat2': q = mat(x, 2)
            elif p['n'] <= 4: q = vecpreds(x); vs.append((p['name'], x))
            else:
                q = {}
                k = 3 if '3' in t else 2 if '2' in t else 4
                if 'vec' in t:
                    for i in range(p['n'] // k): vs.append(('%s%d' % (p['name'], i), x[:, i * k:i * k + k]))
                    vs = vs[:4]
            for k, v in q.items(): res[p['name'] + ':' + k] = int(v.sum())
        for i in range(len(vs)):
            for j in range(i):
                if vs[i][1].shape == vs[j][1].shape:
                    for k, v in pair(vs[j][1], vs[i][1]).items(): res['%s,%s:%s' % (vs[j][0], vs[i][0], k)] = int(v.sum())
        for i in range(len(iv)):
            for j in range(i):
                n = min(iv[i][1].shape[1], iv[j][1].shape[1])
                if n == iv[i][1].shape[1] == iv[j][1].shape[1] or n == 1:
                    A = iv[j][1]; B = np.broadcast_to(iv[i][1], A.shape) if iv[i][1].shape[1] == 1 else iv[i][1]
                    if A.shape == B.shape:
                        for k, v in ipair(A, B).items(): res['%s,%s:%s' % (iv[j][0], iv[i][0], k)] = int(v.sum())
        lo = [k if least == 1 else '%s(%d)' % (k, v) for k, v in res.items() if v < least]
        for k in lo: miss[k.split(':')[1]] += 1
        if lo: print('%s [%d]: %s' % (f['name'], len(X), ' | '.join(lo)))
    print(miss)
main()
