#!/usr/bin/env python3
"""prints the inputs of a case file compactly: consecutive values of one name are joined as text"""
import sys
for p in sys.argv[1:]:
    cur=None; out=[]
    for l in open(p,errors='replace'):
        f=l.split()
        if not f: continue
        if f[0]=='v':
            v=int(f[-1]); n=f[1]
            if cur and cur[0]==n: cur[1].append(v)
            else: cur=(n,[v]); out.append(cur)
        elif f[0]=='o':
            t=l.rstrip(); 
            if f[2]=='b': t='o %s %r'%(f[1],bytes.fromhex(f[3]).decode('utf-16le','replace') if len(f)>3 and len(f[3])%4==0 else bytes.fromhex(f[3]) if len(f)>3 else '')
            out.append((t,None))
        elif l.startswith('#') : out.append((l.rstrip(),None))
    print(p)
    for n,v in out:
        if v is None: print('  ',n)
        elif all(9<=x<127 for x in v) : print('  ',n,repr(bytes(v).decode()))
        else: print('  ',n,v)
