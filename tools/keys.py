#!/opt/veriftools/pyvenv/bin/python3
"""keys.py SUBSTR: the contract keys of the functions of the crate"""
import sys; sys.path[:0]=['/verif/mirvc','/verif']
import mir as M, engine, pickle
prog=M.Program(open('/verif/build/serde_yaml.mir').read(),'/repo/src')
E=engine.Engine(prog,{})
pat=sys.argv[1] if len(sys.argv)>1 else ''
for f in prog.all:
    if f.kind=='fn':
        try: k=E.key_of(f)
        except Exception as e: k='?? %s %s'%(f.name,e)
        rel=getattr(f,'rel','') or ''
        if pat in k or pat in rel or pat in f.name: print(rel,'|',k,'|',f.ret if hasattr(f,'ret') else '')
