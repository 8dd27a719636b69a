import sys; sys.path[:0]=['/verif/mirvc','/verif']
import layer_a, engine, vc
prog,reg=layer_a.setup('/verif/build/serde_yaml.mir','/repo')
E=engine.Engine(prog,reg.by_key); E.mir_text=layer_a.STATE['mir_text']
o=E.discharge
def d(run,kind,where,goal):
    o(run,kind,where,goal)
    if E.results[-1]['verdict'] not in('unsat','trivial'):
        print('GOAL',goal); 
        for p in run.pc: print('   ',p)
        sys.exit()
E.discharge=d
print(E.verify(reg.items[sys.argv[1]]))
if hasattr(E,'tb'): print(E.tb)
