import sys, importlib; sys.path.insert(0,'/verif')
from kvc import build, case as C
from kvc.engine import *
m=importlib.import_module('contracts.'+sys.argv[1])
prog=m.program() if hasattr(m,'program') else build.program(m.IR); prog.demangled()
for c in m.cases('quick'):
    if sys.argv[2] not in c.name: continue
    print('##',c.name)
    o=C.Oracle(c); E=Engine(prog,list(c.overrides),o)
    import traceback
    def run(E):
        try: return c.entry(E)
        except KThrow: traceback.print_exc(); raise
    for r in explore(E,run,50):
        print(r.kind,r.value if r.kind!='ret' else '',r.pc,[x['iters'] for x in r.roots],r.events)
