"""vacuity.py LOG SCRIPT ARGS..: run a prover (engine/cmpproof.py SSA.json C01 ...) and log, for each obligation decided by the
solver, whether its hypotheses and background facts are satisfiable by themselves (python3-vt; PYTHONHASHSEED=0)."""
import sys,os,runpy
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOG=os.path.abspath(sys.argv.pop(1))
sys.path.insert(0,V+'/engine'); sys.path.insert(0,V+'/contracts')
import facts, z3
from core import *
orig=facts.prove1
def prove1(hyps, goal, unique, timeout, rounds):
    r=orig(hyps,goal,unique,timeout,rounds)
    if r=='proved' and not is_false(goal) and not is_true(goal) and not any(is_false(h) for h in hyps):
        q=list(hyps)+[z3.Not(goal)]
        s=z3.Solver(); s.set('timeout',4000); s.add(*hyps); s.add(*facts.facts(q,unique,rounds))
        x=s.check()
        # stack
        import traceback
        st=[f.name for f in traceback.extract_stack()[-7:-1]]
        with open(LOG,'a') as f:
            f.write('%s %s goal=%s hyps=%s\n'%(x,'/'.join(st),' '.join(str(goal).split())[:200],' ;; '.join(' '.join(str(h).split()) for h in hyps)[:900]))
    return r
facts.prove1=prove1
sys.argv=sys.argv[1:]
runpy.run_path(sys.argv[0],run_name='__main__')
