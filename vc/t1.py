import sys,time
sys.path.insert(0,'/verif/vc')
import dump; from sx import *; from base import *; import lex
d=dump.dump(); w=World(d)
def mk():
    E=Engine(w, stdlib=STD); E.env={}
    E.unfolders=lex.low_unfolders(E)
    run_init(E)
    cs=lex.lexer_contracts()
    E.contracts={c.name:c for c in cs}
    return E,cs
E,cs=mk()
only=sys.argv[1:]
if not only or 'lemma' in only:
    lex.check_tables(E)
    lex.prove_lemmas(E,("C02",))
    for o in E.obls: print(o.ok,o.what,o.detail[:1500] if not o.ok else '')
for c in cs:
    if only and c.name not in only: continue
    E.obls=[]
    obl,t=prove(E,c)
    print(c.name,"%.1fs"%t,len(obl),sum(o.ok for o in obl),E.nq)
    for o in obl:
        if not o.ok: print("   FAIL",o.kind,o.what,o.line,o.detail[-1500:])
    if only:
        for o in obl: o.kind!='safety' and print("   ",o.ok,o.kind,o.what,o.line)
