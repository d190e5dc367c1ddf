#!/opt/veriftools/pyenv/bin/python3
"""setup_cmd: builds the SSA dumper and warms the Go build cache for the search program (the checks rebuild both when needed)"""
import sys, os, shutil
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V + "/vc")
os.chdir(V)
import dump
dump.build_dumper(); dump.dump()
import check
s = check.Search("C01"); s.build(); s.build(True); s.close()
s = check.Search("C18"); s.build(True); s.close()
# the provers refuse what is false: a broken obligation must not be discharged
import units
from sx import World, State
E = units.new_engine(World(dump.dump()), "none")
E.cur = "self test"
assert not E.obl(State(E.w), "post", "false is not provable", False) and not E.obls[-1].ok
print("setup done")
