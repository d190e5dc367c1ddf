import cProfile,pstats,sys,runpy
sys.argv=['t1.py']+sys.argv[1:]
cProfile.run("runpy.run_path('t1.py')",'/tmp/prof')
pstats.Stats('/tmp/prof').sort_stats('tottime').print_stats(14)
