"""Debug helper: run one unit in-process."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import framework, importlib
pid, name = sys.argv[1], sys.argv[2]
bounded = int(sys.argv[3]) if len(sys.argv) > 3 else 0
mod = importlib.import_module('checks.' + pid)
prog = framework.Program(mod.SOURCES)
for u in mod.units(prog):
    if name in u.name:
        t = time.time()
        if os.environ.get('PROF'):
            import cProfile, pstats
            pr = cProfile.Profile(); pr.enable()
            r = framework.run_unit((prog, u, bounded, 200))
            pr.disable(); pstats.Stats(pr).sort_stats('cumtime').print_stats(35)
        else:
            r = framework.run_unit((prog, u, bounded, 200))
        print('==', u.name, '%.1fs' % (time.time() - t), 'obl', r['obligations'], 'ok', r['discharged'], 'err', r['error'], 'solver %.1f q %d' % (r['solver_s'], r['queries']))
        for l in r['loops']: print('   loop', l)
        if os.environ.get('INV'):
            for n, i in r['inv']:
                print('   inv', n)
                for x in i: print('        ', x)
        for f in r['failures']:
            print('   FAIL', f['obligation'], f['kind'], f['where'], f['definite'], f['note'])
            for x in f['trace'][-25:]: print('       ', x)
            if os.environ.get('MODEL'):
                for x in f['model']: print('          ', x)
        print('   covers', r['covers'])
