"""dev.py MODULE [substring]: verify the contracts of a spec module against the MIR in .work/mir (development aid)"""
import sys, multiprocessing
import run
from prog import Program
mod = sys.argv[1]
only = sys.argv[2] if len(sys.argv) > 2 else ''
run._MODS = run.load_mods(run.closure_mods(mod))
run._P = Program(run.REPO, run.WORK + '/mir')
m = run._MODS[mod]
jobs = [('contract', mod, c.name, 240, 20000) for c in m.contracts() if not c.trusted and only in c.name]
jobs += [('lemma', mod, n, 240, 20000) for n, _ in getattr(m, 'LEMMAS', []) if only in n]
if '-d' in sys.argv:   # dump the first rejected obligation
    eng, allc, lost = run.new_engine(900, 20000)
    o0 = eng.oblige

    def ob(st, name, goal, kind='post'):
        r = o0(st, name, goal, kind)
        print(eng.obls[-1].verdict, '%.2f' % eng.obls[-1].dt, name)
        if not r:
            print('DETAIL', eng.obls[-1].detail[:3000], '\nGOAL', goal)
            for k, c in st.pc:
                print('   pc', k, c)
            for a in eng.axioms:
                print('   ax', a)
            sys.exit()
        return r
    eng.oblige = ob
    [allc[c.name].verify(eng) for c in m.contracts() if only in c.name]
    sys.exit()
bad = tot = 0
with multiprocessing.get_context('fork').Pool(8) as p:
    for r in p.imap_unordered(run.job, jobs):
        b = [o for o in r['obls'] if o['verdict'] != 'proved']
        tot += len(r['obls'])
        bad += len(b)
        if only or b or r['status'] != 'ok':
            print('%-12s %-45s %d/%d paths=%d %.1fs %s' % (r['status'], r['name'], len(r['obls']) - len(b), len(r['obls']), r['paths'], r['wall'], r['reason'][-1200 if only else -150:].replace(chr(10),' ')))
            for o in b[:4]:
                print('    ', o['verdict'], o['name'], o['detail'][:900 if only else 200].replace('\n', ' '))
        if only and len(jobs) < 4:
            print('   inlined', r.get('inlined'), '\n   havocked', r.get('havocked'), '\n   modelled', r.get('modelled'), '\n   used', r.get('used'))
print('%d jobs, %d obligations, %d rejected' % (len(jobs), tot, bad))
