"""developer tool: dbg.py IR CONTRACT... : verify contracts and print what is not proved"""
import sys, time, json
sys.path.insert(0, '/verif/engine')
import worker
irs = sys.argv[1].split(',')
for c in sys.argv[2:]:
    r = worker.verify(c, irs, 120)
    obs = r['obligations']
    print(c, r['status'], r.get('reason', ''), 'obl', len(obs), 'proved', sum(o['status'] == 'proved' for o in obs), 'covers', r['covers'],
          'paths', r['paths'], 'exec', r['exec_s'], 'solve', r['solve_s'])
    if r.get('trace'): print(r['trace'])
    for o in [o for o in obs if o['status'] != 'proved'][:8]:
        if 1:
            print('   ', o['status'], o['label'], o.get('detail'), o.get('where'), o.get('model'))
            if '-v' in sys.argv[0:1] or True:
                print('       goal', o.get('goal', '')[:600])
    slow = sorted(obs, key=lambda o: -o['t'])[:3]
    print('    slow', [(o['label'], o['t'], o['backend']) for o in slow if o['t'] > 1])
