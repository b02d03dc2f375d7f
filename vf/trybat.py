import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import battery
names = [n for n in battery.BATS if any(p in n for p in sys.argv[1].split(','))]
for s in range(int(sys.argv[2]) if len(sys.argv) > 2 else 1):
    t = time.time()
    for r in battery.run(names, s + 1, sys.argv[3] if len(sys.argv) > 3 else 'quick', 'X'):
        print(r['name'], r['status'], r['cases'], r['detail'][:900])
    print('%.1f s' % (time.time() - t))
