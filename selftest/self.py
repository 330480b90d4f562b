"""every function of the reference numbers to itself"""
import sys, time
sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000)
from sa.compare import Pair
P = Pair('/repo', '/verif/spec'); n = bad = 0
for q in sorted(P.spec.fns):
    n += 1
    t = time.time(); st, d = P.compare(q); t = time.time() - t
    if st != 'equal': bad += 1; print(st, q, [(k, str(x)[:200], str(y)[:200]) for k, x, y in d][:2])
    if t > 3: print('slow', q, round(t, 1))
print(n, 'functions', bad, 'not equal')
