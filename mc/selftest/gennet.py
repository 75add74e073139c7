# the sequences of operations on a connection
import itertools
for n in range(0,7):
    for p in itertools.product('wrxWRX',repeat=n): print('dc'+''.join(p))
for n in range(0,6):
    for p in itertools.product('dlL',repeat=n): print(''.join(p))
for n in range(0,4):
    for p in itertools.product('wrxl',repeat=n):
        for q in itertools.product('WRX',repeat=2): print('d'+''.join(p)+('' if 'l' in p else 'c'+''.join(q)))
