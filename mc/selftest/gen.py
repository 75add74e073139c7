# the programs: gen.py FAMILY
import itertools,sys
fam=sys.argv[1]
A={'chan':'SRrsPGgpCDEFe','sync':'LlU','rw':'XxYyVv','cond':'W12','wg':'wdO','race':'+-LUPGSR','race2':'+LUG','race3':'+-XxYy','time':'zZTSAGKQ'}[fam]
shapes={'chan':[(1,1),(2,1),(2,2),(1,1,1),(2,1,1)],'sync':[(2,2),(3,3),(2,2,2)],'rw':[(2,2),(3,3),(2,2,2)],
 'cond':[(1,1),(2,2),(2,1,1),(2,2,1)],'wg':[(2,2),(2,2,1)],'race':[(1,1),(2,2)],'race2':[(3,3),(4,3),(4,4)],'race3':[(3,3)],'time':[(1,1),(2,1),(2,2),(1,1,1),(2,1,1)]}[fam]
seen=set()
for sh in shapes:
    for p in itertools.product(*[[''.join(x) for x in itertools.product(A,repeat=n)] for n in sh]):
        k=tuple(sorted(p))
        if k in seen: continue
        seen.add(k); print(','.join(p))
