"""Which check decides which property."""
import json
from harness import treecheck, indexcheck, observercheck, cachecheck, optcheck, gradcheck, obsarcheck, transformcheck

CHECKS = {}
for _p in treecheck.P:
    CHECKS[_p] = treecheck.tree_check(_p)

CHECKS['C16'] = indexcheck.check
CHECKS['C07'] = observercheck.check
CHECKS['C08'] = cachecheck.make('C08')
CHECKS['C09'] = cachecheck.make('C09')
CHECKS['C13'] = optcheck.c13('C13')
CHECKS['C20'] = optcheck.c13('C20')
CHECKS['C14'] = optcheck.c14
CHECKS['C15'] = gradcheck.check
CHECKS['C22'] = obsarcheck.check
CHECKS['C17'] = transformcheck.check


def replay(path):
    d = json.load(open(path))
    r = d['replay']
    print(d['what'])
    if r.get('kind') == 'tree':
        t = treecheck.play(r['pool'], r['ops'], r['fields'], looks=r.get('looks'))
        for e in t['evs']:
            print(json.dumps(e['op']), '->', e['out'], e['ret'], e['err'])
        print('observed at the end:', json.dumps(t['evs'][-1]['obs']))
    else:
        print(json.dumps(r, indent=1))
    return 0
