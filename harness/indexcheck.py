"""C16: index operations and views against spec/IndexOps.tla."""
import itertools
import random
import warnings

import numpy as np

from harness import common, runner, tlc, tracecheck  # noqa
from paramz.core.index_operations import ParameterIndexOperations as Ops, ParameterIndexOperationsView as View
from paramz.transformations import Logexp, Logistic

PROPS = ['a', 'b', 'c']


def prop_objects(kind):
    if kind == 0:
        return {'a': 'a', 'b': 'b', 'c': 'c'}
    if kind == 1:
        return {'a': Logexp(), 'b': Logistic(0., 1.), 'c': 'fixed'}
    return {'a': Logistic(0., 2.), 'b': Logistic(0., 1.), 'c': Logexp()}


class Player(object):
    def __init__(self, kind):
        self.kind = kind
        self.obj = prop_objects(kind)
        self.objs = []
        self.evs = []

    def name(self, p):
        for k, v in self.obj.items():
            if v is p or (isinstance(p, str) and p == v):
                return k
        return '?'

    def ix(self, op):
        a = np.array(op['ix'], dtype=int)
        return a

    def do(self, op):
        t = op['t']
        if t == 'new':
            self.objs.append(Ops())
            return []
        if t == 'noop':
            return []
        o = self.objs[op['o'] - 1]
        if t == 'view':
            self.objs.append(View(o, op['off'], op['size']))
        elif t == 'copy':
            self.objs.append(o.copy())
        elif t == 'add':
            a = self.ix(op)
            o.add(self.obj[op['p']], a)
            a += 100                      # the caller's array is his own
        elif t == 'remove':
            return [[int(x) for x in o.remove(self.obj[op['p']], self.ix(op))]]
        elif t == 'del':
            del o[self.obj[op['p']]]
        elif t == 'clear':
            o.clear()
        elif t == 'right':
            o.shift_right(op['start'], op['n'])
        elif t == 'left':
            o.shift_left(op['start'], op['n'])
        elif t == 'update':
            o.update(self.objs[op['src'] - 1], op['off'])
        elif t == 'get':
            return [[int(x) for x in o[self.obj[op['p']]]]]
        elif t == 'for':
            return [[self.name(p) for p in ps] for ps in o.properties_for(self.ix(op))]
        elif t == 'dict':
            d = dict((self.name(k), [int(x) for x in v]) for k, v in o.properties_dict_for(self.ix(op)).items())
            return [d.get(p, []) for p in PROPS] + [v for k, v in d.items() if k not in PROPS or not v]
        elif t == 'size':
            return [[int(o.size)]]
        return []

    def observe(self):
        out = []
        for o in self.objs:
            items = [[self.name(p), [int(i) for i in ix]] for p, ix in o.items()]
            if [self.name(p) for p in o.properties()] != [i[0] for i in items]:
                raise RuntimeError('properties() differs from items()')
            if [[int(i) for i in ix] for ix in o.indices()] != [i[1] for i in items]:
                raise RuntimeError('indices() differs from items()')
            out.append(items)
        return out

    def step(self, op, observe=True):
        ev = {'op': op, 'out': 'ok', 'ret': [], 'err': '', 'obs': []}
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                ev['ret'] = self.do(op)
            except Exception as e:
                ev['out'] = type(e).__name__
            if observe:
                try:
                    ev['obs'] = self.observe()
                except Exception as e:
                    ev['err'] = 'observing: %s: %s' % (type(e).__name__, e)
        self.evs.append(ev)
        return not ev['err'] and ev['out'] in ('ok', 'KeyError')

    def trace(self):
        return {'kind': self.kind, 'evs': self.evs}


def play(r):
    p = Player(r['kind2'])
    for op in r['ops']:
        p.step(op)
    return p.trace()


def random_trace(seed, steps):
    r = random.Random(seed)
    p = Player(r.randrange(3))
    n = r.randint(3, 8)
    p.step({'t': 'new'})
    size = {1: n}          # the universe of each object
    kinds = {1: 'op'}
    for _ in range(steps):
        o = r.choice(list(size))
        w = size[o]
        k = r.random()
        pr = r.choice(PROPS)
        ix = [r.randrange(w) for _ in range(r.randint(0, w))] if w else []
        if k < .06 and len(size) < 6:
            op = {'t': 'new'}
            size[len(size) + 1] = n
            kinds[len(kinds) + 1] = 'op'
        elif k < .16 and len(size) < 7:
            off = r.randint(0, w)
            s = r.randint(0, w - off)
            op = {'t': 'view', 'o': o, 'off': off, 'size': s}
            size[len(size) + 1] = s
            kinds[len(kinds) + 1] = 'view'
        elif k < .2 and len(size) < 7:
            op = {'t': 'copy', 'o': o}
            size[len(size) + 1] = w
            kinds[len(kinds) + 1] = 'op'
        elif k < .45:
            op = {'t': 'add', 'o': o, 'p': pr, 'ix': ix}
        elif k < .6:
            op = {'t': 'remove', 'o': o, 'p': pr, 'ix': ix}
        elif k < .64:
            op = {'t': 'del', 'o': o, 'p': pr}
        elif k < .67:
            op = {'t': 'clear', 'o': o}
        elif k < .72:
            op = {'t': 'right', 'o': o, 'start': r.randint(0, w), 'n': r.randint(0, 3)}
        elif k < .77:
            op = {'t': 'left', 'o': o, 'start': r.randint(0, w), 'n': r.randint(0, 3)}
        elif k < .82:
            src = r.choice(list(size))
            if size[src] > w:
                continue
            op = {'t': 'update', 'o': o, 'src': src, 'off': r.randint(0, w - size[src])}
        elif k < .87:
            op = {'t': 'get', 'o': o, 'p': pr}
        elif k < .93:
            op = {'t': 'for', 'o': o, 'ix': ix}
        elif k < .97:
            op = {'t': 'dict', 'o': o, 'ix': ix}
        else:
            op = {'t': 'size', 'o': o}
        if not p.step(op):
            break
    return p.trace()


def exhaustive(kind, off, size, n, chunk, chunks):
    """every state of an index set over 0..n-1 with two properties and a window, every operation on it"""
    out = []
    subsets = [list(x) for k in range(n + 1) for x in itertools.combinations(range(n), k)]
    vsub = [s for s in subsets if all(x < size for x in s)]
    i = 0
    for sa in subsets:
        for sb in subsets:
            i += 1
            if i % chunks != chunk:
                continue
            for o, subs in ((1, subsets), (2, vsub)):
                ops = [{'t': 'remove', 'o': o, 'p': 'a', 'ix': s} for s in subs]
                ops += [{'t': 'add', 'o': o, 'p': 'a', 'ix': s} for s in subs]
                ops += [{'t': 'left', 'o': o, 'start': s, 'n': m} for s in range((n if o == 1 else size) + 1) for m in range(3)]
                ops += [{'t': 'right', 'o': o, 'start': s, 'n': m} for s in range((n if o == 1 else size) + 1) for m in range(3)]
                ops += [{'t': 'clear', 'o': o}, {'t': 'del', 'o': o, 'p': 'a'}, {'t': 'size', 'o': o},
                        {'t': 'for', 'o': o, 'ix': list(range(n if o == 1 else size))},
                        {'t': 'dict', 'o': o, 'ix': list(reversed(range(n if o == 1 else size)))}]
                for op in ops:
                    p = Player(kind)
                    p.step({'t': 'new'}, False)
                    p.step({'t': 'view', 'o': 1, 'off': off, 'size': size}, False)
                    p.step({'t': 'add', 'o': 1, 'p': 'a', 'ix': sa}, False)
                    p.step({'t': 'add', 'o': 1, 'p': 'b', 'ix': sb}, False)
                    p.step(op)
                    out.append(p.trace())
    return out


def corrupt(tr, rnd):
    import copy
    t = copy.deepcopy(tr)
    for k in range(len(t['evs']) - 1, -1, -1):
        e = t['evs'][k]
        if any(e['obs']):
            o = [x for x in e['obs'] if x][0]
            o[0][1][0] += 50
            t['evs'] = t['evs'][:k + 1]
            return t
    return None


def check(c):
    tracecheck.model(c, 'IndexOpsMC', 'all index sets with nested windows')
    trs = runner.pmap(random_trace, [(c.seed * 7919 + i, c.n(60, 120)) for i in range(c.n(250, 4000))])
    tracecheck.validate(c, 'IndexTrace', 'random histories', trs, corrupt, 'index')
    n = c.n(3, 4)
    parts = runner.pmap(exhaustive, [(k % 3, 1, n - 2 + (k % 2), n, k, 16) for k in range(16)])
    tracecheck.validate(c, 'IndexTrace', 'all operations in all small states', [t for p in parts for t in p], corrupt, 'index',
                        chunk=30000)
