"""Walks through the real code along the transitions of spec/TreeMC.tla."""
import copy
import json
import random

from harness import runner, tlc, treecheck
from harness.tlc import MachineryError
from harness.world import World


class Graph(object):
    def __init__(self, c, mode, big):
        cfg = 'TreeMC_%s%d.cfg' % (mode, big)
        out, s = tlc.run('TreeMC', cfg=cfg, timeout=400 if c.quick else 3000)
        if s['code'] != 0 or not s['finished']:
            raise MachineryError('TLC on %s: %s' % (cfg, out[-3000:]))
        self.ops, self.out, edges = {}, {}, 0
        for line in out.splitlines():
            if line.startswith('<<"T"'):
                a, b, k, d, e = (int(x) for x in line[6:-2].split(','))
                self.out.setdefault((a, b), {})[k] = (d, e)
                edges += 1
            elif line.startswith('"OP '):
                k, op = json.loads(json.loads(line)[3:])
                self.ops[k] = op
            elif line.startswith('"POOL '):
                self.pool = json.loads(json.loads(line)[5:])
            elif line.startswith('"INIT '):
                self.init = tuple(json.loads(json.loads(line)[5:]))
        self.edges = edges
        c.cov['states'] += s['distinct']
        c.cov['transitions'] += s['generated']
        c.part('model ' + cfg, what='forest, constraint windows refine the labels, domains; transitions for the tours',
               states=s['distinct'], transitions=s['generated'], depth=s['depth'])
        if self.init not in self.out or edges < 10:
            raise MachineryError('no transitions of ' + cfg)
        self.tree = {self.init: None}         # breadth first tree
        todo = [self.init]
        for x in todo:
            for k, y in self.out.get(x, {}).items():
                if y not in self.tree:
                    self.tree[y] = (x, k)
                    todo.append(y)

    def prefix(self, x):
        p = []
        while self.tree[x] is not None:
            x, k = self.tree[x]
            p.append(k)
        return p[::-1]

    def tours(self, seed, steps, length):
        """walks which cover transitions not covered before, until `steps` are covered"""
        r = random.Random(seed)
        left = dict((x, r.sample(sorted(o), len(o))) for x, o in self.out.items())
        starts = sorted(left)
        r.shuffle(starts)
        covered, out = 0, []
        while starts and covered < steps:
            x = starts[-1]
            if not left[x]:
                starts.pop()
                continue
            walk = self.prefix(x)
            pre, n = len(walk), 0
            while n < length:
                if left.get(x):
                    k = left[x].pop()
                    covered += 1
                else:
                    ks = [k for k, y in self.out.get(x, {}).items() if left.get(y)]
                    if not ks:
                        break
                    k = r.choice(ks)
                walk.append(k)
                x = self.out[x][k]
                n += 1
            out.append((walk, pre))
        return out, covered


def play(pool, ops, pre, fields, seed):
    r = random.Random(seed)
    often = r.choice([1, 1, .3])            # looking at arrays creates or connects them
    try:
        w = World(pool, fields)
        for i, op in enumerate(ops):
            if not w.step(copy.deepcopy(op), observe=i == len(ops) - 1 or (i >= pre and r.random() < often)):
                break
        return w.trace()
    except Exception as e:
        return {'pool': [], 'evs': [{'op': {'t': 'noop'}, 'out': 'ok', 'ret': [], 'pc': [], 'obs': {},
                                     'err': 'creating objects: %s: %s' % (type(e).__name__, str(e)[:300])}]}


def part(c, mode, clauses, fields, quick=4000, thorough=None, length=40):
    g = Graph(c, mode, 0 if c.quick else 1)
    walks, covered = g.tours(c.seed, quick if c.quick else (thorough or 300000), length)
    trs = runner.pmap(play, [(g.pool, [g.ops[k] for k in w], pre, fields, c.seed * 1000 + i) for i, (w, pre) in enumerate(walks)],
                      stop=lambda out: sum(1 for t in out[-64:] if t['evs'][-1]['err']) >= 4)
    c.cov.setdefault('tours', {})[mode] = {'transitions_of_the_model': g.edges, 'covered_in_the_code': covered}
    return treecheck.validate(c, 'tours ' + mode, trs, clauses, fields)
