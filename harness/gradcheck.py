"""C15: gradient checks against spec/Checkgrad.tla."""
import copy
import random

import numpy as np

from harness import common, runner, tracecheck  # noqa
from harness.optcheck import quiet, ranks
from paramz import Model, Param, Parameterized


def slope(k, v):
    if k == 'pos':
        return 1 - np.exp(-v)
    if k == 'neg':
        return 1 - np.exp(v)
    if k == 'bound':
        return (v + 3.) * (5. - v) / 8.
    return 1.


class M(Model):
    def __init__(self, sz, node, r):
        super(M, self).__init__('m')
        self.leaves = []
        g = Parameterized('g') if node else None
        for i, n in enumerate(sz):
            shape = r.choice([(n,), (n,), (n, 1), (1, n)])
            p = Param('l%d' % (i + 1), np.ones(shape))
            self.leaves.append(p)
            if i + 1 in node:
                if i + 1 == node[0]:
                    self.link_parameter(g)
                g.link_parameter(p)
            else:
                self.link_parameter(p)
        self.factor = np.ones(sum(sz))
        self.weight = np.ones(sum(sz))
        self.seen = None

    def parameters_changed(self):
        v = np.array(self.param_array, float)
        self.seen = v
        self.obj = float((self.weight * (v + .1 * v ** 2)).sum())
        self.gradient = self.weight * (1 + .2 * v) * self.factor

    def objective_function(self):
        return self.obj


class Player(object):
    def __init__(self, d, seed):
        self.d, self.r = d, random.Random(seed)
        self.m = M(d['sz'], d['node'], self.r)
        self.n = sum(d['sz'])
        self.evs = []
        self.kinds = [''] * self.n
        self.free(True)

    def element(self, i):
        for j, n in enumerate(self.d['sz']):
            if i < n:
                leaf = self.m.leaves[j]
                ix = np.unravel_index(i, leaf.shape)
                return leaf[tuple(slice(x, x + 1) for x in ix)]
            i -= n

    def free(self, first=False):
        """new values and constraints"""
        r = self.r
        self.m.unconstrain()
        for i in range(self.n):
            self.kinds[i] = k = r.choice(['', '', 'pos', 'neg', 'bound'])
            v = round(r.uniform(.3, 2.5), 2) * (-1 if k == 'neg' or k in ('', 'bound') and r.random() < .3 else 1)
            self.element(i)[:] = v
            if k:
                e = self.element(i)
                e.constrain_positive() if k == 'pos' else e.constrain_negative() if k == 'neg' else e.constrain_bounded(-3, 5)

    def observe(self):
        m = self.m
        cons = [[] for _ in range(self.n)]
        for c, ix in m.constraints.items():
            for i in ix:
                cons[int(i)].append(str(c))
        return {'vals': [float(x) for x in m.param_array], 'seen': [float(x) for x in m.seen], 'cons': [sorted(x) for x in cons],
                'upd': int(bool(m.update_model()))}

    def handle(self, h):
        m, r = self.m, self.r
        t = h['t']
        if t == 'model':
            return r.choice([m, m['.*']]) if len(self.d['sz']) > 1 else m
        if t == 'node':
            return m.g
        if t == 'leaf':
            return r.choice([m.leaves[h['i'] - 1], m['.*l%d$' % h['i']]])
        if t == 'part':
            leaf = m.leaves[h['i'] - 1]
            at = list(h['at'])
            r.shuffle(at)
            ax = [k for k, s in enumerate(leaf.shape) if s > 1]
            ax = ax[0] if ax else 0
            if r.random() < .3 and len(at) == 1:
                ix = slice(at[0], at[0] + 1)
            elif r.random() < .4:
                ix = np.array([j in at for j in range(leaf.size)])
            else:
                ix = at
            return leaf[(slice(None),) * ax + (ix,)]
        return m['.*l[%s]' % ''.join(map(str, h['is']))]

    def check(self, op):
        m, r = self.m, self.r
        ev = {'op': op, 'out': 'ok', 'ret': [], 'err': ''}
        try:
            v = np.array(m.param_array, float)
            pw = list(range(self.n))
            r.shuffle(pw)
            s = np.array([slope(k, x) for k, x in zip(self.kinds, v)])
            m.weight = np.array([3. ** p for p in pw]) / (s * (1 + .2 * v)) * np.array([r.choice([-1, 1]) for _ in pw])
            m.factor = np.ones(self.n)
            if op['wrong']:
                m.factor[np.array(op['wrong']) - 1] = {'zero': 0., 'double': 2., 'sign': -1., 'nan': np.nan}[op['how']]
            for i in op['fixed']:
                self.element(i - 1).fix()
            m.update_model(True)
            if op['quiet']:
                m.update_model(False)
                m.update_model(True)
            m.trigger_update()
            ev['before'] = self.observe()
            h = self.handle(op['h'])
            ev['verdict'] = int(bool(h.checkgrad(verbose=bool(op['verbose']))))
            ev['after'] = self.observe()
            ks = ('vals', 'seen')
            rk = iter(ranks([ev[w][k] for w in ('before', 'after') for k in ks]))
            for w in ('before', 'after'):
                for k in ks:
                    ev[w][k] = next(rk)
            for i in op['fixed']:
                self.element(i - 1).unfix()
        except Exception as e:
            ev['err'] = '%s: %s' % (type(e).__name__, e)
        self.evs.append(ev)

    def trace(self):
        return dict(self.d, evs=self.evs)


@quiet
def play_scripts(seed, scripts):
    out = []
    r = random.Random(seed)
    for k, s in enumerate(scripts):
        p = Player({'sz': s['sz'], 'node': s['node']}, seed * 1000 + k)
        for vb in (0, 1):
            p.check({'t': 'check', 'wrong': s['wrong'], 'fixed': s['fixed'], 'h': s['h'], 'verbose': vb, 'quiet': 0,
                     'how': r.choice(['double', 'zero', 'sign', 'nan'])})
            if p.evs[-1]['err']:
                break
        out.append(p.trace())
    return out


@quiet
def random_trace(seed, steps):
    r = random.Random(seed)
    sz = [r.randint(1, 2) for _ in range(r.randint(1, 3))]
    if sum(sz) > 4:
        sz = sz[:2]
    a = r.randint(1, len(sz))
    node = list(range(a, r.randint(a, len(sz)) + 1)) if r.random() < .7 else []
    p = Player({'sz': sz, 'node': node}, seed)
    n = sum(sz)
    for _ in range(steps):
        if r.random() < .5:
            p.free()
        hs = [{'t': 'model'}, {'t': 'leaf', 'i': r.randint(1, len(sz))}]
        if node:
            hs.append({'t': 'node'})
        if len(sz) > 1:
            hs.append({'t': 'regex', 'is': sorted(r.sample(range(1, len(sz) + 1), r.randint(2, len(sz))))})
        i = r.randint(1, len(sz))
        if sz[i - 1] > 1:
            hs.append({'t': 'part', 'i': i, 'at': sorted(r.sample(range(sz[i - 1]), r.randint(1, sz[i - 1] - 1)))})
        some = lambda q: sorted(x for x in range(1, n + 1) if r.random() < q)
        p.check({'t': 'check', 'wrong': some(r.choice([0, .2, .5, 1])), 'fixed': some(r.choice([0, .2, .5, 1])), 'h': r.choice(hs),
                 'verbose': r.randint(0, 1), 'quiet': r.randint(0, 1), 'how': r.choice(['double', 'zero', 'sign', 'nan'])})
        if p.evs[-1]['err']:
            break
    return p.trace()


def corrupt(tr, rnd):
    t = copy.deepcopy(tr)
    e = rnd.choice(t['evs'])
    k = rnd.randrange(3)
    if k == 0:
        e['verdict'] = 1 - e['verdict']
    elif k == 1:
        e['after']['vals'][0] += 7
    else:
        e['after']['cons'][0] = ['x']
    return t


def check(c):
    sc = tracecheck.scripts(c, 'CheckgradMC', 'every set of wrong entries, fixed values, every handle', cfg='CheckgradMC.cfg' if c.quick else 'CheckgradMC4.cfg')
    rnd = random.Random(c.seed)
    if c.quick and len(sc) > 9000:
        sc = rnd.sample(sc, 9000)
    trs = [t for p in runner.pmap(play_scripts, [(c.seed + k, sc[k::64]) for k in range(64)]) for t in p]
    tracecheck.validate(c, 'CheckgradTrace', 'every case of the specification, both modes', trs, corrupt, 'gradcheck', chunk=20000)
    trs = runner.pmap(random_trace, [(c.seed * 7919 + i, 10) for i in range(c.n(300, 6000))])
    tracecheck.validate(c, 'CheckgradTrace', 'random checks of one model after the other', trs, corrupt, 'gradcheck')
