"""C07: observers against spec/Observers.tla."""
import copy
import gc
import random

import numpy as np

from harness import common, runner, tracecheck  # noqa
from paramz.core.observable import Observable
from paramz.core.observable_array import ObsAr
from paramz import Param, Parameterized

NOMIN = -1000000
LOW, HIGH = -999999, 999999       # stand for infinite priorities


def prio(p):
    return -np.inf if p == LOW else np.inf if p == HIGH else p


class Plain(Observable):
    pass


class Obj(object):
    pass


class Eq(object):
    """equal to everything of its kind: has to be told apart by identity"""
    def __eq__(self, other):
        return isinstance(other, Eq)

    def __hash__(self):
        return 1


class Helper(object):
    def __init__(self, player, c):
        self.player, self.c = player, c

    def call(self, subject, which=None):
        self.player.called(self.c, subject, which)


class Player(object):
    def __init__(self, kinds, observers, callbacks, subjects=1):
        # kinds: the kinds of subjects, observers, callbacks
        r = random.Random(kinds)
        self.kinds = kinds
        self.nobs, self.ncb, self.nsub = observers, callbacks, subjects
        self.log = []
        self.scripts = {}
        self.evs = []
        self.subs = {}
        for s in range(1, subjects + 1):
            k = r.choice(['plain', 'obsar', 'param', 'node', 'view'])
            if k == 'plain':
                o = Plain()
            elif k == 'obsar':
                o = ObsAr(np.arange(3.))
            elif k == 'param':
                o = Param('p%d' % s, np.arange(3.))
            elif k == 'node':
                o = Parameterized('n%d' % s)
            else:
                o = ObsAr(np.arange(4.))[:2]
                o.observers = type(o.observers)() if o.observers is not None else ObsAr(np.arange(1.)).observers
            self.subs[s] = o
        self.obs = {}
        for o in range(1, observers + 1):
            k = r.choice(['obj', 'obj', 'arr', 'eq'])
            self.obs[o] = Obj() if k == 'obj' else Eq() if k == 'eq' else ObsAr(np.arange(2.))
        self.cbs = {}
        for c in range(1, callbacks + 1):
            if r.random() < .5:
                self.cbs[c] = self.closure(c)
            else:
                self.cbs[c] = Helper(self, c)

    def closure(self, c):
        def f(subject, which=None):
            self.called(c, subject, which)
        return f

    def cb(self, c):
        f = self.cbs[c]
        return f.call if isinstance(f, Helper) else f     # a bound method is a new object each time

    def sid(self, s):
        for k, v in self.subs.items():
            if v is s:
                return k
        return 0

    def called(self, c, subject, which):
        self.log.append({'e': 'call', 'c': c, 's': self.sid(subject), 'w': self.sid(which)})
        ops = self.scripts.pop(c, [])
        for op in ops:
            if op['t'] == 'raise':
                self.log.append({'e': 'raise'})
                raise KeyError('asked to')
            self.log.append({'e': 'op', 'op': op})
            self.effect(op)
            self.log.append({'e': 'end'})
        self.log.append({'e': 'ret'})

    def effect(self, op):
        t = op['t']
        if t == 'kill':
            self.obs[op['o']] = None
            return
        if t == 'script':
            self.scripts[op['c']] = op['ops']
            return
        s = self.subs[op['s']]
        if t == 'add':
            s.add_observer(self.obs[op['o']], self.cb(op['c']), prio(op['p'])) if op['p'] or op['c'] % 2 else \
                s.add_observer(self.obs[op['o']], self.cb(op['c']))
        elif t == 'remove':
            s.remove_observer(self.obs[op['o']])
        elif t == 'removecb':
            s.remove_observer(self.obs[op['o']], self.cb(op['c']))
        elif t == 'prio':
            s.change_priority(self.obs[op['o']], self.cb(op['c']), prio(op['p']))
        elif t == 'updates':
            s.set_updates(bool(op['on']))
        elif t == 'notify':
            a = []
            if op['w'] or op['min'] != NOMIN:
                a.append(self.subs[op['w']] if op['w'] else None)
            if op['min'] != NOMIN:
                a.append(prio(op['min']))
            s.notify_observers(*a)

    def step(self, op):
        self.log = []
        ev = {'op': op, 'out': 'ok', 'err': '', 'ret': []}
        try:
            self.effect(op)
        except Exception as e:
            ev['out'] = type(e).__name__
        ev['log'] = self.log
        self.evs.append(ev)

    def trace(self):
        return {'subjects': self.nsub, 'observers': self.nobs, 'callbacks': self.ncb, 'kinds': self.kinds, 'evs': self.evs}


def play_many(kinds, scripts):
    out = []
    for i, ops in enumerate(scripts):
        p = Player(kinds + i % 23, 2, 2)
        for op in ops:
            p.step(op)
        out.append(p.trace())
    return out


def random_trace(seed, steps):
    r = random.Random(seed)
    ns, no, nc = r.randint(1, 3), r.randint(2, 4), r.randint(2, 5)
    p = Player(seed, no, nc, ns)
    busy = set()

    def op(depth, stack):
        k = r.random()
        s = r.randint(1, ns)
        alive = [o for o in p.obs if p.obs[o] is not None and o not in planned]
        if not alive:
            return {'t': 'notify', 's': s, 'w': 0, 'min': NOMIN}
        o, c = r.choice(alive), r.randint(1, nc)
        pr = r.choice([-3, -1, 0, 0, 0, 1, 1, 2, 7, LOW, LOW, HIGH, -100])
        if k < .35:
            return {'t': 'add', 's': s, 'o': o, 'c': c, 'p': pr}
        if k < .42:
            return {'t': 'remove', 's': s, 'o': o}
        if k < .5:
            return {'t': 'removecb', 's': s, 'o': o, 'c': c}
        if k < .57:
            return {'t': 'prio', 's': s, 'o': o, 'c': c, 'p': pr}
        if k < .61 and not depth:
            return {'t': 'updates', 's': s, 'on': 1 if r.random() < .6 else 0}
        if k < .66 and not depth and len(alive) > 1:
            return {'t': 'kill', 'o': o}
        if k < .75 and not depth:
            ops = []
            for _ in range(r.randint(1, 2)):
                x = op(depth + 1, stack)
                ops.append(x)
            if r.random() < .15:
                ops.append({'t': 'raise'})
            return {'t': 'script', 'c': c, 'ops': ops}
        return {'t': 'notify', 's': s, 'w': r.choice([0, 0, 0, r.randint(1, ns)]), 'min': r.choice([NOMIN, NOMIN, NOMIN, -3, 0, 1, 2, LOW, -100, HIGH])}
    planned = set()
    for _ in range(steps):
        x = op(0, [])
        if x['t'] == 'kill':
            # an observer named in a waiting script stays
            if any(y.get('o') == x['o'] for ops in p.scripts.values() for y in ops):
                continue
        p.step(x)
    return p.trace()


def corrupt(tr, rnd):
    t = copy.deepcopy(tr)
    for k in range(len(t['evs']) - 1, -1, -1):
        e = t['evs'][k]
        if e['op']['t'] == 'notify' and e['log'] and all(x['e'] in ('call', 'ret') for x in e['log']):
            if rnd.random() < .5:
                del e['log'][-2:]
            else:
                e['log'] += copy.deepcopy(e['log'][-2:])
            t['evs'] = t['evs'][:k + 1]
            return t
    return None


def check(c):
    sc = tracecheck.scripts(c, 'ObserversMC', 'all registrations of up to %d callbacks, every operation' % c.n(2, 3),
                            cfg='ObserversMC.cfg' if c.quick else 'ObserversMC3.cfg')
    rnd = random.Random(c.seed)
    if len(sc) > 60000:
        sc = rnd.sample(sc, 60000)
    trs = [t for p in runner.pmap(play_many, [(k, sc[k::16]) for k in range(16)]) for t in p]
    tracecheck.validate(c, 'ObserversTrace', 'every transition of the specification', trs, corrupt, 'observers', chunk=20000)
    trs = runner.pmap(random_trace, [(c.seed * 7919 + i, c.n(60, 100)) for i in range(c.n(500, 8000))])
    tracecheck.validate(c, 'ObserversTrace', 'random histories with callbacks that act', trs, corrupt, 'observers')
