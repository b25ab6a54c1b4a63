"""C17: transformations against spec/Transform.tla."""
import copy
import gc
import math
import pickle
import random

import numpy as np

from harness import runner, tracecheck
from paramz import Param, Parameterized
from paramz import transformations as T

EPS = np.finfo(float).eps


class Own(T.Transformation):
    def f(self, x):
        return x

    def finv(self, f):
        return f

    def gradfactor(self, f, df):
        return df

    def initialize(self, f):
        return f

    def __str__(self):
        return 'own'


class SubLogexp(T.Logexp):
    pass


class SubLogistic(T.Logistic):
    pass


CLASSES = {'Own': Own, 'SubLogexp': SubLogexp, 'SubLogistic': SubLogistic}
for _k in ('Logexp', 'Exponent', 'NegativeLogexp', 'NegativeExponent', 'Square', 'Logistic'):
    CLASSES[_k] = getattr(T, _k)
BOUNDED = ('Logistic', 'SubLogistic')
NOKEY = {'c': '', 'l': 0, 'u': 0}


def unit(err, tol):
    if not (tol < 1e300) or err != err or not (err < 1e300):
        return 10 ** 6
    return int(min(10 ** 6, math.ceil(err / tol))) if err > 0 else 0


def sign(a, b):
    return 0 if a == b else 1 if a > b else -1


class Player(object):
    def __init__(self, seed, n):
        self.r = random.Random(seed)
        self.seed, self.n = seed, n
        self.vars = [None] * n
        self.evs = []
        self.exc = []

    def make(self, key):
        c = CLASSES[key['c']]
        if key['c'] not in BOUNDED:
            return c()
        l, u = key['l'] / 4., key['u'] / 4.
        k = self.r.random()
        if k < .2 and l == int(l) and u == int(u):
            return c(int(l), int(u))
        if k < .4:
            return c(np.float64(l), upper=u)
        if k < .6:
            return c(upper=u, lower=l)
        return c(l, u)

    def through(self, t):
        """constrain parameters by it and take the constraint of them"""
        p = Param('p', np.linspace(.1, .9, 3) if str(t)[:1] != '-' else -np.linspace(.1, .9, 3))
        m = Parameterized('m')
        m.link_parameter(p)
        (p if self.r.random() < .5 else m if self.r.random() < .5 else p[1:]).constrain(t, warning=False)
        k = self.r.random()
        if k < .3:
            m = m.copy()
        elif k < .6:
            m = pickle.loads(pickle.dumps(m, self.r.choice([2, 4, 5])))
        elif k < .7:
            m = copy.deepcopy(m)
        ts = list(m.constraints.properties())
        if len(ts) != 1:
            raise AssertionError('%d constraints instead of one' % len(ts))
        if self.r.random() < .5:
            m.constrain(t, warning=False)
            ts2 = list(m.constraints.properties())
            if len(ts2) != 1 or ts2[0] is not ts[0]:
                raise AssertionError('constraining again by the same transformation made another constraint')
            m.unconstrain(t)
            if list(m.constraints.properties()):
                raise AssertionError('the constraint was not released')
        return ts[0]

    def effect(self, op, ev):
        t = op['t']
        if t == 'make':
            self.vars[op['v'] - 1] = self.make(op['key'])
        elif t == 'drop':
            self.vars[op['v'] - 1] = None
            if self.r.random() < .1:
                gc.collect()
        elif t == 'values':
            self.values(op, ev)
        else:
            w = self.vars[op['w'] - 1]
            if w is None:
                return
            if t == 'copy':
                x = copy.copy(w)
            elif t == 'alias':
                x = w
            elif t == 'deepcopy':
                x = copy.deepcopy([w])[0]
            elif t == 'pickle':
                x = pickle.loads(pickle.dumps(w, self.r.randint(0, 5)))
            elif t == 'param':
                x = self.through(w)
            elif t == 'reload':
                s = pickle.dumps({'a': [w], 'b': w}, self.r.randint(0, 5))
                self.vars = [None if y is w else y for y in self.vars]
                w = None
                gc.collect()
                d = pickle.loads(s)
                x = d['b']
                if d['a'][0] is not x:
                    raise AssertionError('loaded twice')
            self.vars[op['v'] - 1] = x

    def key(self, x):
        if x is None:
            return NOKEY
        c = [k for k, v in CLASSES.items() if v is type(x)]
        if not c:
            return {'c': type(x).__name__, 'l': 0, 'u': 0}
        if c[0] in BOUNDED:
            ok = x.lower * 4 == int(x.lower * 4) and x.upper * 4 == int(x.upper * 4)
            return {'c': c[0], 'l': int(x.lower * 4), 'u': int(x.upper * 4)} if ok else {'c': 'inexact', 'l': 0, 'u': 0}
        return {'c': c[0], 'l': 0, 'u': 0}

    # -- values ----------------------------------------------------------------------
    def values(self, op, ev):
        c = op['key']['c']
        lo, up = op['bounds'] if c in BOUNDED else (0., 0.)
        t = CLASSES[c](lo, up) if c in BOUNDED else CLASSES[c]()
        r = random.Random(op['seed'])
        side = 'neg' if c.startswith('Neg') else 'bounded' if c in BOUNDED else 'pos'
        scale = 1.
        xs = set()
        for _ in range(op['n']):
            k = r.random()
            x = r.uniform(-3, 3) if k < .3 else r.uniform(-15, 15) if k < .6 else r.uniform(-40, 40) if k < .85 else r.uniform(-760, 760)
            xs.add(int(x * 1000))
        if r.random() < .3:
            xs |= {0, 35999, 36000, 36001, -36000, 1, -1}
        xs = np.array(sorted(xs)) / 1000.
        with np.errstate(all='ignore'):
            hold = xs.copy()
            f = np.asarray(t.f(xs), dtype=float)
            ok = np.array_equal(hold, xs) and f.shape == xs.shape
            hf = f.copy()
            inv = np.asarray(t.finv(f), dtype=float)
            ok = ok and np.array_equal(hf, f) and inv.shape == f.shape
            bk = np.asarray(t.f(inv), dtype=float)
            df = np.array([r.choice([-1, 1]) * 10 ** r.uniform(-3, 3) for _ in xs])
            hd = df.copy()
            g = np.asarray(t.gradfactor(f, df), dtype=float)
            ok = ok and np.array_equal(hf, f) and np.array_equal(hd, df)
            h = 1e-3
            # slope by finite differences of the map itself
            d1 = (np.asarray(t.f(xs + h), dtype=float) - np.asarray(t.f(xs - h), dtype=float)) / (2 * h)
            d2 = (np.asarray(t.f(xs + 2 * h), dtype=float) - np.asarray(t.f(xs - 2 * h), dtype=float)) / (4 * h)
            s = (4 * d1 - d2) / 3
            big = max(abs(lo), abs(up)) if side == 'bounded' else 0.
            F = np.maximum(np.abs(f), big)
            jac = None
            if type(t).log_jacobian is not T.Transformation.log_jacobian:
                jac = np.asarray(t.log_jacobian(f), dtype=float)
                jg = np.asarray(t.log_jacobian_grad(f), dtype=float)
                e = 1e-4
                jn = (np.asarray(t.log_jacobian(f * (1 + e)), dtype=float) - np.asarray(t.log_jacobian(f * (1 - e)), dtype=float)) / (2 * e * f)
            points = []
            init = np.asarray(t.initialize(f), dtype=float)
            ok = ok and np.array_equal(hf, f)
            for i, x in enumerate(xs):
                p = {'x': int(round(x * 1000)), 'inv': 0, 'back': 0, 'slope': 0, 'jac': 0, 'kept': int(init[i] == f[i])}
                if side == 'pos':
                    p['lo'], p['hi'] = sign(f[i], 0.), -1 if np.isfinite(f[i]) else 1
                elif side == 'neg':
                    p['lo'], p['hi'] = 1 if np.isfinite(f[i]) else -1, sign(f[i], 0.)
                else:
                    p['lo'], p['hi'] = sign(f[i], lo), sign(f[i], up)
                if not np.isfinite(f[i]):
                    p['lo'] = -1
                sl = abs(s[i])
                tol = 1e-7 + 50 * EPS * F[i] / (h * sl) if sl > 0 else 1.
                if c == 'Square' and x < 2 * h:
                    tol = 1.
                if tol < .1:
                    p['slope'] = unit(abs(g[i] / (s[i] * df[i]) - 1), tol)
                    p['inv'] = unit(abs(inv[i] - x), 64 * EPS * (abs(x) + F[i] / sl + 1))
                    p['back'] = unit(abs(bk[i] - f[i]), 64 * EPS * (F[i] + (abs(x) + 1) * sl + F[i]))
                    if jac is not None and sl > 1e-200:
                        p['jac'] = unit(abs(jac[i] - math.log(sl)), 2 * tol + 1e-12 * abs(jac[i]))
                        p['jac'] = max(p['jac'], unit(abs(jg[i] - jn[i]), 1e-5 * abs(jg[i]) + 1e-9))
                points.append(p)
            ev['points'] = points
            ev['cmp'] = [sign(f[i + 1], f[i]) for i in range(len(xs) - 1)]
            ev['untouched'] = int(ok)
            xe = np.array([-1e300 if c != 'Square' else -1e5, -1e5, -1e3, 1e3, 1e5])
            if c in BOUNDED or c in ('Exponent',):
                xe = np.append(xe, 1e300)
            if side == 'neg':
                xe = np.array([-1e5, -1e3, 1e3, 1e5])
            fe = np.asarray(t.f(xe), dtype=float)
            ev['ends'] = int(bool(np.all(np.isfinite(fe)) and all(self.inside(side, v, lo, up) for v in fe)))
            vs = []
            for _ in range(12):
                k = r.random()
                if side == 'bounded' and k < .5:
                    vs.append(r.choice([lo, up, lo + (up - lo) * r.random(), lo - r.random(), up + r.random()]))
                elif k < .7:
                    vs.append(r.choice([-1, 1]) * 10 ** r.uniform(-12, 12))
                elif k < .9:
                    # the whole range of numbers
                    vs.append(r.choice([-1, 1]) * r.choice([5e-324, 1e-310, 10 ** r.uniform(-307, 308), 10 ** r.uniform(-307, 308), np.inf]))
                else:
                    vs.append(0.)
            va = np.array(vs)
            hv = va.copy()
            got = np.asarray(t.initialize(va), dtype=float)
            if not np.array_equal(hv, va):
                ev['untouched'] = 0
            ev['inits'] = [{'was': int(self.inside(side, v, lo, up)), 'dom': int(bool(np.isfinite(w) or np.isinf(v)) and self.inside(side, w, lo, up)), 'kept': int(v == w)}
                           for v, w in zip(vs, got)]

    @staticmethod
    def inside(side, v, lo, up):
        return v >= 0 if side == 'pos' else v <= 0 if side == 'neg' else lo <= v <= up

    def step(self, op):
        ev = {'op': op, 'out': 'ok', 'err': '', 'ret': [], 'points': [], 'cmp': [], 'untouched': 1, 'ends': 1, 'inits': []}
        try:
            self.effect(op, ev)
        except AssertionError as e:
            if str(e):
                ev['err'] = str(e)
            ev['out'] = 'refused'
            if self.r.random() < .5:
                self.exc.append(e)
        except Exception as e:
            ev['out'] = type(e).__name__
        ev['same'] = [[int(a is b and a is not None) for b in self.vars] for a in self.vars]
        ev['keys'] = [self.key(x) for x in self.vars]
        self.evs.append(ev)

    def trace(self):
        return {'seed': self.seed, 'n': self.n, 'evs': self.evs}


def play_many(seed, n, scripts):
    out = []
    for k, ops in enumerate(scripts):
        p = Player(seed + k, n)
        for op in ops:
            p.step(op)
        out.append(p.trace())
    return out


def random_trace(seed, steps):
    r = random.Random(seed)
    p = Player(seed, 4)
    names = sorted(CLASSES)
    for _ in range(steps):
        k = r.random()
        c = r.choice(names + ['Logistic'] * 5 + ['SubLogistic'] * 2)
        key = {'c': c, 'l': 0, 'u': 0}
        if c in BOUNDED:
            key['l'], key['u'] = r.choice([(0, 4), (-4, 4), (1, 3), (0, 4), (4, 0), (2, 2), (-6, -1), (1, 2)])
        if k < .4:
            p.step({'t': 'make', 'v': r.randint(1, 4), 'key': key})
        elif k < .6:
            p.step({'t': 'drop', 'v': r.randint(1, 4)})
        else:
            p.step({'t': r.choice(['copy', 'deepcopy', 'pickle', 'param', 'alias', 'reload']), 'v': r.randint(1, 4), 'w': r.randint(1, 4)})
    return p.trace()


def value_trace(seed, steps):
    r = random.Random(seed)
    p = Player(seed, 1)
    names = [c for c in sorted(CLASSES) if c != 'Own']
    for _ in range(steps):
        c = r.choice(names + ['Logistic'] * 4)
        k = r.random()
        if k < .3:
            lo = float(r.randint(-5, 5))
            up = lo + r.randint(1, 9)
        elif k < .7:
            lo = round(r.uniform(-3, 3), 2)
            up = round(lo + r.uniform(.01, 3), 2)
            if up <= lo:
                up = lo + 1
        else:
            d = 10 ** r.uniform(-14, 12)
            lo = d * r.uniform(-2, 2)
            up = lo + d
        p.step({'t': 'values', 'key': {'c': c, 'l': 0, 'u': 0}, 'bounds': [lo, up], 'seed': r.randint(0, 10 ** 9), 'n': 25})
    return p.trace()


def corrupt_pool(tr, rnd):
    t = copy.deepcopy(tr)
    for k in range(len(t['evs']) - 1, -1, -1):
        e = t['evs'][k]
        n = len(e['same'])
        if sum(map(sum, e['same'])) > 0 and n > 1:
            i, j = rnd.sample(range(n), 2)
            if e['same'][i][i] or e['same'][j][j]:
                e['same'][i][j] = 1 - e['same'][i][j]
                t['evs'] = t['evs'][:k + 1]
                return t
    return None


def corrupt_values(tr, rnd):
    t = copy.deepcopy(tr)
    e = t['evs'][-1]
    for p in e['points']:
        if 100 < p['x'] < 5000:
            p[rnd.choice(['inv', 'back', 'slope', 'jac'])] = 3
            return t
    return None


def check(c):
    sc = tracecheck.scripts(c, 'TransformMC', 'every operation on up to %d instances after every 3 others' % c.n(2, 3),
                            cfg='TransformMC.cfg' if c.quick else 'TransformMC3.cfg')
    n = c.n(2, 3)
    trs = [t for q in runner.pmap(play_many, [(k * 100000, n, sc[k::16]) for k in range(16)]) for t in q]
    tracecheck.validate(c, 'TransformTrace', 'every transition of the specification', trs, corrupt_pool, 'transform', chunk=20000)
    trs = runner.pmap(random_trace, [(c.seed * 7919 + i, c.n(40, 80)) for i in range(c.n(160, 3000))])
    tracecheck.validate(c, 'TransformTrace', 'random histories of instances', trs, corrupt_pool, 'transform')
    trs = runner.pmap(value_trace, [(c.seed * 104729 + i, c.n(20, 40)) for i in range(c.n(300, 6000))])
    tracecheck.validate(c, 'TransformTrace', 'maps, inverses, slopes and initial values', trs, corrupt_values, 'transform', chunk=c.n(400, 1000))
