"""C22: observable arrays against spec/ObsAr.tla."""
import copy
import operator
import pickle
import random

import numpy as np

from harness import runner, tracecheck
from harness.gen import Gen
from harness.world import sel_index
from paramz.core.observable_array import ObsAr

IOPS = {'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul, 'div': operator.itruediv, 'fdiv': operator.ifloordiv,
        'mod': operator.imod, 'pow': operator.ipow, 'lsh': operator.ilshift, 'rsh': operator.irshift, 'and': operator.iand,
        'or': operator.ior, 'xor': operator.ixor, 'mat': operator.imatmul}
BIN = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'div': operator.truediv, 'fdiv': operator.floordiv,
       'mod': operator.mod, 'pow': operator.pow, 'lsh': operator.lshift, 'rsh': operator.rshift, 'and': operator.and_,
       'or': operator.or_, 'xor': operator.xor, 'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt, 'le': operator.le,
       'gt': operator.gt, 'ge': operator.ge, 'max': np.maximum, 'min': np.minimum}
UFUNC = {'add': np.add, 'sub': np.subtract, 'mul': np.multiply, 'div': np.divide, 'fdiv': np.floor_divide, 'mod': np.mod,
         'pow': np.power, 'eq': np.equal, 'ne': np.not_equal, 'lt': np.less, 'le': np.less_equal, 'gt': np.greater,
         'ge': np.greater_equal, 'max': np.maximum, 'min': np.minimum, 'lsh': np.left_shift, 'rsh': np.right_shift,
         'and': np.bitwise_and, 'or': np.bitwise_or, 'xor': np.bitwise_xor}
UN = {'neg': operator.neg, 'pos': operator.pos, 'abs': abs, 'square': np.square, 'sign': np.sign, 'not': np.logical_not,
      'isfinite': np.isfinite}
BITS = ('lsh', 'rsh', 'and', 'or', 'xor')
BIG = 20000


class Sub(ObsAr):
    pass


class Watcher(object):
    def __init__(self, player, c):
        self.player, self.c = player, c

    def __call__(self, me, which=None):
        self.player.told(self.c, me, which)


class Player(object):
    def __init__(self, seed, kinds=0):
        self.seed = seed
        self.hs = []            # handles
        self.blocks = []        # one array per block of memory: a plain view of all of it
        self.blk = []           # block of each handle
        self.obs = {i: Watcher(self, i) for i in range(1, 5)}
        self.log = []
        self.evs = []
        self.shape = []

    def told(self, c, me, which):
        s = 0
        for i, h in enumerate(self.hs):
            if h is me:
                s = i + 1
        self.log.append({'c': c, 's': s if which is me else -1, 'm': [[int(x) for x in b.ravel()] for b in self.blocks]})

    def operand(self, v):
        if v['k'] == 's':
            return float(v['x']) if v['kind'] == 'f' else v['x']
        if v['k'] == 'h':
            h = self.hs[v['h'] - 1]
            return h if 'sel' not in v else h[sel_index(v['sel'], h.shape)]
        a = np.array(v['x'], dtype=float if v['kind'] == 'f' else int).reshape(v['shape'])
        return a.tolist() if v.get('list') else a

    def divisor(self, f, v):
        o = self.operand(v)
        return (1. / o if not isinstance(o, list) else (1. / np.array(o)).tolist()) if f == 'div' else o

    def new(self, a, block=None):
        self.hs.append(a)
        if block is None:
            self.blocks.append(a.view(np.ndarray))
            block = len(self.blocks)
        self.blk.append(block)

    def contents(self, h):
        a = np.asarray(h).view(np.ndarray)
        return {'shape': list(a.shape), 'x': [int(x) if x == int(x) else 10 ** 6 for x in a.ravel()]}

    def result(self, r):
        a = np.array(r)
        bad = not (np.issubdtype(a.dtype, np.number) or a.dtype == bool) or a.dtype.kind == 'c'
        return {'shape': list(a.shape), 'x': [10 ** 6] if bad else [int(x) if x == int(x) else 10 ** 6 for x in a.ravel()]}

    def effect(self, op, ev):
        t = op['t']
        if t == 'new':
            a = np.array(op['x'], dtype=float if op['kind'] == 'f' or op.get('how') == 'i' else int).reshape(op['shape'])
            how = op.get('how', 'a')
            if op['kind'] == 'i':
                a = ObsAr(a.astype(float)).astype(int)
            elif how == 'l':
                a = ObsAr(a.tolist())
            elif how == 'i':
                a = ObsAr(a.astype(int))
            elif how == 'o':
                a = ObsAr(np.asfortranarray(a))
            elif how == 'sub':
                a = Sub(a)
            else:
                a = ObsAr(a)
            self.new(a)
            return
        h = self.hs[op['h'] - 1]
        if t == 'view':
            self.new(h[sel_index(op['sel'], h.shape)], self.blk[op['h'] - 1])
        elif t == 'trans':
            self.new(h.T, self.blk[op['h'] - 1])
        elif t == 'reshape':
            self.new(h.reshape(op['shape']), self.blk[op['h'] - 1])
        elif t == 'same':
            ev['isobs'] = int(ObsAr(h) is h and ObsAr(input_array=h) is h)
        elif t == 'copy':
            how = op['how']
            r = h.copy() if how == 'copy' else copy.deepcopy(h) if how == 'deep' else pickle.loads(pickle.dumps(h, op.get('proto', 2)))
            ev['isobs'] = int(type(r) is type(h) and r.dtype == h.dtype)
            ev['nobs'] = len(list(r.observers))
            ev['res'] = self.contents(r)
            self.new(r)
        elif t == 'set':
            v = self.operand(op['v'])
            h[sel_index(op['sel'], h.shape)] = v
        elif t == 'raw':
            v = self.operand(op['v'])
            p = h.values
            if type(p) is not np.ndarray:
                raise AssertionError('values is no plain array')
            p[sel_index(op['sel'], h.shape)] = v
        elif t == 'setfail':
            if op['how'] == 'index':
                h[h.shape[0] + 3] = 1
            elif op['how'] == 'shape':
                h[...] = np.zeros(h.shape[-1] + 2)
            elif op['how'] == 'value':
                h[:] = 'no number'
            elif op['how'] == 'many':
                h[(0,) * (h.ndim + 1)] = 3
        elif t == 'iop':
            g = IOPS[op['f']](h, self.divisor(op['f'], op['v']))
            if not np.shares_memory(g, h) or g.shape != h.shape:
                # whether the name is bound to the same object afterwards is not specified: a plain array of this memory will do
                raise AssertionError('an in-place operation did not give back the array')
        elif t == 'siop':
            v = self.divisor(op['f'], op['v'])
            s = sel_index(op['sel'], h.shape)
            f = op['f']
            if f == 'add':
                h[s] += v
            elif f == 'sub':
                h[s] -= v
            elif f == 'mul':
                h[s] *= v
            elif f == 'fdiv':
                h[s] //= v
            elif f == 'mod':
                h[s] %= v
            elif f == 'div':
                h[s] /= v
            elif f == 'pow':
                h[s] **= v
        elif t == 'addobs':
            h.add_observer(self.obs[op['o']], self.obs[op['c']], op['p']) if op['p'] else h.add_observer(self.obs[op['o']], self.obs[op['c']])
        elif t == 'remobs':
            h.remove_observer(self.obs[op['o']])
        elif t == 'bin':
            v = self.divisor(op['f'], op['v'])
            f = (UFUNC if op['uf'] else BIN)[op['f']]
            self.expr(ev, f(v, h) if op['rev'] else f(h, v))
        elif t == 'un':
            self.expr(ev, UN[op['f']](h))
        elif t == 'red':
            kw = {} if not op['axis'] else {'axis': op['axis'] - 1}
            f = op['f']
            self.expr(ev, getattr(h, f)(**kw) if op['uf'] and f != 'ptp' else getattr(np, f)(h, **kw))
        elif t == 'mat':
            v = self.operand(op['v'])
            self.expr(ev, h @ v)
        elif t == 'get':
            ev['res'] = self.result(h[sel_index(op['sel'], h.shape)])

    def expr(self, ev, r):
        ev['res'] = self.result(r)
        ev['plain'] = int(type(r) is np.ndarray or not isinstance(r, np.ndarray))

    def step(self, op):
        self.log = []
        ev = {'op': op, 'out': 'ok', 'err': '', 'ret': [], 'res': {'shape': [], 'x': []}, 'plain': 1, 'isobs': 1, 'nobs': 0}
        try:
            with np.errstate(all='ignore'):
                self.effect(op, ev)
        except AssertionError as e:
            ev['err'] = str(e)
        except Exception as e:
            ev['out'] = [k.__name__ for k in type(e).__mro__ if k.__name__ in ('TypeError', 'ValueError', 'IndexError')] or [type(e).__name__]
            ev['out'] = ev['out'][0]
        ev['log'] = self.log
        self.log = []
        ev['reads'] = [self.contents(h) for h in self.hs]
        for h in self.hs:       # reading notifies nobody
            list(h.flat), repr(h), len(h), h.tolist(), h[0], h[...], h.any(), [x for x in h], h == 0, hash(id(h)), h.values, h.shape
        ev['silent'] = int(not self.log)
        self.log = []
        self.evs.append(ev)

    def trace(self):
        return {'seed': self.seed, 'evs': self.evs}


def play_many(scripts):
    out = []
    for ops in scripts:
        p = Player(0)
        for op in ops:
            p.step(op)
        out.append(p.trace())
    return out


def random_trace(seed, steps):
    r = random.Random(seed)
    p = Player(seed)
    g = Gen.__new__(Gen)
    g.r = r
    kinds = []

    def new():
        shape = r.choice([[1], [2], [3], [4], [2, 2], [2, 3], [3, 2], [1, 3], [2, 1, 2], [2, 2, 2]])
        n = int(np.prod(shape))
        kind = 'f' if r.random() < .75 else 'i'
        how = r.choice(['a', 'l', 'i', 'o', 'sub']) if kind == 'f' else 'a'
        kinds.append(kind)
        return {'t': 'new', 'kind': kind, 'how': how, 'shape': shape, 'x': [r.randint(-4, 9) for _ in range(n)]}

    def operand(h, f, other=True, expr=False):
        """a number, array or handle that can be an operand of f with h"""
        for _ in range(60):
            shape = list(h.shape)
            k = r.random()
            kind = r.choice('ffi')
            lo, hi = -5, 5
            if f == 'pow':
                lo, hi = 0, 3
            elif f in BITS:
                lo, hi = 0, 3 if f in ('lsh', 'rsh') else 9
                kind = r.choice('iiif')

            def val():
                if f == 'div':
                    return r.choice([1, -1, 2, 4])
                while True:
                    x = r.randint(lo, hi)
                    if x or f not in ('fdiv', 'mod'):
                        return x
            if f == 'div':
                kind = 'f'
            if k < .4:
                return {'k': 's', 'x': val(), 'kind': kind}
            if k < .7 or not other:
                s = shape[r.randint(0, len(shape)):] if r.random() < .4 else list(shape)
                s = [d if r.random() < .8 else 1 for d in s]
                if expr and r.random() < .3:
                    s = [r.randint(1, 2)] + s
                if r.random() < .06:
                    s = s + [r.choice([5, 7])]
                if not s:
                    continue
                v = {'k': 'a', 'x': [val() for _ in range(int(np.prod(s)))], 'shape': s, 'kind': kind}
                if r.random() < .2:
                    v['list'] = 1
                    if kind == 'f' and any(not isinstance(x, int) for x in v['x']):
                        del v['list']
                return v
            j = r.randint(1, len(p.hs))
            x = np.asarray(p.hs[j - 1]).ravel()
            if f == 'div':
                continue
            if f in ('fdiv', 'mod') and (x == 0).any():
                continue
            if f == 'pow' and ((x < 0) | (x > 3)).any():
                continue
            if f in BITS and (x < 0).any():
                continue
            if f in ('lsh', 'rsh') and (x > 3).any():
                continue
            return {'k': 'h', 'h': j}
        return {'k': 's', 'x': 1, 'kind': 'i'}

    def fine(f, h, v):
        """would the result stay small?"""
        a = np.array(h)
        if f in BITS and (a < 0).any():
            return False
        o = p.divisor(f, v)
        o = np.array(o)
        if f in BITS and o.dtype == int and (o < 0).any():
            return False
        try:
            with np.errstate(all='ignore'):
                x = {'mat': operator.matmul, 'max': np.maximum, 'min': np.minimum}.get(f, BIN.get(f))(a.astype(float) if f not in BITS else a, o)
            return np.abs(x).max() < BIG
        except Exception:
            return True     # fails

    def assigned(h, sel):
        """what to assign to a selection of h"""
        t = np.asarray(h)[sel_index(sel, h.shape)]
        k = r.random()
        if k < .4:
            return {'k': 's', 'x': r.randint(-6, 9), 'kind': 'i'}
        if k < .7:
            return {'k': 'a', 'x': [r.randint(-6, 9) for _ in range(t.size)], 'shape': list(np.shape(t)), 'kind': 'i',
                    'list': int(r.random() < .3 and t.size > 0)}
        for _ in range(30):
            j = r.randint(1, len(p.hs))
            s2 = g.sel(p.hs[j - 1].shape)
            if np.shares_memory(p.hs[j - 1], h) and (sel['full'] or any(a['t'] in 'im' for a in sel['at'])):
                continue        # numpy does not define it
            if np.shape(np.asarray(p.hs[j - 1])[sel_index(s2, p.hs[j - 1].shape)]) == np.shape(t):
                return {'k': 'h', 'h': j, 'sel': s2}
        return {'k': 's', 'x': 2, 'kind': 'i'}

    def basic(h):
        for _ in range(40):
            s = g.sel(h.shape)
            if s['full'] or any(a['t'] not in 'sne' for a in s['at']):
                continue
            x = np.asarray(h)[sel_index(s, h.shape)]
            if np.ndim(x) >= 1 and x.size >= 1:
                return s, list(x.shape)
        return None, None

    for k in range(steps):
        if not p.hs or (len(p.hs) < 6 and r.random() < .08):
            p.step(new())
            continue
        i = r.randint(1, len(p.hs))
        h = p.hs[i - 1]
        kind = 'i' if h.dtype.kind == 'i' else 'f'
        z = r.random()
        op = None
        if z < .08 and len(p.hs) < 9:
            s, shape = basic(h)
            if s:
                op = {'t': 'view', 'h': i, 'sel': s, 'shape': shape}
        elif z < .11 and len(p.hs) < 9:
            if h.ndim == 2 and r.random() < .6:
                op = {'t': 'trans', 'h': i}
            elif h.flags['C_CONTIGUOUS']:
                n = h.size
                op = {'t': 'reshape', 'h': i, 'shape': r.choice([[n], [1, n], [n, 1]] + ([[2, n // 2]] if n % 2 == 0 else []))}
        elif z < .15 and len(p.hs) < 9:
            # copies of integer arrays hold floats: not specified
            op = {'t': 'copy', 'h': i, 'how': r.choice(['copy', 'deep', 'pickle'] if kind == 'f' else ['pickle']), 'proto': r.choice([0, 2, 4, 5])}
        elif z < .17:
            op = {'t': 'same', 'h': i}
        elif z < .27:
            c = r.randint(1, 4)
            op = {'t': 'addobs', 'h': i, 'o': c, 'c': c, 'p': r.choice([0, 0, 1, -2, 5])}
        elif z < .30:
            op = {'t': 'remobs', 'h': i, 'o': r.randint(1, 4)}
        elif z < .33:
            op = {'t': 'setfail', 'h': i, 'how': r.choice(['index', 'shape', 'value', 'many'])}
        elif z < .45:
            s = g.sel(h.shape)
            op = {'t': 'set', 'h': i, 'sel': s, 'v': assigned(h, s)}
        elif z < .48:
            s = g.sel(h.shape)
            op = {'t': 'raw', 'h': i, 'sel': s, 'v': assigned(h, s)}
        elif z < .70:
            f = r.choice([x for x in IOPS if x != 'mat'] + ['add', 'sub', 'mul', 'mod', 'fdiv']) if kind == 'f' or r.random() < .5 else r.choice(BITS)
            if h.ndim == 2 and h.shape[0] == h.shape[1] and r.random() < .4:
                f = 'mat'
            if f == 'mat':
                n = h.shape[0]
                c = [j + 1 for j, x in enumerate(p.hs) if x.shape == (n, n) and (kind == 'f' or x.dtype.kind == 'i')]
                v = {'k': 'h', 'h': r.choice(c)} if r.random() < .6 else {'k': 'a', 'shape': [n, n], 'x': [r.randint(-2, 2) for _ in range(n * n)], 'kind': 'i'}
            else:
                v = operand(h, f)
            if f == 'pow' and kind == 'i' and v.get('kind') == 'f':
                continue        # i **= 2. may work
            if fine(f, h, v):
                op = {'t': 'iop', 'h': i, 'f': f, 'v': v}
        elif z < .78:
            f = r.choice(['add', 'sub', 'mul', 'fdiv', 'mod', 'pow', 'div'] if kind == 'f' else ['add', 'sub', 'mul', 'fdiv', 'mod', 'pow'])
            s = g.sel(h.shape)
            t = np.asarray(h)[sel_index(s, h.shape)]
            lo, hi = (0, 2) if f == 'pow' else (1, 5)
            pick = (lambda: r.choice([1, -1, 2])) if f == 'div' else (lambda: r.randint(lo, hi))
            ok = 'f' if f == 'div' else 'i'
            v = {'k': 's', 'x': pick(), 'kind': ok} if r.random() < .5 or t.size == 0 else {'k': 'a', 'x': [pick() for _ in range(t.size)], 'shape': list(np.shape(t)), 'kind': ok}
            x = np.asarray(h)[sel_index(s, h.shape)]
            if np.ndim(x) == 0 and v['k'] == 'a':
                v = {'k': 's', 'x': v['x'][0], 'kind': ok}
            part = 'number' if np.ndim(x) == 0 else 'view' if not s['full'] and all(a['t'] in 'sne' for a in s['at']) else 'copy'
            if part == 'number' and any(a['t'] == 'e' for a in s['at']):
                part = 'view'
            if not t.size or np.abs(x).max() < 100:
                op = {'t': 'siop', 'h': i, 'sel': s, 'f': f, 'v': v, 'part': part}
        elif z < .90:
            f = r.choice([x for x in BIN if x not in BITS]) if kind == 'f' or r.random() < .5 else r.choice(list(BIN))
            v = operand(h, f, expr=True)
            rev = int(r.random() < .35 and v['k'] != 'h' and f not in ('fdiv', 'mod', 'pow', 'div', 'lsh', 'rsh') and not v.get('list'))
            o = p.operand(v)
            try:
                np.broadcast_shapes(h.shape, np.shape(o))
            except ValueError:
                continue
            if f in BITS and not (kind == 'i' and np.array(o).dtype.kind == 'i'):
                continue
            if fine(f, h, v) and not (f in BITS and rev and (np.array(o) < 0).any()):
                op = {'t': 'bin', 'h': i, 'f': f, 'v': v, 'rev': rev, 'uf': int(f in UFUNC and r.random() < .4)}
        elif z < .92:
            op = {'t': 'un', 'h': i, 'f': r.choice(sorted(UN))}
            if op['f'] == 'square' and np.abs(np.asarray(h)).max() > 100:
                op['f'] = 'neg'
        elif z < .95:
            f = r.choice(['sum', 'prod', 'max', 'min', 'any', 'all', 'ptp'])
            axis = r.choice([0] + list(range(1, h.ndim + 1)))
            if f == 'prod' and np.prod(np.maximum(1., np.abs(np.asarray(h)))) > BIG:
                f = 'sum'
            op = {'t': 'red', 'h': i, 'f': f, 'axis': axis, 'uf': int(r.random() < .5)}
            if f == 'ptp':
                op['uf'] = 0
                # np.ptp calls the method of the array
        elif z < .97:
            c = [j + 1 for j, x in enumerate(p.hs) if h.ndim <= 2 and x.ndim <= 2 and x.shape[0] == h.shape[-1]]
            if c and h.ndim <= 2:
                j = r.choice(c)
                if np.abs(np.asarray(h)).max() * np.abs(np.asarray(p.hs[j - 1])).max() < 10000:
                    op = {'t': 'mat', 'h': i, 'v': {'k': 'h', 'h': j}}
        else:
            s = g.sel(h.shape)
            op = {'t': 'get', 'h': i, 'sel': s, 'shape': list(np.shape(np.asarray(h)[sel_index(s, h.shape)]))}
        if op is not None:
            p.step(op)
    return p.trace()


def corrupt(tr, rnd):
    t = copy.deepcopy(tr)
    for k in range(len(t['evs']) - 1, -1, -1):
        e = t['evs'][k]
        if e['op']['t'] in ('set', 'iop', 'siop') and e['log']:
            w = rnd.choice(['lost', 'twice', 'early', 'value'])
            if w == 'lost':
                del e['log'][-1]
            elif w == 'twice':
                e['log'] += copy.deepcopy(e['log'][-1:])
            elif w == 'early' and k and t['evs'][k - 1]['reads'] != e['reads'] and e['op']['t'] == 'set':
                e['log'][0]['m'] = copy.deepcopy(e['log'][0]['m'])
                e['log'][0]['m'][0][0] += 1
            else:
                e['reads'][0]['x'][0] += 1
            t['evs'] = t['evs'][:k + 1]
            return t
    return None


def check(c):
    sc = tracecheck.scripts(c, 'ObsArMC', 'an array, its views and copies: every operation after every %d others' % c.n(1, 2),
                            cfg='ObsArMC.cfg' if c.quick else 'ObsArMC3.cfg')
    trs = [t for q in runner.pmap(play_many, [(sc[k::16],) for k in range(16)]) for t in q]
    tracecheck.validate(c, 'ObsArTrace', 'every transition of the specification', trs, corrupt, 'obsar', chunk=6000)
    trs = runner.pmap(random_trace, [(c.seed * 7919 + i, c.n(60, 100)) for i in range(c.n(700, 8000))])
    tracecheck.validate(c, 'ObsArTrace', 'random histories', trs, corrupt, 'obsar', chunk=c.n(350, 1000))
