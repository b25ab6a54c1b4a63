"""Random drivers: choose operations for World, guided by what the real objects look like."""
import random
from harness.world import World, Param, Parameterized, Model, codes, con_name, text, num, BOUNDS
from paramz.param import ParamConcatenation
from paramz.core.nameable import adjust_name_for_printing

WILD = [100003, -99999, 123456, -654321, 799999]        # more digits than are printed of a small number
SHAPES = [[1], [1], [2], [3], [4], [2, 2], [2, 3], [1, 3], [3, 1], [2, 1, 2]]
CONS = ['pos', 'neg', 'exp', 'nexp', 'sq', 'b1', 'b2', 'b3']
NAMES = ['a', 'b', 'ab', 'ba', 'aa', 'k 1', 'r.x', 'x+y', 'p*q', 'abc', 'n-m', 'w(2)', 'bb', 'ca', 'e/f', 'd@e', 'q**r', 'z!', 'cab', 'bca']
CLASH = ['a', 'b', 'a', 'a_1', 'b', 'a_2', 'a', 'b_1', 'ab', 'a']


def in_dom(c, v):
    if c in ('pos', 'exp', 'sq'):
        return v >= 0
    if c in ('neg', 'nexp'):
        return v <= 0
    if c in BOUNDS:
        return BOUNDS[c][0] <= v <= BOUNDS[c][1]
    return True


def strict(c, v):
    if c in ('pos', 'exp', 'sq'):
        return v > 0
    if c in ('neg', 'nexp'):
        return v < 0
    if c in BOUNDS:
        return BOUNDS[c][0] < v < BOUNDS[c][1]
    return True


def below(x, o):
    """is x the object o or below it"""
    while x is not None:
        if x is o:
            return True
        x = x._parent_
    return False


class Gen(object):
    def __init__(self, seed, profile):
        self.r = random.Random(seed)
        self.p = profile
        self.todo = []

    # -- pools ---------------------------------------------------------------------
    def pool(self):
        r, p = self.r, self.p
        nl = r.randint(*p.get('leaves', (3, 5)))
        nn = r.randint(*p.get('nodes', (2, 4)))
        names = list(p.get('names', NAMES))
        if not p.get('clash'):
            r.shuffle(names)
        out = []
        for i in range(nl + nn):
            leaf = i < nl
            nm = names[i] if not p.get('clash') else r.choice(names)
            if leaf:
                shape = r.choice(p.get('shapes', SHAPES))
                k = 1
                for d in shape:
                    k *= d
                val = [r.randint(-9, 9) for _ in range(k)]
                dc = r.choice(CONS) if r.random() < p.get('dc', .15) else 'none'
                out.append({'leaf': 1, 'shape': shape, 'val': val, 'dc': dc, 'name': codes(nm), 'ini': 1,
                            'cls': 'sub' if r.random() < .2 else ''})
            else:
                out.append({'leaf': 0, 'shape': [], 'val': [], 'dc': 'none', 'name': codes(nm),
                            'ini': 0 if p.get('deferred') else 1,
                            'cls': 'model' if p.get('models') else ''})
        return out

    # -- choices ------------------------------------------------------------------------
    def leaves(self, w):
        return [i for i, o in w.objs.items() if isinstance(o, Param)]

    def nodes(self, w):
        return [i for i, o in w.objs.items() if not isinstance(o, Param)]

    def any(self, w):
        # prefer objects in bigger hierarchies
        ids = list(w.objs)
        linked = [i for i in ids if w.objs[i].has_parent() or len(w.objs[i].parameters)]
        return self.r.choice(linked if linked and self.r.random() < .8 else ids)

    def node(self, w, full=True):
        ns = self.nodes(w)
        f = [i for i in ns if w.objs[i].size > 0]
        return self.r.choice(f if f and full and self.r.random() < .9 else ns)

    def leaf(self, w):
        return self.r.choice(self.leaves(w))

    def atom(self, n, adv=True):
        r = self.r
        k = r.random()
        if k < .55 or not adv:
            a = {'t': 's', 'a': 0, 'b': 0, 'k': r.choice([1, 1, 1, 1, 2, 3, -1, -2]), 'ha': 0, 'hb': 0}
            if r.random() < .6:
                a['ha'], a['a'] = 1, r.randint(-n - 1, n + 1)
            if r.random() < .6:
                a['hb'], a['b'] = 1, r.randint(-n - 1, n + 1)
            return a
        if k < .75:
            return {'t': 'n', 'v': r.randint(-n, n - 1)}
        if k < .9:
            return {'t': 'i', 'v': [r.randint(-n, n - 1) for _ in range(r.randint(0, min(n + 1, 4)))]}
        return {'t': 'm', 'v': [r.randint(0, 1) for _ in range(n)]}

    def sel(self, shape, handle=False, steps=True):
        """a selection; for handles the result has to stay an array"""
        r = self.r
        for _ in range(200):
            if r.random() < .2:
                n = 1
                for d in shape:
                    n *= d
                s = {'full': 1, 'mask': [1 if r.random() < .45 else 0 for _ in range(n)], 'at': []}
            else:
                k = r.randint(1, len(shape))
                if r.random() < .15 and len(shape) > 1:      # with an ellipsis
                    j = r.randint(0, k - 1)
                    front = [self.atom(shape[d]) for d in range(j)]
                    back = [self.atom(shape[len(shape) - (k - 1 - j) + d]) for d in range(k - 1 - j)]
                    at = front + [{'t': 'e'}] + back
                else:
                    at = [self.atom(shape[d]) for d in range(k)]
                s = {'full': 0, 'mask': [], 'at': at}
                if not steps:
                    for a in at:
                        if a['t'] == 's' and a['k'] < 0:
                            a['k'] = -a['k']
                if len(at) == 1 and r.random() < .3:
                    s['tuple'] = 1
                if len(at) == 1 and at[0]['t'] == 'i' and at[0]['v'] and r.random() < .3 :
                    s['aslist'] = 1
                    s['tuple'] = 1
            if self.legal(s, shape) and not (handle and all(a['t'] == 'n' for a in s['at']) and not s['full'] and len(s['at']) == len(shape)):
                return s
        return {'full': 0, 'mask': [], 'at': [{'t': 's', 'a': 0, 'b': 0, 'k': 1, 'ha': 0, 'hb': 0}]}

    def legal(self, s, shape):
        import numpy as np
        from harness.world import sel_index
        try:
            np.zeros(shape)[sel_index(s, shape)]
            return True
        except IndexError:
            return False

    def count(self, s, shape):
        import numpy as np
        from harness.world import sel_index
        return np.zeros(shape)[sel_index(s, shape)].size

    def regex(self, w, o):
        """a regular expression as syntax tree over the names below o"""
        r = self.r
        C = lambda ch: {'r': 'c', 'c': ord(ch)}
        cat = lambda *x: {'r': 'cat', 'x': list(x)}
        anyc, star = {'r': 'any'}, lambda x: {'r': 'star', 'x': x}
        lit = lambda s: [C(c) for c in s]
        paths = []
        try:
            def visit(x):
                if x is not w.objs[o]:
                    paths.append(x.hierarchy_name().partition('.')[2])
            w.objs[o].traverse(visit)
        except Exception:
            pass
        path = r.choice(paths) if paths else 'a'
        k = r.random()
        if k < .12:
            return cat()
        if k < .3:
            return cat(*lit(path))
        if k < .45:
            return cat(*(lit(path) + [{'r': 'end'}]))
        if k < .6:
            return cat(*lit(path[:r.randint(1, len(path))]))
        if k < .75:
            return cat(star(anyc), *lit(path[r.randint(0, len(path) - 1):][:r.randint(1, 3)]))
        if k < .85:
            other = r.choice(paths) if paths else 'b'
            return cat({'r': 'alt', 'x': [cat(*lit(path)), cat(*lit(other))]})
        if k < .9:
            return cat(star(anyc), {'r': 'set', 's': [ord(c) for c in r.sample('abcdefkxy', 3)]}, {'r': 'end'})
        if k < .95:
            i = r.randint(0, len(path) - 1)
            return cat(*(lit(path[:i]) + [anyc] + lit(path[i + 1:]) + [{'r': 'opt', 'x': C('b')}]))
        return cat(*lit('nothing'))

    def target(self, w, kinds, handle=False):
        r = self.r
        k = r.choice(kinds)
        if k == 'l':
            return {'k': 'o', 'o': self.leaf(w)}
        if k == 'o':
            return {'k': 'o', 'o': self.any(w)}
        if k == 'n':
            return {'k': 'o', 'o': self.node(w)}
        if k == 's':
            o = self.leaf(w)
            return {'k': 's', 'o': o, 'sel': self.sel(w.shape_of(o), handle)}
        o = self.node(w)
        t = {'k': 'r', 'o': o, 're': self.regex(w, o)}
        if r.random() < .3:
            t['compiled'] = 1
        if handle and self.void(w, t):
            return {'k': 'o', 'o': self.leaf(w)}
        if k == 'x':
            try:
                h = w.objs[o][w.regex(t)]
                n = len(h.values()) if hasattr(h, 'params') else 0
            except Exception:
                n = 0
            if n:
                t['k'] = 'x'
                sel = self.sel([n], True)
                if not self.count(sel, [n]):
                    return dict(t, k='r')
                t['sel'] = sel
        return t

    def void(self, w, t):
        """several objects match but they contain nothing (handles without elements are not specified)"""
        try:
            h = w.objs[t['o']][w.regex(t)]
        except AttributeError:
            return False
        return hasattr(h, 'params') and len(h.params) == 0

    def tsize(self, w, t):
        import numpy as np
        try:
            if t['k'] == 'o':
                return w.objs[t['o']].size
            if t['k'] == 's':
                return self.count(t['sel'], w.shape_of(t['o']))
            h = w.objs[t['o']][w.regex(t)]
            n = len(h.values()) if hasattr(h, 'params') else h.size
            return n if t['k'] == 'r' else self.count(t['sel'], [n])
        except Exception:
            return 0

    def vals(self, n, scalar=.35):
        r = self.r
        if n == 0 or r.random() < scalar:
            n = 1
        wild = self.p.get('wild', 0)
        return [r.choice(WILD) if r.random() < wild else r.randint(-9, 9) for _ in range(n)]

    # -- operations --------------------------------------------------------------------------
    def g_link(self, w):
        r = self.r
        ns = self.nodes(w)
        p = r.choice(ns)
        free = [i for i in w.objs if not w.objs[i].has_parent() and i != p]
        if r.random() < .75 and free:
            c = r.choice(free)
        elif r.random() < .5 and len(w.objs[p].parameters):
            c = w.oid(r.choice(list(w.objs[p].parameters)))
            if c < 1:
                c = r.choice(list(w.objs))
        else:
            c = r.choice(list(w.objs))
        at = 1 if r.random() < .5 else 0
        n = len(w.objs[p].parameters)
        op = {'t': 'link', 'p': p, 'c': c, 'at': at, 'i': r.randint(-n - 1, n + 1)}
        if not at and r.random() < .3:
            op['via'] = 'many'
        return op

    def g_unlink(self, w):
        r = self.r
        cs = [i for i in w.objs if w.objs[i].has_parent()]
        if cs and r.random() < .9:
            c = r.choice(cs)
            p = w.oid(w.objs[c]._parent_)
            if p > 0 and r.random() < .95:
                return {'t': 'unlink', 'p': p, 'c': c}
        return {'t': 'unlink', 'p': self.r.choice(self.nodes(w)), 'c': r.choice(list(w.objs))}

    def g_set(self, w):
        t = self.target(w, self.p.get('set_kinds', ['l', 'l', 'n', 's', 's', 'r', 'x']))
        n = self.tsize(w, t)
        if t['k'] in ('r', 'x') and n == 0:
            return None
        op = {'t': 'set', 'h': t, 'v': self.vals(n)}
        if t['k'] == 'o':
            op['via'] = self.r.choice(['', 'attr', 'ell', 'arr'])
            if op['via'] == 'attr' and not isinstance(w.objs[t['o']], Param):
                op['v'] = op['v']
        elif t['k'] == 'r':
            op['via'] = self.r.choice(['', 'handle']) if not self.p.get('deferred') else ''
            if n == 0:
                op['v'] = [1]
        if op['v'] and t['k'] == 'o' and w.objs[t['o']].size == 0:
            op['v'] = [1]
        return op

    def g_shift(self, w):
        t = self.target(w, ['l', 's'] if self.p.get('deferred') else ['l', 's', 's', 'r', 'x'])
        f = self.r.choice(['add', 'sub', 'mul', 'quo', 'mod', 'div', 'pow'])
        vs = w.objs[t['o']].param_array.ravel()
        if f in ('quo', 'mod') and not all(float(v).is_integer() for v in vs) or f == 'pow' and not all(abs(v) < 200 for v in vs):
            f = 'div'                       # no jumps at values which are integers only up to rounding, and small numbers
        d = {'quo': [2, 3], 'mod': [2, 5], 'div': [1, -1], 'pow': [2]}.get(f, [-1, 1, 2])
        op = {'t': 'shift', 'h': t, 'f': f, 'd': self.r.choice(d)}
        if t['k'] == 'x':
            t['sel'] = self.asc(t['sel'])
            if not self.tsize(w, t):
                return None
        elif t['k'] == 'r':
            try:
                h = w.objs[t['o']][w.regex(t)]
            except AttributeError:
                return op
            if isinstance(h, Parameterized) or self.void(w, t):
                return None
            op['via'] = self.r.choice(['', 'handle'])
        return op

    def g_build(self, w):
        """a new node which links some objects (and constrains or fixes them) in its constructor"""
        r = self.r
        if len(w.objs) > self.p.get('max_objs', 16):
            return None
        names = self.p.get('names', NAMES)
        if not self.p.get('clash'):
            used = set(o.name for o in w.objs.values())
            names = [n for n in names if n not in used]
            if not names:
                return None
        new = len(w.objs) + 1
        cs = []
        for _ in range(r.randint(0, 3)):
            free = [i for i in w.objs if not w.objs[i].has_parent()]
            c = r.choice(free) if free and r.random() < .8 else r.choice(list(w.objs))
            if all(not (below(w.objs[c], w.objs[x]) or below(w.objs[x], w.objs[c])) for x in cs):
                cs.append(c)
        subs = []
        for k, c in enumerate(cs):
            at = 1 if r.random() < .3 else 0
            subs.append({'t': 'link', 'p': new, 'c': c, 'at': at, 'i': r.randint(-k - 1, k + 1)})
        via = r.choice(['ctor', 'init', 'init'])
        if self.p.get('models'):
            via = 'model'
        if 'tag' in self.p['fields'] and via == 'ctor':
            via = 'init'
        if via == 'ctor':
            for x in subs:
                x['at'] = 0
        elif cs:
            for _ in range(r.choice([0, 0, 1, 2])):
                o = r.choice(cs + [new])
                if r.random() < .7:
                    x = {'t': 'constrain', 'h': {'k': 'o', 'o': o}, 'c': r.choice(CONS), 'via': ''}
                else:
                    x = {'t': 'fix', 'h': {'k': 'o', 'o': o}, 'hv': 0, 'v': [0], 'via': ''}
                subs.insert(r.randint(0, len(subs)), x)
        return {'t': 'build', 'nm': codes(r.choice(names)), 'subs': subs, 'via': via, 'ini': 0 if self.p.get('deferred') and r.random() < .7 else 1}

    def g_unfixed(self, w):
        return {'t': 'unfixed', 'o': self.any(w)}

    def g_rawset(self, w):
        o = self.any(w) if not self.p.get('deferred') else self.leaf(w)
        n = w.objs[o].size
        if not n:
            return None
        ix = self.r.sample(range(n), self.r.randint(1, n))
        return {'t': 'rawset', 'o': o, 'ix': ix, 'v': self.vals(len(ix))}

    def g_nodeset(self, w):
        o = self.node(w)
        n = w.objs[o].size
        if not n:
            return None
        sel = self.sel([n], handle=True)
        for a in sel['at']:
            if a['t'] == 'm':
                sel = {'full': 1, 'mask': a['v'], 'at': []}
        sel.pop('aslist', None)
        return {'t': 'nodeset', 'o': o, 'sel': sel, 'v': self.vals(self.count(sel, [n]))}

    HK = ['l', 'l', 'n', 's', 's', 's', 'r', 'x']

    def g_constrain(self, w):
        t = self.target(w, self.p.get('con_kinds', self.HK), True)
        c = self.r.choice(self.p.get('cons', CONS)) if self.r.random() < .96 else 'bogus'
        return {'t': 'constrain', 'h': t, 'c': c, 'via': self.r.choice(['', 'conv'])}

    def g_unconstrain(self, w):
        t = self.target(w, self.p.get('con_kinds', self.HK), True)
        k = self.r.random()
        cs = [] if k < .3 else [self.r.choice(CONS)] if k < .7 else self.r.sample(CONS + ['fixed'], self.r.randint(1, 5))
        return {'t': 'unconstrain', 'h': t, 'cs': cs, 'via': self.r.choice(['', 'conv'])}

    def g_fix(self, w):
        t = self.target(w, self.p.get('con_kinds', self.HK), True)
        hv = 1 if self.r.random() < .3 else 0
        return {'t': 'fix', 'h': t, 'hv': hv, 'v': [self.r.randint(-9, 9)], 'via': self.r.choice(['', 'long', 'con'])}

    def g_unfix(self, w):
        t = self.target(w, self.p.get('con_kinds', self.HK), True)
        return {'t': 'unfix', 'h': t, 'via': self.r.choice(['', 'long'])}

    def g_tag(self, w):
        o = self.any(w)
        n = w.objs[o].size
        if not n:
            return None
        return {'t': self.r.choice(['tag', 'tag', 'untag']), 'o': o, 'g': self.r.choice(['g1', 'g2']),
                'ix': sorted(self.r.sample(range(n), self.r.randint(1, n)))}

    def cv(self, o):
        """a wanted value within the domain of each free element's constraint"""
        n = o.size
        con, free = ['none'] * n, [True] * n
        for prop, ind in o.constraints.items():
            nm = con_name(prop)
            for i in ind:
                if nm == 'fixed':
                    free[int(i)] = False
                else:
                    con[int(i)] = nm
        out = []
        for c, f in zip(con, free):
            if f:
                if c in ('pos', 'exp', 'sq'):
                    v = self.r.randint(1, 9)
                elif c in ('neg', 'nexp'):
                    v = self.r.randint(-9, -1)
                elif c in BOUNDS:
                    v = self.r.randint(int(BOUNDS[c][0] + .5), int(BOUNDS[c][1] - .5))
                else:
                    v = self.r.randint(-9, 9)
                out.append(['id' if c == 'none' else c, v])
        return out

    def g_setopt(self, w):
        o = self.any(w) if not self.p.get('deferred') else self.leaf(w)
        if not w.objs[o].size:
            return None
        return {'t': 'setopt', 'o': o, 'cv': self.cv(w.objs[o])}

    def g_randomize(self, w):
        o = self.any(w) if not self.p.get('deferred') else self.leaf(w)
        if not w.objs[o].size:
            return None
        return {'t': 'randomize', 'o': o, 'cv': self.cv(w.objs[o])}

    def g_updates(self, w):
        return {'t': 'updates', 'o': self.any(w), 'on': 1 if self.r.random() < self.p.get('on', .6) else 0}

    def g_toggle(self, w):
        return {'t': 'toggle', 'o': self.any(w)}

    def g_trigger(self, w):
        return {'t': 'trigger', 'o': self.any(w)}

    def g_setgrad(self, w):
        o = self.any(w)
        ob = w.objs[o]
        if not ob.size:
            return None
        if isinstance(ob, Param):
            if self.r.random() < .3:
                return {'t': 'setgrad', 'o': o, 'sel': {'full': 0, 'mask': [], 'at': [{'t': 'e'}]},
                        'v': self.vals(ob.size), 'via': 'attr'}
            sel = self.sel(w.shape_of(o))
            return {'t': 'setgrad', 'o': o, 'sel': sel, 'v': self.vals(self.count(sel, w.shape_of(o))), 'via': ''}
        sel = self.sel([ob.size])
        if self.r.random() < .3:
            sel = {'full': 0, 'mask': [], 'at': [{'t': 'e'}]}
            return {'t': 'setgrad', 'o': o, 'sel': sel, 'v': self.vals(ob.size), 'via': 'attr'}
        return {'t': 'setgrad', 'o': o, 'sel': sel, 'v': self.vals(self.count(sel, [ob.size])),
                'via': self.r.choice(['', 'full'])}

    def g_optgrad(self, w):
        c = [i for i in self.nodes(w) if w.objs[i].size]
        if not c:
            return None
        o = self.r.choice(c)
        ob = w.objs[o]
        con, free = ['none'] * ob.size, [True] * ob.size
        for prop, ind in ob.constraints.items():
            nm = con_name(prop)
            for i in ind:
                if nm == 'fixed':
                    free[int(i)] = False
                else:
                    con[int(i)] = nm
        v = [num(x) for x in ob.param_array]
        if not any(free) or not all(strict(c, x) for c, x, f in zip(con, v, free)):
            return None
        return {'t': 'optgrad', 'o': o, 'via': self.r.choice('abcn')}

    def g_rename(self, w):
        names = self.p.get('names', NAMES)
        if not self.p.get('clash'):
            used = set()
            for o in w.objs.values():
                used.add(o.name)
            names = [n for n in names if n not in used]
            if not names:
                return None
        return {'t': 'rename', 'o': self.any(w), 'nm': codes(self.r.choice(names))}

    def g_copy(self, w):
        if len(w.objs) > self.p.get('max_objs', 16):
            return None
        o = self.any(w)
        if self.tree_size(w, o) > 8:
            return None
        via = self.r.choice(['copy', 'copy', 'copy', 'pickle', 'file', 'load', 'path', 'deepcopy'])
        if w.objs[o].has_parent() and via != 'copy':
            via = 'copy'
        op = {'t': 'copy', 'o': o, 'via': via}
        if via in ('pickle', 'path'):
            op['proto'] = self.r.choice([2, 4, -1])
        return op

    def tree_size(self, w, o):
        n = [0]

        def v(x):
            n[0] += 1
            if n[0] < 100:
                for k in x.parameters:
                    v(k)
        v(w.objs[o])
        return n[0]

    def g_recipe(self, w):
        """the documented way to load a saved model: updates off, initialize, assign everything, updates on"""
        c = [o for o in self.nodes(w) if w.objs[o]._parent_ is None and not w.objs[o]._model_initialized_]
        if not c:
            return None
        o = self.r.choice(c)
        def count(x):
            return x.size if isinstance(x, Param) else sum(count(y) for y in x.parameters)
        n = count(w.objs[o])
        if n:
            if self.r.random() < .7:
                self.todo = [{'t': 'nodeset', 'o': o, 'sel': {'full': 0, 'mask': [], 'at': [{'t': 's', 'a': 0, 'b': 0, 'k': 1, 'ha': 0, 'hb': 0}]}, 'v': self.vals(n, 0)}]
            else:
                self.todo = [{'t': 'rawset', 'o': o, 'ix': list(range(n)), 'v': self.vals(n, 0)}]
        self.todo = [{'t': 'initialize', 'o': o}] + self.todo + [{'t': 'updates', 'o': o, 'on': 1}]
        return {'t': 'updates', 'o': o, 'on': 0}

    def g_initialize(self, w):
        return {'t': 'initialize', 'o': self.any(w)}

    def g_getopt(self, w):
        o = self.any(w)
        return {'t': 'getopt', 'o': o}

    def g_flatnames(self, w):
        return {'t': 'flatnames', 'o': self.any(w), 'all': self.r.randint(0, 1)}

    def g_pnames(self, w):
        return {'t': 'pnames', 'o': self.any(w), 'slf': self.r.randint(0, 1), 'adj': self.r.randint(0, 1),
                'rec': self.r.randint(0, 1)}

    def g_rawname(self, w):
        return {'t': 'rawname', 'o': self.any(w)}

    def g_fixedat(self, w):
        return {'t': 'fixedat', 'h': self.target(w, ['s'], True)}

    def g_isfixed(self, w):
        return {'t': 'isfixed', 'o': self.any(w)}

    def g_read(self, w):
        t = self.target(w, ['l', 's', 's', 'n', 'r', 'x'])
        if t['k'] == 'x':
            t['sel'] = self.asc(t['sel'])
            if not self.tsize(w, t):
                t['k'] = 'r'
        if t['k'] == 'r' and self.void(w, t):
            return None
        return {'t': 'read', 'q': t}

    def asc(self, sel):
        """a selection in ascending order without repetition"""
        for a in sel['at']:
            if a['t'] == 's':
                a['k'] = abs(a['k'])
            if a['t'] == 'i':
                a['v'] = sorted(set(x for x in a['v'] if x >= 0))
        return sel

    def g_compare(self, w):
        t = self.target(w, ['r'])
        n = self.tsize(w, t)
        if self.void(w, t):
            return None
        try:
            h = w.objs[t['o']][w.regex(t)]
            if not isinstance(h, (Param, ParamConcatenation)):
                return None
            if any(float(x) != round(float(x)) for x in (h.values() if isinstance(h, ParamConcatenation) else h.values.flat)):
                return None     # rounded values cannot be compared by the specification
        except AttributeError:
            pass
        return {'t': 'compare', 'q': t, 'v': self.vals(n), 'f': self.r.choice(['lt', 'le', 'gt', 'ge', 'eq', 'ne'])}

    def g_grep(self, w):
        o = self.node(w)
        return {'t': 'grep', 'o': o, 're': self.regex(w, o)}

    def g_print(self, w):
        t = self.target(w, self.p.get('print_kinds', ['l', 'n', 'n', 's', 'r', 'x']), True)
        if t['k'] == 'x':
            t['sel'] = self.asc(t['sel'])
            if not self.tsize(w, t):
                t['k'] = 'r'
        if t['k'] == 'r' and self.void(w, t):
            return None
        return {'t': 'print', 'h': t, 'html': self.r.randint(0, 1), 'vt': self.r.randint(0, 1), 'tags': int(w.with_tags),
                'models': [int(isinstance(w.objs[i], Model)) for i in sorted(w.objs)]}

    def g_trav(self, w):
        d = self.r.choice(['down', 'down', 'up', 'up', 'flat', 'num'])
        return {'t': 'trav', 'o': self.any(w) if d != 'num' else self.node(w), 'dir': d, 'stop': self.r.choice([0, 0, 1, 2, 3]) if d in ('down', 'up') else 0}

    def g_save(self, w):
        o = self.node(w)
        x = w.objs[o]
        names = [n.replace('.', '_') for n in x.parameter_names(adjust_for_printing=True)]
        if not x._model_initialized_ or not x.size or len(set(names)) < len(names):
            return None
        return {'t': 'save', 'o': o}

    def g_sib(self, w):
        o = self.r.choice(self.nodes(w))
        names = [adjust_name_for_printing(n) for n in self.p.get('names', NAMES)]
        return {'t': 'sib', 'o': o, 'nm': codes(self.r.choice(names))}

    # -- traces ---------------------------------------------------------------------------------
    def next_op(self, w):
        if self.todo:
            return self.todo.pop(0)
        ops = self.p['ops']
        names = list(ops)
        for _ in range(50):
            k = self.r.choices(names, [ops[n] for n in names])[0]
            op = getattr(self, 'g_' + k)(w)
            if op is not None:
                return op
        return {'t': 'noop'}

    def run(self, steps):
        w = World(self.pool(), self.p['fields'])
        often = self.r.choice([1, 1, .5, .2])       # looking at arrays creates or connects them
        look = lambda: self.r.random() < often
        w.step({'t': 'noop'}, look())
        n = len(w.objs)
        for k in range(self.r.randint(n // 2, n + 2)):
            if w.dead:
                break
            w.step(self.g_link(w), look())
        for k in range(steps):
            if w.dead:
                break
            try:
                op = self.next_op(w)
            except Exception as e:
                w.evs.append({'op': {'t': 'noop'}, 'out': 'ok', 'ret': [], 'pc': [], 'obs': {},
                              'err': 'driver: %s: %s' % (type(e).__name__, str(e)[:200])})
                break
            w.step(op, k == steps - 1 or look())
        return w.trace()
