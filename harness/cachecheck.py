"""C08, C09: cached functions against spec/Cache.tla."""
import copy
import random

import numpy as np

from harness import common, runner, tracecheck  # noqa
from paramz import Param, Parameterized
from paramz.caching import Cacher, Cache_this
from paramz.core.observable import Observable
from paramz.core.observable_array import ObsAr

BAD = 13
FIELDS = {'C08': ['val', 'out', 'err'], 'C09': ['runs', 'observers', 'err']}


class BadValue(Exception):
    pass


class Thing(Observable):
    def __init__(self, vals):
        super(Thing, self).__init__()
        self.vals = list(vals)


class Tagged(object):
    def __init__(self, tag):
        self.tag = tag


class TaggedObs(Observable):
    def __init__(self, tag):
        super(TaggedObs, self).__init__()
        self.tag = tag


class Node(Parameterized):
    """runs the calls it was given whenever its parameters changed"""
    inner = None

    def parameters_changed(self):
        if self.__dict__.get('player') is not None:
            self.player.callback(self)


def content(x):
    if isinstance(x, (Tagged, TaggedObs)):
        return [x.tag]
    if isinstance(x, Thing):
        return list(x.vals)
    if isinstance(x, Parameterized):
        if 'tag' in x.__dict__:
            return [int(x.tag)] + [int(v) for v in x.param_array]
        return [int(v) for v in x.param_array]
    if isinstance(x, np.ndarray):
        return [int(v) for v in np.asarray(x).ravel()]
    if isinstance(x, list):
        return [int(v) for v in x]
    return [ATOMS.index((type(x), x))]


ATOMS = [(type(None), None), (int, 1), (bool, True), (float, 1.0), (str, '1'), (int, 10 ** 9), (float, 2.5), (str, 'abc'), (bool, False), (int, 0), (str, '')]


class Player(object):
    def __deepcopy__(self, memo):
        return self     # not a part of what is copied

    def __init__(self):
        self.objs, self.info = {}, {}
        self.cells = []
        self.caches, self.cinfo = {}, {}
        self.owners = {}
        self.stack, self.inner = [], []
        self.evs = []
        self.copied = {}
        self.root = None

    # objects --------------------------------------------------------------
    def add(self, x, kind, cells=None, ol=None, anc=()):
        o = len(self.objs) + 1
        self.objs[o] = x
        if cells is None:
            cells = []
            for v in content(x):
                self.cells.append(v)
                cells.append(len(self.cells))
        self.info[o] = {'kind': kind, 'cells': list(cells), 'ol': (o if kind == 'obs' else 0) if ol is None else ol, 'anc': list(anc)}
        return o

    def array(self, vals):
        return self.add(ObsAr(np.array(vals, dtype=float)), 'obs')

    def view(self, o, how):
        x = self.objs[o]
        n = np.arange(x.size).reshape(x.shape)
        if how == 'T':
            v, idx = x.T, n.T
        elif how == 'r':
            v, idx = x.reshape(-1, 1), n.reshape(-1, 1)
        else:
            v, idx = x[how], n[how]
        if not isinstance(v, Observable) or not v.size or not np.shares_memory(v, x):
            return None
        c = self.info[o]['cells']
        return self.add(v, 'obs', [c[i] for i in idx.ravel()], self.info[o]['ol'], self.info[o]['anc'])

    def thing(self, vals):
        return self.add(Thing(vals), 'obs')

    def atom(self, k):
        v = ATOMS[k][1]
        return self.add(v, 'none' if v is None else 'atom')

    def plain(self, vals, lst=False):
        return self.add(list(vals) if lst else np.array(vals, dtype=float), 'no')

    def tree(self, r, depth=2, name='n'):
        """a node with leaves and nodes; its parts become objects"""
        def build(d, nm, anc):
            n = Node(nm)
            me = len(self.objs) + 1
            self.objs[me] = n
            self.info[me] = None
            cells = []
            for k in range(r.randint(1, 3)):
                if d and r.random() < .4:
                    c, cc = build(d - 1, 'n%d' % k, anc + [me])
                else:
                    shape = r.choice([(1,), (2,), (2, 2), (3,)])
                    c = Param('p%d' % k, np.array([r.randint(0, 5) for _ in range(int(np.prod(shape)))], dtype=float).reshape(shape))
                    cid = self.add(c, 'obs', anc=anc + [me])
                    cc = self.info[cid]['cells']
                n.link_parameter(c)
                cells += cc
            self.info[me] = {'kind': 'obs', 'cells': cells, 'ol': me, 'anc': list(anc)}
            return n, cells
        root, _ = build(depth, name, [])
        for o in list(self.objs):
            if isinstance(self.objs[o], Node) and self.objs[o]._highest_parent_ is root:
                self.objs[o].player = self
        return root

    # caches ---------------------------------------------------------------
    def body(self, names, owner=None):
        def run(bound):
            top = self.stack[-1] if self.stack else None
            if top is not None:
                me = {'nested': []}
                top['runs'].append(me)
                if len(top['runs']) == 1:
                    for n in top['op']['nest']:
                        rec = self.call(n['op'])
                        me['nested'].append(rec)
                        if rec['out'] != 'ok' and not n['sw']:
                            raise BadValue('nested')
            vals = [content(b[0]) if b else [] for b in bound]
            # the function does not look at arguments which are ignored
            cc = top['cc'] if top is not None else None
            for nm, v in zip(names, vals):
                if BAD in v and (cc is None or nm not in self.ignored(cc, top['op'])):
                    raise BadValue(nm)
            return vals
        return run

    def ignored(self, cc, op):
        """names of the parameters which this call ignores"""
        if cc['mode'] == 'this':
            return [cc['names'][i] for i in cc['ign'] if i < len(cc['names'])]
        sh = 1 if cc['mode'] == 'bound' else 0
        a = [cc['names'][i + sh] for i in range(len(op['pos']))] + sorted(k['k'] for k in op['kw'])
        a += cc['names'][len(a) + sh:]
        return [a[i] for i in cc['ign'] if i < len(a)]

    def cacher(self, mode, limit, ign=(), force=(), zdef=0, owner=0, cls=None):
        """parameters x, y, z; z has a default"""
        c = len(self.cinfo) + 1
        names = ['x', 'y', 'z'] if mode == 'plain' else ['self', 'x', 'y', 'z']
        info = {'limit': limit, 'ign': list(ign), 'force': list(force), 'names': names, 'order': sorted(names),
                'defs': [0] * (len(names) - 1) + [zdef], 'mode': mode, 'owner': owner, 'grp': owner}
        self.cinfo[c] = info
        run = self.body(names)
        d = self.objs[zdef] if zdef else None
        if mode == 'plain':
            if zdef:
                def f(x, y, z=d):
                    return run([(x,), (y,), (z,)])
            else:
                def f(x, y, z=NONE):
                    return run([(x,), (y,), (z,) if z is not NONE else ()])
            self.caches[c] = Cacher(f, limit, ign, force)
        else:
            def f(self, x, y, z=d):
                return run([(self,), (x,), (y,), (z,)])
            f.__name__ = 'm%d' % c
            obj = self.objs[owner]
            if mode == 'this':
                # methods belong to classes: one for each owner
                base = type(obj)
                cls = type(base.__name__ + str(c), (base,), {f.__name__: Cache_this(limit, ign, force)(f)})
                obj.__class__ = cls
                self.caches[c] = f.__name__
            else:
                base = type(obj)
                cls = type(base.__name__ + str(c), (base,), {'_' + f.__name__: f})
                obj.__class__ = cls
                object.__setattr__(obj, f.__name__, Cacher(getattr(obj, '_' + f.__name__), limit, ign, force))
                self.caches[c] = f.__name__
        return c

    def target(self, c):
        i = self.cinfo[c]
        return self.caches[c] if i['mode'] == 'plain' else getattr(self.objs[i['owner']], self.caches[c])

    def cobject(self, c):
        """the Cacher itself, None if there is none yet"""
        i = self.cinfo[c]
        if i['mode'] == 'plain':
            return self.caches[c]
        o = self.objs[i['owner']]
        if i['mode'] == 'bound':
            return getattr(o, self.caches[c])
        for f, k in getattr(o, 'cache', {}).items():
            if f.__name__ == self.caches[c]:
                return k
        return None

    def call(self, op):
        cc = self.cinfo[op['c']]
        rec = {'op': op, 'runs': [], 'out': 'ok', 'val': [], 'cc': cc}
        self.stack.append(rec)
        try:
            pos = [self.objs[o] for o in op['pos']]
            if cc['mode'] == 'this':
                pos = pos[1:]
            v = self.target(op['c'])(*pos, **dict((k['k'], self.objs[k['o']]) for k in op['kw']))
            rec['val'] = copy.deepcopy(v)
        except Exception as e:
            rec['out'] = type(e).__name__
        finally:
            self.stack.pop()
            del rec['cc']
        return rec

    def callback(self, node):
        calls = node.__dict__.get('calls') or []
        if self.recording:
            for op in calls:
                self.inner.append(self.call(op))
    recording = False

    # steps ----------------------------------------------------------------
    def writeto(self, op):
        x = self.objs[op['o']]
        how, vals = op['how'], op['vals']
        if how == 'notify':
            x.notify_observers()
        elif how == 'set':
            if isinstance(x, Thing):
                x.vals[:] = vals
                x.notify_observers()
            elif isinstance(x, (Tagged, TaggedObs)):
                x.tag = vals[0]
            elif isinstance(x, Parameterized):
                x[:] = np.array(vals, dtype=float)
            elif isinstance(x, list):
                x[:] = vals
            else:
                x[...] = np.array(vals, dtype=float).reshape(x.shape)
        elif how == 'opt':
            x.optimizer_array = np.array(vals, dtype=float)
        elif how == 'one':
            i = np.unravel_index(op['i'], x.shape)
            x[i] = vals[0]
        elif how == 'iadd':
            x += float(vals[0])
        elif how == 'imul':
            x *= float(vals[0])
        elif how == 'iadd2':
            x[:] += float(vals[0])
        elif how == 'attr':
            setattr(x._parent_, x.name, np.array(vals, dtype=float).reshape(x.shape))
        elif how == 'regex':
            root = x._highest_parent_
            root[x.hierarchy_name()[len(root.name) + 1:]] = np.array(vals, dtype=float).reshape(x.shape)

    def step(self, op):
        ev = {'op': op, 'err': '', 'inner': [], 'rec': {}, 'regs': []}
        self.inner = ev['inner']
        self.recording = True
        try:
            t = op['t']
            if t == 'call':
                ev['rec'] = self.call(op)
            elif t == 'write':
                self.writeto(op)
            elif t in ('reset', 'disable', 'enable'):
                if op.get('whole') and t != 'reset':
                    # the hierarchy from a node on
                    k = self.root if op['whole'] == -1 else self.objs[op['whole']]
                    {'disable': k.disable_caching, 'enable': k.enable_caching}[t]()
                elif op['group']:
                    k = self.objs[op['group']].cache
                    {'reset': k.reset, 'disable': k.disable_caching, 'enable': k.enable_caching}[t]()
                else:
                    k = self.cobject(op['cs'][0])
                    {'reset': k.reset, 'disable': k.disable_cacher, 'enable': k.enable_cacher}[t]()
            elif t == 'copy':
                self.recording = False
                self.copy(op)
            elif t == 'calls':
                self.objs[op['o']].__dict__['calls'] = op['calls']
        except Exception as e:
            ev['err'] = '%s: %s' % (type(e).__name__, e)
        self.recording = False
        ev['out'], ev['ret'] = ev['rec'].get('out', 'ok'), ev['rec'].get('val', [])
        for c in self.cinfo:
            k = self.cobject(c)
            if k is None:
                continue
            for o, i in self.info.items():
                if i['ol'] and any(x[1] is k for x in self.objs[o].observers):
                    ev['regs'].append({'c': c, 'o': o})
        self.evs.append(ev)

    def copy(self, op):
        x = self.objs[op['o']]
        y = x.copy() if isinstance(x, Parameterized) else copy.deepcopy(x)
        y.tag = op['tag']
        if isinstance(y, Node):
            y.player = self
        old = self.info[op['o']]
        assert op['new'] == len(self.objs) + 1
        self.objs[op['new']] = y
        cells = [len(self.cells) + 1 + i for i in range(len(old['cells']))]
        self.cells += [0] * len(cells)
        self.info[op['new']] = {'kind': old['kind'], 'cells': cells, 'ol': op['new'] if old['ol'] else 0, 'anc': []}
        now = [op['tag']] + op['vals']
        op['ws'] = [{'c': c, 'v': v} for c, v in zip(cells, now)]
        op['cs'] = []
        for c in list(self.cinfo):
            i = self.cinfo[c]
            if i['owner'] == op['o']:
                n = len(self.cinfo) + 1
                self.cinfo[n] = dict(i, owner=op['new'], grp=op['new'])
                self.caches[n] = self.caches[c]
                op['cs'].append(n)

    def below_root(self, x):
        return self.root is not None and isinstance(x, Parameterized) and x.has_parent() and x._highest_parent_ is self.root

    def trace(self):
        return {'objs': [self.info[o] for o in sorted(self.info)], 'caches': [self.cinfo[c] for c in sorted(self.cinfo)],
                'cells': self.cells, 'evs': self.evs}


class _None(object):
    pass


NONE = _None()


def random_world(seed):
    r = random.Random(seed)
    p = Player()
    args = []
    for _ in range(r.randint(1, 3)):
        shape = r.choice([(2,), (3,), (2, 2), (1,)])
        o = p.array(np.array([r.randint(0, 5) for _ in range(int(np.prod(shape)))]).reshape(shape))
        args.append(o)
        if r.random() < .6:
            v = p.view(o, r.choice(['T', 'r', slice(0, 2), slice(None, None, 2), slice(1, None), slice(None), Ellipsis]))
            if v:
                args.append(v)
                if r.random() < .3:
                    v = p.view(v, r.choice(['T', 'r', slice(0, 1)]))
                    if v:
                        args.append(v)
    if r.random() < .4:
        args.append(p.thing([r.randint(0, 5)]))
    if r.random() < .5:
        before = len(p.objs)
        p.tree(r)
        mine = range(before + 1, len(p.objs) + 1)
        args += r.sample(list(mine), min(len(mine), 3))
        leaf = [o for o in mine if isinstance(p.objs[o], Param)]
        if leaf and r.random() < .5:
            v = p.view(r.choice(leaf), slice(0, 1))
            if v:
                args.append(v)
    atoms = [p.atom(k) for k in [0] + r.sample(range(1, len(ATOMS)), 4)]
    none = atoms[0]
    args += r.sample(atoms, r.randint(1, 3))
    if r.random() < .3:
        args.append(p.plain([r.randint(0, 5)], r.random() < .5))
    for _ in range(r.randint(1, 3)):
        mode = r.choice(['plain', 'plain', 'this', 'bound'])
        lim = r.choice([1, 1, 2, 2, 3, 5])
        force = r.choice([(), (), (), ('z',), ('y', 'z')])
        if mode == 'plain':
            p.cacher(mode, lim, r.choice([(), (), (), (0,), (1,), (2,), (0, 2)]), force, r.choice([0, 0] + atoms))
        else:
            own = [o for o in p.objs if isinstance(p.objs[o], (Tagged, TaggedObs)) or 'tag' in getattr(p.objs[o], '__dict__', {})]
            if own and r.random() < .5:
                owner = r.choice(own)
            else:
                k = r.random()
                tag = r.randint(100, 200)
                if k < .35:
                    owner = p.add(Tagged(tag), 'no')
                elif k < .6:
                    owner = p.add(TaggedObs(tag), 'obs')
                else:
                    n = Node('own')
                    n.link_parameter(Param('w', np.array([r.randint(0, 5), 1.])))
                    n.tag = tag
                    if r.random() < .6:         # below something nobody looks at
                        if p.root is None:
                            p.root = Parameterized('root')
                        p.root.link_parameter(n)
                    owner = p.add(n, 'obs')
                    n.player = p
            ign = r.choice([(), (), (1,), (2,)]) if mode == 'bound' else \
                r.choice([(0,), (0,), (0, 2), (0, 3)] + ([(), ()] if p.info[owner]['kind'] == 'obs' else []))
            p.cacher(mode, lim, ign, force, r.choice(atoms), owner)
    return p, r, args, none


def random_trace(seed, steps):
    p, r, args, none = random_world(seed)
    fav = r.sample(args, min(len(args), r.randint(2, 4)))

    def pick():
        return r.choice(fav if r.random() < .75 else args)
    last = []

    def acall(depth=0, among=None):
        if last and r.random() < .35 and among is None:
            return copy.deepcopy(dict(r.choice(last), nest=[]))
        c = r.choice(list(p.cinfo))
        i = p.cinfo[c]
        ch = (lambda: r.choice(among)) if among is not None else pick
        vals = {'x': ch(), 'y': ch()}
        # ignored positions count the arguments as they are given: give all of them then
        if i['defs'][-1] == 0 and i['mode'] != 'plain' or r.random() < .35 or (i['ign'] and i['mode'] != 'this'):
            vals['z'] = ch() if r.random() < .8 else none
        k = r.choice([0, 1, 2, 2, 2, 3])
        names = ['x', 'y', 'z']
        pos = [vals[n] for n in names[:k] if n in vals]
        kw = [{'k': n, 'o': vals[n]} for n in names[k:] if n in vals]
        r.shuffle(kw)
        if i['mode'] == 'this':
            pos = [i['owner']] + pos
        nest = []
        if depth < 2 and r.random() < .12:
            nest = [{'op': acall(depth + 1, among), 'sw': r.randint(0, 1)} for _ in range(r.randint(1, 2))]
        op = {'t': 'call', 'c': c, 'pos': pos, 'kw': kw, 'nest': nest}
        if among is None:
            last.append(op)
            del last[:-6]
        return op

    def val():
        k = r.random()
        return BAD if k < .06 else r.randint(0, 5)

    for _ in range(steps):
        k = r.random()
        if k < .58:
            p.step(acall())
        elif k < .85:
            if r.random() < .8:
                o = pick()
            else:
                o = r.choice([o for o in p.info if p.info[o]['kind'] in ('obs', 'no')])
            x = p.objs[o]
            i = p.info[o]
            if i['kind'] in ('atom', 'none') or isinstance(x, (Tagged, TaggedObs)) or 'tag' in getattr(x, '__dict__', {}):
                continue
            cur = content(x)
            n = len(cur)
            os = [o]
            new = [val() for _ in range(n)]
            if r.random() < .1:
                new = list(cur)
            op = {'t': 'write', 'o': o, 'how': 'set', 'vals': new}
            base = isinstance(x, (ObsAr,))
            if isinstance(x, Parameterized):
                os += [q for q in p.info if o in p.info[q]['anc']]
                op['how'] = r.choice(['set', 'opt'])
            elif base:
                h = r.choice(['set', 'set', 'one', 'one', 'iadd', 'imul', 'iadd2', 'attr', 'regex', 'notify'])
                if h in ('attr', 'regex') and not (isinstance(x, Param) and i['anc'] and any(q is x for q in x._parent_.parameters)):
                    h = 'set'
                if BAD in cur and h in ('iadd', 'imul', 'iadd2'):
                    h = 'set'
                op['how'] = h
                if h == 'one':
                    op['i'] = r.randrange(n)
                    op['vals'] = new[:1]
                    new = cur[:op['i']] + new[:1] + cur[op['i'] + 1:]
                elif h in ('iadd', 'iadd2'):
                    d = r.randint(-2, 2)
                    op['vals'] = [d]
                    new = [v + d for v in cur]
                elif h == 'imul':
                    d = r.choice([1, 2, -1]) if max(map(abs, cur)) < 10 ** 6 else 0
                    op['vals'] = [d]
                    new = [v * d for v in cur]
                elif h == 'notify':
                    new = list(cur)
                    op['vals'] = []
            elif isinstance(x, Thing) and r.random() < .2:
                op['how'], op['vals'] = 'notify', []
                new = list(cur)
            op['os'] = os
            op['ws'] = [{'c': c, 'v': v} for c, v in zip(i['cells'], new)]
            p.step(op)
        elif k < .95:
            t = r.choice(['reset', 'disable', 'enable', 'enable'])
            c = r.choice(list(p.cinfo))
            i = p.cinfo[c]
            x = p.objs[i['owner']] if i['owner'] else None
            if isinstance(x, Parameterized) and t != 'reset' and r.random() < .5:
                if x.has_parent() and r.random() < .6:
                    p.step({'t': t, 'group': 0, 'whole': -1, 'cs': [d for d in p.cinfo if p.cinfo[d]['owner']
                                                                   and p.below_root(p.objs[p.cinfo[d]['owner']])]})
                else:
                    p.step({'t': t, 'group': 0, 'whole': i['owner'], 'cs': [d for d in p.cinfo if p.cinfo[d]['owner'] == i['owner']]})
            elif r.random() < .5 and i['mode'] != 'plain' and hasattr(p.objs[i['owner']], 'cache'):
                p.step({'t': t, 'group': i['owner'], 'cs': [d for d in p.cinfo if p.cinfo[d]['owner'] == i['owner']]})
            elif p.cobject(c) is not None:
                p.step({'t': t, 'group': 0, 'cs': [c]})
        elif k < .975:
            nodes = [o for o in p.objs if isinstance(p.objs[o], Node) and 'tag' not in p.objs[o].__dict__]
            if nodes:
                o = r.choice(nodes)
                among = [o] + [q for q in p.info if o in p.info[q]['anc']]
                still = [q for q in args if not p.info[q]['anc'] and not isinstance(p.objs[q], Parameterized)]
                p.step({'t': 'calls', 'o': o, 'calls': [acall(1, among + still) for _ in range(r.randint(0, 2))]})
        else:
            own = sorted(set(i['owner'] for i in p.cinfo.values() if i['owner']))
            own = [o for o in own if not isinstance(p.objs[o], TaggedObs)]
            own = [o for o in own if all(k2 is None or k2.cacher_enabled for k2 in (p.cobject(c) for c in p.cinfo if p.cinfo[c]['owner'] == o))
                   and getattr(getattr(p.objs[o], 'cache', None), 'caching_enabled', True)]
            if own and len(p.cinfo) < 6:
                o = r.choice(own)
                p.step({'t': 'copy', 'o': o, 'new': len(p.objs) + 1, 'tag': r.randint(300, 400), 'vals': content(p.objs[o])[1:]})
    return p.trace()


def play_scripts(scripts):
    """the fixed objects of spec/CacheMC.tla"""
    out = []
    for limit, ops in scripts:
        p = Player()
        a = p.array([0, 0])
        p.view(a, slice(0, 1))
        p.array([0])
        p.atom(1)
        p.plain([0])
        p.cacher('plain', limit, (), ('z',))
        for op in ops:
            p.step(op)
        t = p.trace()
        t['evs'] = t['evs'][:]
        out.append(t)
    return out


def corrupt_for(pid):
    def corrupt(tr, rnd):
        t = copy.deepcopy(tr)
        for k in range(len(t['evs']) - 1, -1, -1):
            e = t['evs'][k]
            if e['op']['t'] != 'call' or e['rec']['out'] != 'ok':
                continue
            if pid == 'C08':
                if t['caches'][e['op']['c'] - 1]['ign'] or not e['rec']['val'][-2]:
                    continue
                e['rec']['val'][-2][0] += 1
            else:
                if e['rec']['runs'] or k > 50:
                    continue
                e['rec']['runs'] = [{'nested': []}, {'nested': []}]
            t['evs'] = t['evs'][:k + 1]
            return t
        return None
    return corrupt


def make(pid):
    def check(c):
        for cfg, limit, most in [('CacheMC', 2, c.n(3500, 60000)), ('CacheMC1', 1, 5000), ('CacheMC2', 2, c.n(1200, 60000))]:
            sc = [(limit, x) for x in tracecheck.scripts(c, 'CacheMC', 'the caching algorithm against the abstract cache', cfg=cfg + '.cfg')]
            if len(sc) > most:
                sc = random.Random(c.seed).sample(sc, most)
            trs = [t for part in runner.pmap(play_scripts, [(sc[k::16],) for k in range(16)]) for t in part]
            tracecheck.validate(c, 'CacheTrace', 'transitions of ' + cfg, trs, None, 'cache', chunk=20000, meta={'fields': FIELDS[pid]})
        trs = runner.pmap(random_trace, [(c.seed * 104729 + i, c.n(70, 120)) for i in range(c.n(800, 12000))])
        tracecheck.validate(c, 'CacheTrace', 'random histories', trs, corrupt_for(pid), 'cache', meta={'fields': FIELDS[pid]})
    return check
