"""Drives the real paramz objects with the operations of spec/Tree.tla and records what can be observed."""
import copy
import io
import operator
import os
import pickle
import re
import shutil
import signal
import tempfile
import warnings
import logging

import numpy as np

from harness import common  # noqa: F401  (puts /repo on the path)
import paramz
from paramz import Param, Parameterized, Model
from paramz.transformations import (Logexp, NegativeLogexp, Exponent, NegativeExponent, Square, Logistic, __fixed__)
from paramz.core.index_operations import ParameterIndexOperations
from paramz.optimization.optimization import Optimizer

BAD, NAN, PINF, NINF, ANY = 999999, 999998, 999997, 999996, 888888
BOUNDS = {'b1': (-.5, 4.5), 'b2': (-6.5, 2.5), 'b3': (-2.5, 8.5)}
KEYS = ['id', 'pos', 'neg', 'exp', 'nexp', 'sq', 'b1', 'b2', 'b3']


class Hang(BaseException):
    pass


class Watcher(object):
    """an observer of one object, registered by the harness"""
    def __init__(self, oid, obj, log):
        self.oid, self.obj, self.log = oid, obj, log

    def told(self, me, which=None):         # `me` may be a part of the object
        self.log.append({'o': self.oid, 'v': nums(self.obj.values if isinstance(self.obj, Param) else [])})


def _alarm(signum, frame):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)


def make_con(c):
    return {'pos': Logexp, 'neg': NegativeLogexp, 'exp': Exponent, 'nexp': NegativeExponent,
            'sq': Square}[c]() if c not in BOUNDS else Logistic(*BOUNDS[c])


def con_name(t):
    if isinstance(t, str):
        return 'fixed' if t == __fixed__ else str(t)
    n = type(t).__name__
    m = {'Logexp': 'pos', 'NegativeLogexp': 'neg', 'Exponent': 'exp', 'NegativeExponent': 'nexp', 'Square': 'sq'}
    if n in m:
        return m[n]
    if n == 'Logistic':
        for k, b in BOUNDS.items():
            if (t.lower, t.upper) == b:
                return k
    return 'other'


# independent reference formulas: from optimizer space to parameter space and back, and the slope
def ref_f(c, x):
    with np.errstate(all='ignore'):
        if c == 'id':
            return x
        if c == 'pos':
            return np.logaddexp(0, x)
        if c == 'neg':
            return -np.logaddexp(0, x)
        if c == 'exp':
            return np.exp(x)
        if c == 'nexp':
            return -np.exp(-x)
        if c == 'sq':
            return x * x
        lo, hi = BOUNDS[c]
        return lo + (hi - lo) / (1 + np.exp(-x))


def ref_finv(c, v):
    v = float(v)
    with np.errstate(all='ignore'):
        if c == 'id':
            return v
        if c == 'pos':
            return v + np.log(-np.expm1(-v))
        if c == 'neg':
            return -v + np.log(-np.expm1(v))
        if c == 'exp':
            return np.log(v)
        if c == 'nexp':
            return -np.log(-v)
        if c == 'sq':
            return np.sqrt(v)
        lo, hi = BOUNDS[c]
        return np.log((v - lo) / (hi - v))


def ref_slope(c, v):
    v = float(v)
    if c == 'id':
        return 1.
    if c == 'pos':
        return -np.expm1(-v)
    if c == 'neg':
        return np.expm1(v)
    if c == 'exp':
        return v
    if c == 'nexp':
        return -v
    if c == 'sq':
        return 2 * np.sqrt(v) if v >= 0 else np.nan
    lo, hi = BOUNDS[c]
    return (v - lo) * (hi - v) / float(hi - lo)


def num(x):
    """a number as the specification sees it"""
    try:
        x = float(x)
    except Exception:
        return BAD
    if np.isnan(x):
        return NAN
    if np.isinf(x):
        return PINF if x > 0 else NINF
    r = round(x)
    if abs(x - r) < 1e-6 and abs(r) < 800000:
        return int(r)
    return BAD


def nums(a):
    return [num(x) for x in np.asarray(a, dtype=float).ravel()]


def codes(s):
    return [ord(c) for c in s]


def text(cs):
    return ''.join(chr(c) for c in cs)


def re_text(r):
    k = r['r']
    if k == 'c':
        return re.escape(chr(r['c']))
    if k == 'any':
        return '.'
    if k == 'end':
        return '$'
    if k == 'star':
        return '(?:%s)*' % re_text(r['x'])
    if k == 'opt':
        return '(?:%s)?' % re_text(r['x'])
    if k == 'cat':
        return ''.join(re_text(x) for x in r['x'])
    if k == 'alt':
        return '(?:%s)' % '|'.join(re_text(x) for x in r['x'])
    if k == 'set':
        return '[%s]' % ''.join(re.escape(chr(c)) for c in r['s'])
    raise KeyError(k)


def sel_index(sel, shape):
    """a numpy index from a selection of spec/PySeq.tla"""
    if sel['full']:
        return np.array(sel['mask'], dtype=bool).reshape(shape)
    out = []
    for a in sel['at']:
        if a['t'] == 's':
            out.append(slice(a['a'] if a['ha'] else None, a['b'] if a['hb'] else None, a['k']))
        elif a['t'] == 'n':
            out.append(int(a['v']))
        elif a['t'] == 'i':
            out.append(np.array(a['v'], dtype=int) if not sel.get('aslist') else list(a['v']))
        elif a['t'] == 'm':
            out.append(np.array(a['v'], dtype=bool))
        elif a['t'] == 'e':
            out.append(Ellipsis)
    return out[0] if len(out) == 1 and not sel.get('tuple') else tuple(out)


CURRENT = None


def _called(node):
    w = CURRENT
    if w is not None:
        w.log.append((node, node.param_array.copy(), len(w.log)))
        if w.hook is not None:
            w.hook(node)


class Node(Parameterized):
    def parameters_changed(self):
        _called(self)


class MNode(Model):
    """a model whose gradients are the stored ones and whose objective is the sum of the values"""
    def __init__(self, name):
        super(MNode, self).__init__(name)

    def parameters_changed(self):
        _called(self)

    def objective_function(self):
        return float(np.sum(self.param_array))


class Built(object):
    """a class which sets up its parts when it is created"""
    def __init__(self, name, build):
        super(Built, self).__init__(name)
        w, n, op = build
        w.register(n, self)
        if w.with_tags:
            self.add_index_operation('tags', ParameterIndexOperations())
        for x in op['subs']:
            getattr(w, 'op_' + x['t'])(x)


class BNode(Built, Node):
    pass


class BModel(Built, MNode):
    pass


INPLACE = {'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul, 'quo': operator.ifloordiv, 'mod': operator.imod, 'div': operator.itruediv,
           'pow': operator.ipow}


class PSub(Param):
    """a user defined leaf"""
    pass


class Grab(Optimizer):
    """an optimizer which asks for the gradient at its start, and again while it is another one"""
    def opt(self, x_init, f_fp=None, f=None, fp=None):
        x = np.array(x_init)
        self.x_opt = np.array(x)
        self.got = f_fp(x)[1] if self.via in ('b', 'c') else fp(x)
        g = self.model.gradient
        was = np.array(g)
        g[:] = g * 2 + 1
        try:
            f_fp(x) if self.via in ('a', 'b') else fp(x)
        finally:
            g[:] = was
        self.f_opt = 0.
        self.trace = [0.]


class World(object):
    def __init__(self, pool, fields, tags=('g1', 'g2'), timeout=10):
        global CURRENT
        CURRENT = None
        self.pool = pool
        self.fields = [f for f in fields if f != 'nt']
        self.watch = 'nt' in fields
        self.nt = []
        self.objs = {}
        self.ids = {}
        self.hook = None
        self.log = []
        self.timeout = timeout
        self.dead = False
        self.evs = []
        self.keep = []
        CURRENT = self
        self.with_tags = 'tag' in fields
        self.rng = np.random.RandomState(0)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for i, p in enumerate(pool):
                self.register(i + 1, self.make(p))
        self.log = []

    def make(self, p):
        name = text(p['name'])
        if p['leaf']:
            a = np.array(p['val'], dtype=float).reshape(p['shape'])
            cls = PSub if p.get('cls') == 'sub' else Param
            o = cls(name, a, make_con(p['dc'])) if p['dc'] != 'none' else cls(name, a)
        else:
            cls = MNode if p.get('cls') == 'model' else Node
            o = cls(name) if p['ini'] else cls(name, initialize=False)
        if self.with_tags:
            o.add_index_operation('tags', ParameterIndexOperations())
        return o

    def register(self, oid, o):
        self.objs[oid] = o
        self.ids[id(o)] = oid
        self.keep.append(o)
        if self.watch:
            x = Watcher(oid, o, self.nt)
            self.keep.append(x)
            o.add_observer(x, x.told, 1)

    def oid(self, o):
        if o is None:
            return 0
        return self.ids.get(id(o), -1)

    # -- targets ------------------------------------------------------------
    def handle(self, t):
        o = self.objs[t['o']]
        if t['k'] == 'o':
            return o
        if t['k'] == 's':
            return o[sel_index(t['sel'], o.shape)]
        h = o[self.regex(t)]
        if t['k'] == 'r':
            return h
        return h[sel_index(t['sel'], None)]

    def regex(self, t):
        s = re_text(t['re'])
        return re.compile(s) if t.get('compiled') else s

    def value(self, v, like=None):
        if len(v) == 1:
            return float(v[0])
        a = np.array(v, dtype=float)
        return a if like is None else a.reshape(np.shape(like))

    # -- operations -----------------------------------------------------------
    def op_link(self, op):
        p, c = self.objs[op['p']], self.objs[op['c']]
        if op['at']:
            p.link_parameter(c, op['i'])
        elif op.get('via') == 'many':
            p.link_parameters(c)
        else:
            p.link_parameter(c)

    def op_unlink(self, op):
        self.objs[op['p']].unlink_parameter(self.objs[op['c']])

    def op_set(self, op):
        t, v = op['h'], op['v']
        o = self.objs[t['o']]
        via = op.get('via', '')
        if t['k'] == 'o':
            if via == 'attr' and o.has_parent():
                p = o._parent_
                nm = paramz.core.nameable.adjust_name_for_printing(o.name)
                if getattr(p, nm, None) is o:
                    setattr(p, nm, self.value(v, o if o in p.parameters and hasattr(o, 'shape') else None))
                    return
            if isinstance(o, Param):
                if via == 'ell':
                    o[...] = self.value(v, o)
                else:
                    o[:] = self.value(v, o)
            elif via == 'arr':
                o[np.arange(o.size)] = self.value(v)
            else:
                o[:] = self.value(v)
        elif t['k'] == 's':
            ix = sel_index(t['sel'], o.shape)
            o[ix] = self.value(v, o.values[ix])
        elif t['k'] == 'r':
            m = o.grep_param_names(self.regex(t)) if len(v) > 1 else []
            v = self.value(v, m[0].values if len(m) == 1 and isinstance(m[0], Param) else None)
            if via == 'handle':
                o[self.regex(t)][:] = v
            else:
                o[self.regex(t)] = v
        else:
            h = o[self.regex(t)]
            ix = sel_index(t['sel'], None)
            h[ix] = self.value(v)

    def op_shift(self, op):
        t = op['h']
        o = self.objs[t['o']]
        d = float(op['d'])
        f = INPLACE[op['f']]
        if t['k'] == 'o':
            o = f(o, d)
        elif t['k'] == 's':
            ix = sel_index(t['sel'], o.shape)
            o[ix] = f(o[ix], d)
        elif t['k'] == 'r':
            r = self.regex(t)
            if op.get('via') == 'handle':
                h = o[r]
                f(h, d)
            else:
                o[r] = f(o[r], d)
        else:
            h = o[self.regex(t)]
            ix = sel_index(t['sel'], None)
            h[ix] = f(h[ix], d)

    def op_build(self, op):
        n = len(self.objs) + 1
        if op['via'] == 'ctor':
            kw = {} if op['ini'] else {'initialize': False}
            self.register(n, Node(text(op['nm']), parameters=[self.objs[x['c']] for x in op['subs']], **kw))
            return
        kw = {} if op['ini'] else {'initialize': False}
        (BModel if op['via'] == 'model' else BNode)(text(op['nm']), build=(self, n, op), **kw)

    def op_rawset(self, op):
        o = self.objs[op['o']]
        o.param_array.flat[np.array(op['ix'], dtype=int)] = self.value(op['v'])

    def op_nodeset(self, op):
        o = self.objs[op['o']]
        o[sel_index(op['sel'], None)] = self.value(op['v'])

    def op_constrain(self, op):
        h, c, via = self.handle(op['h']), op['c'], op.get('via', '')
        if c == 'bogus':
            h.constrain('no constraint')
        elif via == 'conv' and c == 'pos':
            h.constrain_positive(warning=False)
        elif via == 'conv' and c == 'neg':
            h.constrain_negative(warning=False)
        elif via == 'conv' and c in BOUNDS:
            h.constrain_bounded(*BOUNDS[c], warning=False)
        else:
            h.constrain(make_con(c), warning=False)

    def op_unconstrain(self, op):
        h, cs, via = self.handle(op['h']), op['cs'], op.get('via', '')
        if via == 'conv' and cs == ['pos']:
            h.unconstrain_positive()
        elif via == 'conv' and cs == ['neg']:
            h.unconstrain_negative()
        elif via == 'conv' and len(cs) == 1 and cs[0] in BOUNDS:
            h.unconstrain_bounded(*BOUNDS[cs[0]])
        else:
            h.unconstrain(*[__fixed__ if c == 'fixed' else make_con(c) for c in cs])

    def op_fix(self, op):
        h = self.handle(op['h'])
        via = op.get('via', '')
        if op['hv']:
            v = self.value(op['v'], h if isinstance(h, Param) else None)
            h.constrain_fixed(v, warning=False) if via == 'long' else h.fix(v)
        elif via == 'con' and not isinstance(h, paramz.param.ParamConcatenation):
            h.constrain(__fixed__, warning=False)
        elif via == 'long':
            h.constrain_fixed(warning=False)
        else:
            h.fix()

    def op_unfix(self, op):
        h = self.handle(op['h'])
        h.unconstrain_fixed() if op.get('via') == 'long' else h.unfix()

    def op_tag(self, op):
        self.objs[op['o']].tags.add(op['g'], np.array(op['ix'], dtype=int))

    def op_untag(self, op):
        self.objs[op['o']].tags.remove(op['g'], np.array(op['ix'], dtype=int))

    def goals(self, op):
        """the values to aim at, if the operation does not list them"""
        if 'cv' in op:
            return
        o = self.objs[op['o']]
        ps = self.positions(o, o.constraints, con_name)
        cs = [[c for c in p if c != 'fixed'] for p in ps if 'fixed' not in p]
        op['cv'] = [[c[0] if c else 'id', {'neg': -3, 'b1': 2}.get(c[0] if c else 'id', 3)] for c in cs]

    def op_setopt(self, op):
        o = self.objs[op['o']]
        self.goals(op)
        x = np.array([ref_finv(k, v) for k, v in op['cv']], dtype=float)
        op['x'] = [dict((k, num(ref_f(k, y))) for k in KEYS) for y in x]
        o.optimizer_array = x

    def op_randomize(self, op):
        o = self.objs[op['o']]
        self.goals(op)
        x = np.array([ref_finv(k, v) for k, v in op['cv']], dtype=float)
        op['x'] = [dict((k, num(ref_f(k, y))) for k in KEYS) for y in x]

        def gen(size):
            if np.prod(size) != x.size:
                raise RuntimeError('asked for %s numbers' % (size,))
            return x.copy()
        o.randomize(gen)

    def op_updates(self, op):
        self.objs[op['o']].update_model(bool(op['on']))

    def op_toggle(self, op):
        self.objs[op['o']].update_toggle()

    def op_trigger(self, op):
        self.objs[op['o']].trigger_update()

    def op_setgrad(self, op):
        o = self.objs[op['o']]
        ix = sel_index(op['sel'], o.shape if isinstance(o, Param) else None)
        v = op['v']
        if op.get('via') == 'attr':     # the whole gradient by attribute
            o.gradient = self.value(v, o if isinstance(o, Param) else None)
        elif isinstance(o, Param):
            o.gradient[ix] = self.value(v, o.values[ix])
        elif op.get('via') == 'full':
            o.gradient_full[ix] = self.value(v)
        else:
            o.gradient[ix] = self.value(v)

    def op_rename(self, op):
        self.objs[op['o']].name = text(op['nm'])

    def op_copy(self, op):
        o = self.objs[op['o']]
        via = op.get('via', 'copy')
        if via == 'pickle':
            c = pickle.loads(pickle.dumps(o, op.get('proto', -1)))
        elif via == 'file':
            b = io.BytesIO()
            o.pickle(b)
            b.seek(0)
            c = pickle.load(b)
        elif via == 'load':
            b = io.BytesIO(pickle.dumps(o))
            c = paramz.load(b)
        elif via == 'path':
            d = tempfile.mkdtemp(prefix='pickled_')
            try:
                o.pickle(os.path.join(d, 'x'), op.get('proto', -1))
                c = paramz.load(os.path.join(d, 'x'))
            finally:
                shutil.rmtree(d, ignore_errors=True)
        elif via == 'deepcopy':
            c = copy.deepcopy(o)
        else:
            c = o.copy()
        seq = []

        def pre(x):
            seq.append(x)
            for k in x.parameters:
                pre(k)
        pre(c)
        n = len(self.objs)
        for i, x in enumerate(seq):
            if id(x) in self.ids:
                raise RuntimeError('the copy contains an original object')
            self.register(n + i + 1, x)

    def op_initialize(self, op):
        self.objs[op['o']].initialize_parameter()

    # queries
    def op_getopt(self, op):
        return [dict((k, num(ref_f(k, y))) for k in KEYS) for y in np.array(self.objs[op['o']].optimizer_array)]

    def op_optgrad(self, op):
        o = self.objs[op['o']]
        g = Grab()
        g.via = op.get('via', 'n')
        o.optimize(g)
        got = np.array(g.got, dtype=float)
        vs = list(range(-12, 13))
        with np.errstate(all='ignore'):
            return [dict((k, [num(y / ref_slope(k, v)) for v in vs]) for k in KEYS) for y in got]

    def op_unfixed(self, op):
        return [num(x) for x in np.ravel(self.objs[op['o']].unfixed_param_array)]

    def op_flatnames(self, op):
        out = []
        for s in self.objs[op['o']].parameter_names_flat(include_fixed=bool(op['all'])):
            s = str(s)
            m = re.match(r'^(.*?)\[\[?\(?([-0-9, ]+)\)?\]?\]$', s)
            if m:
                out.append({'n': codes(m.group(1)), 'i': [int(x) for x in re.findall(r'-?\d+', m.group(2))]})
            else:
                out.append({'n': codes(s), 'i': []})
        return out

    def op_pnames(self, op):
        ns = self.objs[op['o']].parameter_names(add_self=bool(op['slf']), adjust_for_printing=bool(op['adj']),
                                                recursive=bool(op['rec']))
        return [codes(x) for x in ns]

    def op_rawname(self, op):
        return codes(self.objs[op['o']].hierarchy_name(adjust_for_printing=False))

    def op_fixedat(self, op):
        return [1 if self.handle(op['h']).is_fixed else 0]

    def op_isfixed(self, op):
        return [1 if self.objs[op['o']].is_fixed else 0]

    def op_read(self, op):
        q = op['q']
        o = self.objs[q['o']]
        if q['k'] == 'o':
            return nums(o.values if isinstance(o, Param) else o[:])
        h = self.handle(q)
        return nums(h.values() if isinstance(h, paramz.param.ParamConcatenation) else
                    (h.param_array if hasattr(h, 'param_array') else h))

    def op_compare(self, op):
        q = op['q']
        h = self.handle(q)
        v = self.value(op['v'], h if not isinstance(h, (paramz.param.ParamConcatenation, Parameterized)) else None)
        f = op['f']
        r = {'lt': lambda: h < v, 'le': lambda: h <= v, 'gt': lambda: h > v, 'ge': lambda: h >= v,
             'eq': lambda: h == v, 'ne': lambda: h != v}[f]()
        return [1 if b else 0 for b in np.asarray(r).ravel()]

    def op_grep(self, op):
        return [self.oid(x) for x in self.objs[op['o']].grep_param_names(self.regex(op))]

    def op_trav(self, op):
        o, seen = self.objs[op['o']], []
        if op['dir'] == 'flat':
            return [self.oid(x) for x in o.flattened_parameters]
        if op['dir'] == 'num':
            return [int(o.num_params)]

        def visit(x, *a, **kw):
            if a != (1,) or kw != {'k': 2}:
                raise RuntimeError('arguments of the visitor')
            if len(seen) == op['stop'] > 0:
                raise StopIteration
            seen.append(self.oid(x))
        try:
            (o.traverse if op['dir'] == 'down' else o.traverse_parents)(visit, 1, k=2)
        except StopIteration:
            pass
        return seen

    def op_save(self, op):
        """the HDF5 library is not installed: a stand-in notes what is written"""
        sets, state = [], {'open': 0}

        class File(object):
            def __init__(self, name, mode):
                state['open'] += 1

            def create_dataset(self, name, shape, dtype=None):
                if name in [n for n, _ in sets]:
                    raise ValueError('name already exists')
                a = np.full(shape, np.nan, dtype=dtype)
                sets.append((name, a))
                return a

            def close(self):
                state['open'] -= 1
        import sys
        mod = type(sys)('h5py')
        mod.File = File
        old = sys.modules.get('h5py')
        sys.modules['h5py'] = mod
        try:
            self.objs[op['o']].save('not a file')
        finally:
            if old is None:
                del sys.modules['h5py']
            else:
                sys.modules['h5py'] = old
        if state['open']:
            raise RuntimeError('the file was not closed')
        r = [{'n': codes(n), 'shape': list(a.shape), 'v': nums(a)} for n, a in sets if n != 'param_array']
        return {'sets': r, 'all': sum([nums(a) for n, a in sets if n == 'param_array'], [])}

    def op_sib(self, op):
        """which objects an attribute name stands for"""
        o = self.objs[op['o']]
        return [self.oid(getattr(o, text(op['nm']), None))]

    # printed tables
    def op_print(self, op):
        h = self.handle(op['h'])
        html = op['html'] and hasattr(h, '_repr_html_')
        op['html'] = int(bool(html))
        head = []
        if html:
            s = h._repr_html_()
            if isinstance(h, Model):
                head = [self.header(re.findall(r'<b>(.*?)</b>: (.*?)<br>', s))]
            rows = [[re.sub(r'<.*?>', '', x).strip() for x in re.findall(r'<t[dh].*?>(.*?)</t[dh]>', r, re.S)]
                    for r in re.findall(r'<tr>(.*?)</tr>', s, re.S)]
        else:
            s = re.sub('\x1b[[][0-9;]*m', '', h.__str__() if op.get('vt', 1) or isinstance(h, paramz.param.ParamConcatenation) else h.__str__(VT100=False))
            lines = s.split('\n')
            if isinstance(h, Model):
                k = lines.index('Parameters:')
                head = [self.header([re.match(r'(.*?) +: (.*)$', x).groups() for x in lines[:k] if x.strip()])]
                lines = lines[k + 1:]
            rows = [[x.strip() for x in r.split('  |  ')] for r in lines]
        if isinstance(h, Parameterized):
            return {'head': head, 'tables': [self.table(rows, False)]}
        groups = []
        for r in rows:
            if r[0] == 'index' or set(r[0]) == set('-'):
                groups.append([r])
            else:
                groups[-1].append(r)
        cols = groups[0][0][2:]
        return {'head': head, 'tables': [self.table(g, True, cols) for g in groups]}

    def header(self, pairs):
        d = dict(pairs)
        name = [v for k, v in pairs if k in ('Name', 'Model')]
        return {'name': codes(name[0].replace('<br>', '')), 'f': num(d['Objective']), 'n': num(d['Number of Parameters']),
                'free': num(d['Number of Optimization Parameters']), 'upd': {'True': 1, 'False': 0}.get(d['Updates'], BAD)}

    def table(self, rows, detail, cols=None):
        top, out = rows[0], []
        cols = cols or top[2:]
        if sorted(cols) != sorted(['constraints'] + ['tags'] * self.with_tags):
            raise RuntimeError('columns %s' % cols)
        if not detail and top[1] != 'value':
            raise RuntimeError('header %s' % top)
        for r in rows[1:]:
            cells = dict(zip(cols, r[2:]))
            if len(r) != len(cols) + 2:
                raise RuntimeError('row %s' % r)
            row = {'n': [int(x) for x in re.findall(r'-?\d+', r[0])] if detail else codes(r[0])}
            shape = re.match(r'^\((.*)\)$', r[1])
            row['v'] = [] if shape else [num(r[1].strip('[] '))]
            row['shape'] = [int(x) for x in re.findall(r'\d+', shape.group(1))] if shape else []
            row['con'] = self.cell(cells['constraints'])
            row['tag'] = self.cell(cells['tags']) if self.with_tags else []
            out.append(row)
        return {'h': codes(top[1] if detail else top[0]), 'rows': out}

    def cell(self, x):
        known = ['+ve', '-ve', '+sq', 'b1', 'b2', 'b3', 'fixed', 'g1', 'g2']
        out = []
        for t in x.split():
            part = t.startswith('{') and t.endswith('}')
            t = t[1:-1] if part else t
            for k, b in BOUNDS.items():
                if t == '%s,%s' % b:
                    t = k
            out.append({'c': t, 'all': 0 if part else 1})
        return sorted(out, key=lambda e: (known.index(e['c']) if e['c'] in known else 99, -e['all']))

    def op_noop(self, op):
        pass

    # -- observation --------------------------------------------------------------
    def positions(self, o, iop, one):
        n = o.size
        out = [[] for _ in range(n)]
        for prop, ind in iop.items():
            nm = one(prop)
            for i in np.asarray(ind).ravel():
                i = int(i)
                if not 0 <= i < n:
                    raise RuntimeError('index %d of %s outside of 0..%d' % (i, nm, n - 1))
                out[i].append(nm)
        return out

    def observe(self, full=True):
        """what can be seen; looking at arrays connects or creates them, so not every step looks at everything"""
        obs = {}
        order = sorted(self.objs)
        F = self.fields if full else [f for f in self.fields if f in ('par', 'kids', 'name', 'attr')]
        for f in F:
            obs[f] = []
        for i in order:
            o = self.objs[i]
            leaf = isinstance(o, Param)
            for f in F:
                if f == 'par':
                    par = o._parent_ if o.has_parent() else None
                    r = self.oid(par)
                elif f == 'kids':
                    r = [self.oid(k) for k in o.parameters]
                elif f == 'pix':     # parent_index
                    r = -1 if o._parent_index_ is None else int(o._parent_index_)
                elif f == 'size':
                    r = int(o.size)
                elif f == 'val':
                    r = nums(o.values if leaf else o.param_array)
                    if leaf:
                        if list(o.shape) != list(self.shape_of(i)):
                            raise RuntimeError('shape of %s is %s' % (o.name, o.shape))
                        if nums(o.param_array) != r:
                            raise RuntimeError('param_array of %s differs' % o.name)
                    elif not o._model_initialized_:
                        r = []
                elif f == 'con':
                    r = [[c for c in cs if c != 'fixed'] for cs in self.positions(o, o.constraints, con_name)]
                elif f == 'fix':
                    ps = self.positions(o, o.constraints, con_name)
                    r = [1 if 'fixed' in cs else 0 for cs in ps]
                elif f == 'tag':
                    r = [sorted(x) for x in self.positions(o, o.tags, str)]
                    for x in r:
                        if len(set(x)) != len(x):
                            raise RuntimeError('tag twice')
                elif f == 'grd':
                    r = nums(o.gradient)
                    if leaf and list(o.gradient.shape) != list(self.shape_of(i)):
                        raise RuntimeError('gradient of %s has shape %s' % (o.name, o.gradient.shape))
                elif f == 'upd':
                    r = 1 if o.update_model() else 0
                elif f == 'name':
                    r = codes(o.name)
                elif f == 'hname':
                    r = codes(o.hierarchy_name())
                elif f == 'attr':
                    r = []
                    if not leaf:
                        for k, v in sorted(o.__dict__.items()):
                            if k not in ('_parent_', '_original_', '_highest_parent_') and isinstance(v, (Param, Parameterized)):
                                r.append([codes(k), self.oid(v)])
                else:
                    raise KeyError(f)
                obs[f].append(r)
        return obs

    def shape_of(self, i):
        if i <= len(self.pool):
            return self.pool[i - 1]['shape']
        return self.shapes_extra[i]

    shapes_extra = {}

    # -- one event -----------------------------------------------------------------
    def step(self, op, observe=True):
        """perform an operation, record what happened; False if nothing more can be done"""
        global CURRENT
        CURRENT = self
        if self.dead:
            return False
        self.log = []
        self.nt[:] = []
        ev = {'op': op, 'out': 'ok', 'ret': [], 'err': ''}
        if op['t'] == 'copy':
            self.note_copy(op)
        elif op['t'] == 'build':
            self.shapes_extra = dict(self.shapes_extra)
            self.shapes_extra[len(self.objs) + 1] = []
        signal.alarm(self.timeout)
        try:
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                try:
                    r = getattr(self, 'op_' + op['t'])(op)
                    if r is not None:
                        ev['ret'] = r
                except Hang:
                    raise
                except Exception as e:
                    ev['out'] = type(e).__name__
                    ev['msg'] = str(e)[:200]
                log, self.log = self.log, []
                if self.watch:
                    ev['nt'], self.nt[:] = list(self.nt), []
                ev['pc'] = []
                for node, v, _ in log:
                    ev['pc'].append({'o': self.oid(node), 'v': nums(v)})
                if op['t'] == 'copy':      # objects which are not part of the result
                    ev['pc'] = [p for p in ev['pc'] if p['o'] != -1]
                try:
                    ev['obs'] = self.observe(observe)
                except Hang:
                    raise
                except Exception as e:
                    ev['err'] = 'observing: %s: %s' % (type(e).__name__, str(e)[:200])
                log, self.log = self.log, []
                if log or self.nt:
                    ev['err'] = ev['err'] or 'observing ran callbacks'
                self.nt[:] = []
        except Hang:
            ev['err'] = 'does not return'
        finally:
            signal.alarm(0)
        if ev['err']:
            ev.setdefault('pc', [])
            ev.setdefault('obs', {})
            self.dead = True
        self.evs.append(ev)
        return not self.dead

    def note_copy(self, op):
        """shapes of the leaves that a copy adds, from the pool (not from the copied objects)"""
        seq = []

        def pre(i, depth=0):
            seq.append(i)
            o = self.objs[i]
            if depth < 50:
                for k in o.parameters:
                    if self.oid(k) > 0:
                        pre(self.oid(k), depth + 1)
        pre(op['o'])
        n = len(self.objs)
        self.shapes_extra = dict(self.shapes_extra)
        for j, i in enumerate(seq):
            self.shapes_extra[n + j + 1] = self.shape_of(i)

    def trace(self):
        # the specification calls the target of an operation `t`, its kind `t` too: see encode
        return {'pool': self.pool, 'evs': self.evs}
