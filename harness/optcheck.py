"""C13, C14, C20: optimizing a model, against spec/Failures.tla, spec/Optimize.tla and spec/SCG.tla."""
import contextlib
import builtins
import copy
import functools
import io
import random
import os
import re
import sys
import tempfile
import time
import types
import warnings

import numpy as np

from harness import common, runner, tracecheck  # noqa
import paramz
from paramz import Model, Param, Parameterized
from paramz.optimization import Optimizer, get_optimizer
from paramz.transformations import Transformation


class Singular(np.linalg.LinAlgError):
    pass


ERRORS = {'LinAlgError': np.linalg.LinAlgError, 'ZeroDivisionError': ZeroDivisionError, 'ValueError': ValueError,
          'UnicodeError': UnicodeError, 'Singular': Singular, 'KeyError': KeyError, 'FloatingPointError': FloatingPointError,
          'OverflowError': OverflowError, 'TypeError': TypeError, 'RuntimeError': RuntimeError}


def scale(k):
    def f(self, x):
        return k * x

    def finv(self, v):
        return v / float(k)

    def gradfactor(self, v, df):
        return df * k

    def initialize(self, v):
        return v
    name = 'Scale%d' % (k + 100)
    globals()[name] = c = type(name, (Transformation,), {'__module__': __name__, 'f': f, 'finv': finv, 'gradfactor': gradfactor, 'initialize': initialize,
                                                          'domain': 'real', '__str__': lambda self: '*%d' % k})
    return c()


SCALES = {k: scale(k) for k in (-2, -1, 2, 4)}


def num(x, bound=1e9):
    """the number as the specification writes it"""
    x = float(x)
    if x != x:
        return 'nan'
    if abs(x) == np.inf:
        return 'inf' if x > 0 else '-inf'
    s = '' if x > 0 else '-'
    if abs(x) > 1.0001e100:
        return s + 'huge'
    if abs(x) > bound:
        return s + 'big'
    if x == int(x):
        return '%d' % int(x)
    return repr(x)


class Quad(Model):
    """sum w v^2 over the values of two leaves, one of them further down"""
    odd = ''

    def __init__(self, w, v, k, split, big, stored):
        super(Quad, self).__init__('quad')
        self.w, self.big, self.stored = np.array(w, float), big, stored
        self.plan, self.once = {'u': '', 'o': '', 'g': ''}, False
        self.updates = []
        v = np.array(v, float)
        self.a = Param('a', v[:split])
        self.link_parameter(self.a)
        if split < len(v):
            self.n = Parameterized('n')
            self.n.b = Param('b', v[split:])
            self.n.link_parameter(self.n.b)
            self.link_parameter(self.n)
        self.k, self.split = k, split

    def bind(self):
        for i, x in enumerate(self.k):
            leaf, j = (self.a, i) if i < self.split else (self.n.b, i - self.split)
            if x == 0:
                leaf[j:j + 1].fix()
            elif x != 1:
                leaf[j:j + 1].constrain(SCALES[x])
        return self

    def fail(self, stage):
        e = self.plan[stage]
        if e:
            if self.once:
                self.plan[stage] = ''
            raise ERRORS[e]('asked to')

    def values(self):
        return [int(x) if x == int(x) else repr(float(x)) for x in self.param_array]

    def true(self):
        v = np.array(self.param_array, float)
        return float((self.w * v ** 2).sum()), 2 * self.w * v * (1e200 if self.big else 1.)

    def parameters_changed(self):
        self.fail('u')
        if self.stored:
            self.gradient = self.true()[1]

    def objective_function(self):
        self.fail('o')
        return float(self.odd) if self.odd else self.true()[0]

    def objective_function_gradients(self):
        self.fail('g')
        return self.gradient if self.stored else self.true()[1]


def quiet(f):
    @functools.wraps(f)
    def g(*a):
        with warnings.catch_warnings(), np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            return f(*a)
    return g


# ---------------------------------------------------------------------------- C14
class Evals(Optimizer):
    def __init__(self, ops, note):
        super(Evals, self).__init__()
        self.opt_name, self.ops, self.note = 'evals', ops, note

    def opt(self, x_init, f_fp=None, f=None, fp=None):
        self.x_opt, self.f_opt, self.funct_eval, self.status = np.array(x_init), 0., 1, 'done'
        while self.ops:
            op = self.ops.pop(0)
            m = self.model
            m.plan = {s: op[s] for s in 'uog'}
            m.once, m.odd = bool(op['once']), op['odd']
            x = np.array(op['x'], float)
            ret = {'f': '', 'g': []}
            try:
                if op['kind'] == 'both':
                    a, b = f_fp(x)
                elif op['kind'] == 'obj':
                    a, b = f(x), []
                else:
                    a, b = '', fp(x)
                ret = {'f': '' if isinstance(a, str) else num(a, 1e300), 'g': [num(y) for y in b]}
                out = 'failed' if m.met else 'ok'
            except Exception as e:
                self.note(op, type(e).__name__, {'f': '', 'g': []})
                raise
            finally:
                m.plan, m.odd = {s: '' for s in 'uog'}, ''
            self.note(op, out, ret)


class Watch(Quad):
    met = False

    def fail(self, stage):
        if self.plan[stage]:
            self.met = True
        super(Watch, self).fail(stage)


@quiet
def play_failures(m, ops, style):
    """evaluations of the model asked for by an optimizer, restarted after each error that reaches it"""
    model = Watch(m['w'], m['v'], m['k'], m['split'], m['big'], style % 2).bind()
    if m['limit'] != 10:
        model._allowed_failures = m['limit']
    evs = []
    todo = [dict(o) for o in ops]

    def note(op, out, ret):
        evs.append({'op': dict(op, t='eval'), 'out': out, 'ret': ret, 'vals': model.values(), 'err': ''})
        model.met = False
    tries = 0
    while todo and tries < len(ops) + 2:
        tries += 1
        # runs of different lengths
        n = len(todo) if style % 3 == 0 else min(len(todo), 1 + style % 5)
        part, todo = todo[:n], todo[n:]
        out = 'ok'
        k = len(evs)
        try:
            model.optimize(optimizer=Evals(part, note))
        except Exception as e:
            out = type(e).__name__
            if len(evs) > k and evs[-1]['out'] == out:
                out = 'ok'
        todo = part + todo
        evs.append({'op': {'t': 'end'}, 'out': out, 'ret': {'f': '', 'g': []}, 'vals': model.values(), 'err': ''})
    return dict(m, style=style, evs=evs)


def some_model(r, limit):
    n = r.randint(1, 5)
    k = [r.choice([0, 1, 1, 2, -2, -1, 4]) for _ in range(n)]
    if not any(k):
        k[r.randrange(n)] = 1
    v = [r.randint(1, 9) * 4 for _ in range(n)]
    return {'w': [r.randint(1, 5) for _ in range(n)], 'v': v, 'k': k, 'split': r.randint(1, n), 'big': int(r.random() < .25), 'limit': limit}


def points(r, m, ops):
    n = sum(1 for x in m['k'] if x)
    last = [None] * n
    for o in ops:
        o['x'] = last = [r.choice([y for y in range(-9, 10) if y != z and y]) for z in last]
        o['once'] = int(r.random() < .3)
        # objectives can be infinite or undefined without having failed
        o['odd'] = r.choice(['inf', '-inf', 'nan']) if o['kind'] != 'grads' and r.random() < .25 else ''
    return ops


def failure_scripts(seed, scripts, limit):
    r = random.Random(seed)
    out = []
    for sc in scripts:
        m = some_model(r, limit)
        ops = points(r, m, [{s: o[s] for s in ('kind', 'u', 'o', 'g')} for o in sc])
        out.append(play_failures(m, ops, r.randrange(30)))
    return out


def failure_random(seed, steps):
    r = random.Random(seed)
    m = some_model(r, r.choice([10, 10, 10, 0, 3, 15]))
    ops = []
    p = r.choice([.5, .9, .97])
    for _ in range(steps):
        o = {'kind': r.choice(['obj', 'grads', 'both']), 'u': '', 'o': '', 'g': ''}
        if r.random() < p:
            numeric = r.random() < .95
            e = lambda: r.choice(['LinAlgError', 'ZeroDivisionError', 'ValueError', 'UnicodeError', 'Singular'] if numeric else
                                 ['KeyError', 'FloatingPointError', 'OverflowError', 'TypeError', 'RuntimeError'])
            s = r.choice('uoog' if o['kind'] == 'both' else 'uoo' if o['kind'] == 'obj' else 'ug')
            o[s] = e()
            if numeric and s != 'g' and o['kind'] != 'obj' and r.random() < .3:
                o['g'] = e()
        ops.append(o)
    return play_failures(m, points(r, m, ops), r.randrange(30))


def corrupt_failures(tr, rnd):
    t = copy.deepcopy(tr)
    ks = [i for i, e in enumerate(t['evs']) if e['op']['t'] == 'eval' and e['out'] in ('ok', 'failed')]
    if not ks:
        return None
    e = t['evs'][rnd.choice(ks)]
    if e['out'] == 'ok':
        e['ret'] = {'f': '77777', 'g': e['ret']['g'][1:] + ['12345']}
    elif rnd.random() < .5:
        e['out'] = e['op']['u'] or e['op']['o'] or e['op']['g']
    else:
        e['ret'] = {'f': '5', 'g': ['huge'] * len(e['ret']['g'])}
    return t


def c14(c):
    rnd = random.Random(c.seed)
    trs = []
    for cfg, limit, what in (('FailuresMC.cfg', 2, 'all sequences of 4 evaluations, limit 2'),
                             ('FailuresMC5.cfg', 1, 'all sequences of 3 evaluations with 5 kinds of errors, limit 1')):
        sc = tracecheck.scripts(c, 'FailuresMC', what, cfg=cfg)
        if c.quick and len(sc) > 6000:
            sc = rnd.sample(sc, 6000)
        trs += [t for p in runner.pmap(failure_scripts, [(c.seed + k, sc[k::32], limit) for k in range(32)]) for t in p]
    tracecheck.validate(c, 'FailuresTrace', 'every sequence of the specification', trs, corrupt_failures, 'failures', chunk=20000)
    trs = runner.pmap(failure_random, [(c.seed * 7919 + i, c.n(40, 80)) for i in range(c.n(1500, 20000))])
    tracecheck.validate(c, 'FailuresTrace', 'random long sequences', trs, corrupt_failures, 'failures')


# ---------------------------------------------------------------------------- C13, C20
INF, NAN = 100000000, 100000001
OPT_FIELDS = {'C13': ['out', 'values', 'derived', 'runs', 'start', 'recorded', 'updates', 'fixed', 'objective', 'more'],
              'C20': ['same', 'reports', 'observers', 'out']}
REPORT = re.compile(r'\S+s\d+\s+(\d+)\s+(\S+)\s+(\S+)')


def fnum(s):
    return float('inf') if s == INF else float('nan') if s == NAN else float(s)


def ftok(f):
    if f is None or f != f:
        return NAN
    if f == np.inf:
        return INF
    if abs(f) == np.inf or abs(f) > 1e8:
        return -1
    return int(f) if int(f) == f else int(f) * 1000 + 777


class Scripted(Optimizer):
    """ends where it is told to; every run takes the next script"""

    def __init__(self, scripts, starts, **kw):
        super(Scripted, self).__init__(**kw)
        self.opt_name, self.scripts, self.starts = 'scripted', scripts, starts

    def opt(self, x_init, f_fp=None, f=None, fp=None):
        s = self.scripts.pop(0)
        self.starts.append(np.array(x_init, float))
        self.status = 'running'
        for kind, x in s['evals']:
            x = np.array(x, float)
            (f_fp if kind == 'both' else f if kind == 'obj' else fp)(x)
        if s['out'] != 'ok':
            raise ERRORS[s['out']]('asked to')
        if s.get('keep'):
            self.x_opt = x_init
        else:
            self.x_opt = np.array(s['x'], float)
        self.f_opt, self.funct_eval, self.status = fnum(s['f']), len(s['evals']), 'Converged'


class Noted(Quad):
    """notes the points at which it was evaluated, and can fail at some"""
    seen = None

    def begin(self):
        self.log, self.objs, self.calls = [], [], []

    def parameters_changed(self):
        v = self.values()
        if hasattr(self, 'log'):
            self.log.append(v)
        super(Noted, self).parameters_changed()
        self.seen = v
        if hasattr(self, 'log'):
            self.objs.append(self.true()[0])


class Clock(object):
    def __enter__(self):
        self.t, self.real = time.time, time.perf_counter()
        now = time.time()
        time.time = lambda: now
        return self

    def __exit__(self, *a):
        time.time = self.t
        self.took = time.perf_counter() - self.real


class Notebook(object):
    """stands in for the interactive notebook and its widgets, which are not installed: notes what the
    widgets display"""

    def __init__(self, on=True):
        self.on, self.texts = on, []

    def __enter__(self):
        if not self.on:
            return self
        texts = self.texts

        class Widget(object):
            def __init__(self, **kw):
                self.__dict__.update(kw)

            def close(self):
                pass

        class HTML(Widget):
            def __setattr__(self, k, v):
                if k == 'value':
                    texts.append(v)
                object.__setattr__(self, k, v)
        w = types.ModuleType('ipywidgets')
        for k in ('IntProgress', 'Box', 'VBox', 'HBox'):
            setattr(w, k, type(k, (Widget,), {}))
        w.HTML = HTML
        i, d = types.ModuleType('IPython'), types.ModuleType('IPython.display')
        d.display = i.display = lambda *a, **kw: None
        self.old = {k: sys.modules.get(k) for k in ('ipywidgets', 'IPython', 'IPython.display')}
        sys.modules.update({'ipywidgets': w, 'IPython': i, 'IPython.display': d})
        builtins.get_ipython = lambda: None
        return self

    def __exit__(self, *a):
        if self.on:
            del builtins.get_ipython
            for k, v in self.old.items():
                if v is None:
                    del sys.modules[k]
                else:
                    sys.modules[k] = v

    def objectives(self):
        return [x for t in self.texts for x in re.findall(r"objective</td><td class='tg-right'>\s*(\S+?)\s*</td>", t)]


def reports(text, objs, notebook=None):
    """the objective values that were printed against those there were, as numbers of one table"""
    got = [m.group(2) for m in REPORT.finditer(text)]
    form = '%.6e'
    if notebook:
        got, form = notebook.objectives(), '%.3e'
    table = {}

    def tok(s):
        try:
            return table.setdefault(form % float(s), len(table))
        except ValueError:
            return -1
    return {'r': [tok(x) for x in got], 'o': [tok(x) for x in objs]}


def side(m, op, messages, seed, style):
    """carry out a run on one of the twins"""
    o = {'reports': [], 'weak': 0, 'counts': []}
    starts = []
    runs = op['runs'] if op['t'] == 'restarts' else [op['run']]
    if op.get('parallel'):
        fd, path = tempfile.mkstemp(prefix='runs_')
        os.close(fd)
        opt = Sent(runs, path)
    else:
        opt = Scripted([dict(r) for r in runs], starts)
    kw = {'optimizer': opt, 'messages': bool(messages), 'max_iters': 7}
    before = len(list(m.observers))
    n = len(m.optimization_runs)
    m.begin()
    np.random.seed(seed)
    buf = io.StringIO()
    ret = None
    kw['ipython_notebook'] = bool(op.get('nb') != 2)
    kw['clear_after_finish'] = bool(style % 4 == 1)
    with Clock() as clock, contextlib.redirect_stdout(buf), Notebook(bool(op.get('nb'))) as book:
        try:
            if op['t'] == 'optimize':
                ret = m.optimize(start=None if not op['start'] else np.array(op['start'], float), **kw)
            else:
                ret = m.optimize_restarts(num_restarts=len(runs), robust=bool(op['robust']), verbose=bool(style % 2),
                                          parallel=bool(op.get('parallel')), num_processes=2 if op.get('parallel') else None, **kw)
            o['out'] = 'ok'
        except Exception as e:
            o['out'] = type(e).__name__
    if op.get('parallel'):
        with open(path, 'rb') as f:
            op['runs'] = [runs[x - 65] for x in f.read()]
        os.unlink(path)
    o['weak'] = int(clock.took > .15)
    o['rnd'] = int(np.random.randint(1 << 20))
    tab = m.table
    o['log'] = [[v if isinstance(v, int) else tab.setdefault(v, 500000000 + len(tab)) for v in x] for x in m.log]
    o['vals'] = [v if isinstance(v, int) else tab.setdefault(v, 500000000 + len(tab)) for v in m.values()]
    o['seen'] = [v if isinstance(v, int) else tab.setdefault(v, 500000000 + len(tab)) for v in (m.seen or [])]
    o['obs'] = len(list(m.observers)) - before
    o['start'] = [ftok(x) for x in starts[0]] if starts else op['start']
    o['upd'] = int(bool(m.update_model()))
    o['runs'] = len(m.optimization_runs)
    o['same'] = 1
    o['lastf'] = ftok(m.optimization_runs[-1].f_opt) if m.optimization_runs else 0
    if op['t'] == 'optimize' and o['runs'] > n:
        o['same'] = int(ret is m.optimization_runs[-1] and ret is opt)
    if messages and op['t'] == 'optimize' and starts:
        # what came after the reporting ended is not reported
        o['reports'] = [reports(buf.getvalue(), m.objs[m.on:], book if op.get('nb') == 1 else None)]
    return o


class Sent(Optimizer):
    """for other processes: how a run ends depends on where it starts; notes what it did"""

    def __init__(self, runs, path):
        super(Sent, self).__init__()
        self.opt_name, self.runs, self.path = 'sent', runs, path

    def opt(self, x_init, f_fp=None, f=None, fp=None):
        i = int(1000 * abs(float(x_init[0]))) % len(self.runs)
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND)
        os.write(fd, b'%c' % (65 + i))
        os.close(fd)
        r = self.runs[i]
        if r['out'] != 'ok':
            raise ERRORS[r['out']]('asked to')
        self.x_opt, self.f_opt, self.status = np.array(r['x'], float), fnum(r['f']), 'Converged'


@quiet
def play_optimize(m, ops, seed, twin=1):
    """the same history on two models"""
    ms = []
    for _ in range(2 if twin else 1):
        x = Noted(m['w'], m['v'], m['k'], m['split'], 0, seed % 2).bind()
        x.table = {}
        ms.append(x)
    evs = []
    for j, op in enumerate(ops):
        ev = {'op': op, 'out': 'ok', 'ret': [], 'err': '', 'twin': int(twin)}
        try:
            if op['t'] in ('optimize', 'restarts'):
                for i, x in enumerate(ms):
                    x.on = 0 if x.update_model() else 1
                    ev['ab'[i]] = side(x, op, i if twin else seed % 2, seed * 31 + j, seed // 2)
                ev['out'] = ev['a']['out']
            else:
                for x in ms:
                    edit(x, op)
        except Exception as e:
            ev['err'] = '%s: %s' % (type(e).__name__, e)
        evs.append(ev)
        if ev['err']:
            break
    return dict(m, seed=seed, evs=evs)


def edit(x, op):
    t = op['t']
    if t == 'updates':
        x.update_model(bool(op['on']))
        return
    if t == 'assign':
        x[:] = np.array(op['x'], float)
        return
    i = op['i'] - 1
    if i >= x.size:
        return
    leaf, j = (x.a, i) if i < x.split else (x.n.b, i - x.split)
    if t == 'set':
        leaf[j:j + 1] = float(op['x'])
    elif t == 'fix':
        leaf[j:j + 1].fix()
    else:
        leaf[j:j + 1].unfix()


def complete(r, op, free, k):
    """points of evaluation for the runs of the script"""
    def run(x):
        x = dict(x)
        if len(x['x']) != free:
            x['x'] = [r.choice([-8, -4, 4, 8, 12]) for _ in range(free)]
        x['evals'] = [(r.choice(['both', 'obj', 'grads']), [r.randint(-9, 9) for _ in range(free)]) for _ in range(r.choice([0, 1, 2, 4]))]
        if r.random() < .5 and x['evals'] and x['out'] == 'ok':
            x['evals'][-1] = (x['evals'][-1][0], x['x'])
        return x
    op = dict(op)
    # 1: as in a notebook; 2: in a notebook, but printed as text
    op['nb'] = r.choice([0, 0, 1, 2])
    if op['t'] == 'optimize':
        op['run'] = run(op['run'])
        op['start'] = [r.randint(-5, 5) for _ in range(free)] if r.random() < .25 else []
    elif op['t'] == 'restarts':
        op['runs'] = [run(x) for x in op['runs']]
        op['start'] = []
    return op


def optimize_scripts(seed, scripts):
    r = random.Random(seed)
    out = []
    for sc in scripts:
        m = {'v': [4, 8], 'k': [1, 2], 'w': [1, 1], 'split': r.choice([1, 2])}
        fixed, ops = set(), []
        for op in sc:
            ops.append(complete(r, op, 2 - len(fixed), m['k']))
            if op['t'] == 'fix':
                fixed.add(op['i'])
            if op['t'] == 'optimize' and op['run']['out'] != 'ok':
                # somewhere: to a place the specification knows
                ops.append({'t': 'assign', 'x': m['v']})
        out.append(play_optimize(m, ops, r.randrange(1 << 20)))
    return out


def optimize_random(seed, steps):
    r = random.Random(seed)
    n = r.randint(1, 5)
    m = {'w': [r.randint(1, 5) for _ in range(n)], 'v': [r.randint(-5, 5) * 4 for _ in range(n)],
         'k': [r.choice([1, 1, 2, -2, -1, 4]) for _ in range(n)], 'split': r.randint(1, n)}
    fixed, ops = set(), []

    def run():
        x = {'out': 'ok', 'f': r.choice([1, 2, 3, 4, 5, 7, -3, INF, NAN]), 'x': [], 'keep': 0}
        if r.random() < .35:
            x['out'] = r.choice(sorted(ERRORS))
        x['x'] = [r.randint(-9, 9) for _ in range(n - len(fixed))]
        return x
    for _ in range(steps):
        k = r.random()
        if k < .15:
            ops.append({'t': 'set', 'i': r.randint(1, n), 'x': r.randint(-5, 5) * 4})
            if r.random() < .3:
                ops.insert(len(ops) - 1, {'t': 'updates', 'on': 0})
        elif k < .3:
            i = r.randint(1, n)
            ops.append({'t': 'fix', 'i': i})
            fixed.add(i)
        elif k < .4:
            i = r.randint(1, n)
            ops.append({'t': 'unfix', 'i': i})
            fixed.discard(i)
        elif k < .45:
            ops.append({'t': 'updates', 'on': int(r.random() < .4)})
        else:
            if k < .75:
                op = complete(r, {'t': 'optimize', 'run': run()}, n - len(fixed), m['k'])
                bad = op['run']['out'] != 'ok'
            else:
                op = complete(r, {'t': 'restarts', 'robust': int(r.random() < .6), 'runs': [run() for _ in range(r.choice([0, 1, 2, 3, 5]))]},
                              n - len(fixed), m['k'])
                bad = any(x['out'] != 'ok' for x in op['runs']) and not op['robust']
            ops.append(op)
            if bad and len(fixed) < n:
                # the free values are wherever the run left them
                ops.append({'t': 'restore', 'fixed': sorted(fixed)})
    return play_optimize(m, resolve(m, ops, r), r.randrange(1 << 20))


def resolve(m, ops, r):
    """values the model has before and after each operation, where they are known (None: several are possible)"""
    v, fixed, out = list(m['v']), set(), []
    for op in ops:
        t = op['t']
        if t == 'restore':
            w = [v[i] if i + 1 in fixed else r.randint(-5, 5) * 4 for i in range(len(v))]
            op = {'t': 'assign', 'x': w}
            v = w
        elif t == 'set':
            v[op['i'] - 1] = op['x']
        elif t == 'fix':
            fixed.add(op['i'])
        elif t == 'unfix':
            fixed.discard(op['i'])
        free = [i for i in range(len(v)) if i + 1 not in fixed]
        end = []
        if t == 'optimize' and op['run']['out'] == 'ok':
            end = [op['run']]
        elif t == 'restarts' and (op['robust'] or all(x['out'] == 'ok' for x in op['runs'])):
            good = [x for x in op['runs'] if x['out'] == 'ok']
            rank = lambda x: min(x['f'], INF)
            end = [x for x in good if rank(x) == min(map(rank, good))]
            for x in end[1:]:
                x['x'] = list(end[0]['x'])
        out.append(op)
        if end and free:
            for j, i in enumerate(free):
                v[i] = m['k'][i] * end[0]['x'][j]
    return out


# the optimizers that come with the code; the last three drive the climin package, of which
# there is a stand-in here: descents that change the array they are given and never end by themselves
NAMES = ['lbfgsb', 'scg', 'fmin_tnc', 'simplex', 'org-bfgs', 'LBFGS', 'tnc', 'adadelta', 'rprop', 'adam']


class Descent(object):
    def __init__(self, wrt, fprime, **kw):
        self.wrt, self.fprime = wrt, fprime

    def __iter__(self):
        k, step = 0, .02
        while True:
            k += 1
            g = np.nan_to_num(np.asarray(self.fprime(self.wrt), float))
            self.wrt -= np.clip(step * g, -.1, .1)
            yield {'n_iter': k, 'gradient': g}


def stand_in():
    try:
        import climin                       # noqa
    except ImportError:
        top = types.ModuleType('climin')
        for name, cls in (('adadelta', 'Adadelta'), ('rprop', 'Rprop'), ('adam', 'Adam')):
            sub = types.ModuleType('climin.' + name)
            setattr(sub, cls, type(cls, (Descent,), {}))
            setattr(top, name, sub)
            sys.modules['climin.' + name] = sub
        sys.modules['climin'] = top




class Land(Model):
    def __init__(self, kind, n, split, bad, badwhere, once):
        super(Land, self).__init__('land')
        self.kind, self.bad, self.badwhere, self.once = kind, bad, badwhere, once
        self.g = Parameterized('g')
        self.g.x = Param('x', np.ones(split))
        self.g.link_parameter(self.g.x)
        self.link_parameter(self.g)
        if split < n:
            self.y = Param('y', np.ones((n - split, 1)))
            self.link_parameter(self.y)
        self.log, self.objs, self.quiet = [], [], True

    def true(self):
        v = np.array(self.param_array, float)
        c = np.arange(1., len(v) + 1) / 2.
        if self.kind == 'quad':
            return ((v - c) ** 2 * (c + .5)).sum(), 2 * (v - c) * (c + .5)
        if self.kind == 'quartic':
            return ((v - c) ** 4 + .1 * v).sum(), 4 * (v - c) ** 3 + .1
        if self.kind == 'waves':
            return (np.cos(3 * v) + .1 * v ** 2).sum(), -3 * np.sin(3 * v) + .2 * v
        if self.kind == 'log':
            with np.errstate(all='ignore'):
                return (v - np.log(v)).sum(), 1 - 1. / v
        if self.kind == 'nan':
            return np.nan, v * np.nan
        if self.kind == 'cliff':
            return (np.nan, v * np.nan) if v[0] < 1.5 else (v.sum(), v * 0 + 1)
        if self.kind == 'drop':                     # no minimum
            with np.errstate(all='ignore'):
                return -np.exp(v).sum(), -np.exp(v)
        if self.kind == 'coupled':
            t = v.sum()
            return (t - 2) ** 2 + (v ** 2).sum(), 2 * (t - 2) + 2 * v
        return np.abs(v - c).sum(), np.sign(v - c)

    def meets(self):
        v = np.array(self.param_array, float)
        return bool(self.bad) and (v[0] > self.badwhere if self.badwhere > 0 else v[0] < self.badwhere)

    def parameters_changed(self):
        f, g = self.true()
        if not self.quiet:
            self.log.append([float(x) for x in self.param_array])
        self.gradient = g
        if not self.quiet:
            self.objs.append(f if not self.meets() else np.nan)

    def objective_function(self):
        if self.meets():
            raise ERRORS[self.bad]('asked to')
        return self.true()[0]


def build_land(d):
    m = Land(d['kind'], d['n'], d['split'], d['bad'], d['badwhere'], 0)
    m[:] = np.array(d['v'])
    for i, k in enumerate(d['cons']):
        leaf, j = (m.g.x, i) if i < d['split'] else (m.y, i - d['split'])
        h = leaf[j:j + 1]
        if k == 'fix':
            h.fix()
        elif k == 'pos':
            h.constrain_positive()
        elif k == 'neg':
            h.constrain_negative()
        elif k == 'bound':
            h.constrain_bounded(-4, 5)
        elif k == 'exp':
            h.constrain(paramz.transformations.Exponent())
    m._allowed_failures = d['limit']
    return m


def ranks(rows):
    """numbers of all rows as ranks; what differs by rounding only is the same"""
    flat = sorted(set(x for r in rows for x in r if x is not None and np.isfinite(x)))
    tab, k, last = {}, 0, None
    for x in flat:
        if last is not None and x - last > 1e-9 * max(1., abs(x)):
            k += 1
        tab[x] = k
        last = x
    return [[NAN if x is None or x != x else INF if x == np.inf else -1 if x == -np.inf else tab[x] for x in r] for r in rows]


def real_side(d, op, messages, seed):
    m = build_land(d)
    before = [float(x) for x in m.param_array]
    o = {'reports': [], 'weak': 0, 'obs': len(list(m.observers))}
    n = 0
    got = []
    # the runs of the restarts, as they are recorded
    m.quiet = False
    np.random.seed(seed)
    buf = io.StringIO()
    cut = []
    with Clock() as clock, contextlib.redirect_stdout(buf), Notebook(bool(op['nb'])) as book:
        try:
            kw = dict(optimizer=op['name'], messages=bool(messages), max_iters=op['iters'], **op['tols'])
            if op['pref']:
                m.preferred_optimizer = kw.pop('optimizer')
            if op['n'] == 0:
                m.optimize(**kw)
            else:
                m.optimize_restarts(num_restarts=op['n'], robust=bool(op['robust']), verbose=bool(seed % 2), **kw)
            o['out'] = 'ok'
        except Exception as e:
            o['out'] = type(e).__name__
    o['weak'] = int(clock.took > .15)
    o['rnd'] = int(np.random.randint(1 << 20))
    m.quiet = True
    o['obs'] = len(list(m.observers)) - o['obs']
    o['end'] = [float(x) for x in m.param_array]
    o['log'] = m.log
    o['runs'] = o['more'] = len(m.optimization_runs)
    o['counts'] = [int(x.funct_eval or 0) for x in m.optimization_runs]
    for run in m.optimization_runs:
        t = build_land(d)
        t.optimizer_array = np.array(run.x_opt, float)
        try:
            obj = float(t.objective_function())
        except Exception:
            obj = None
        got.append((float(run.f_opt) if run.f_opt is not None else None, obj, [float(x) for x in t.param_array]))
    o['before'] = before
    o['got'] = got
    if messages and op['n'] == 0:
        o['reports'] = [reports(buf.getvalue(), m.objs, book if op['nb'] else None)]
    return o


@quiet
def play_real(seed):
    stand_in()
    r = random.Random(seed)
    n = r.randint(1, 4)
    d = {'kind': r.choice(['quad', 'quad', 'quartic', 'waves', 'log', 'coupled', 'abs', r.choice(['nan', 'cliff', 'drop'])]), 'n': n, 'split': r.randint(1, n),
         'v': [round(r.uniform(.3, 3), 2) for _ in range(n)], 'limit': r.choice([10, 10, 10, 3, 0]),
         'cons': [r.choice(['', '', 'fix', 'pos', 'bound', 'exp', 'neg' if r.random() < .3 else '']) for _ in range(n)],
         'bad': '', 'badwhere': 0}
    if d['kind'] == 'log':
        d['cons'] = [x if x != 'neg' else 'pos' for x in d['cons']]
    if r.random() < .5:
        d['bad'] = r.choice(['LinAlgError', 'ValueError', 'ZeroDivisionError', 'KeyError', 'LinAlgError'])
        d['badwhere'] = r.choice([.4, 1.2, 2.5, -.5, -2])
    evs = []
    for _ in range(3):
        op = {'t': 'real', 'name': r.choice(NAMES), 'iters': r.choice([1, 2, 5, 20, 60]), 'n': r.choice([0, 0, 0, 1, 3, 4]), 'robust': r.randint(0, 1),
              'fixed': [i + 1 for i, k in enumerate(d['cons']) if k == 'fix'],
              'may': ['ok'] + ([d['bad']] if d['bad'] else [])}
        op['nb'], op['pref'], op['unknown'] = int(r.random() < .3), int(r.random() < .15), 0
        op['tols'] = {k: r.choice([1e-2, 1e-5, 1e-9]) for k in ('xtol', 'ftol', 'gtol') if r.random() < .2}
        if r.random() < .1:
            op['tols']['bfgs_factor'] = r.choice([1e3, 1e7])
        if r.random() < .03:
            op['name'], op['unknown'] = r.choice(['newton', 'xlbfgs']), 1
            op['may'] = ['ok'] if op['n'] and op['robust'] or len(op['fixed']) == n else ['KeyError']
        sd = r.randrange(1 << 20)
        ev = {'op': op, 'ret': [], 'err': '', 'twin': 1}
        try:
            ev['a'], ev['b'] = real_side(d, op, 0, sd), real_side(d, op, 1, sd)
        except Exception as e:
            ev['err'] = '%s: %s' % (type(e).__name__, e)
            ev['out'] = 'failed'
            evs.append(ev)
            break
        ev['out'] = ev['a']['out']
        sides = [ev['a'], ev['b']]
        rows = []
        for o in sides:
            rows += [o['before'], o['end']] + o['log'] + [x for _, _, x in o['got']]
        rk = iter(ranks(rows))
        for o in sides:
            o['before'], o['end'], o['log'] = next(rk), next(rk), [next(rk) for _ in o['log']]
            o['got'] = [[f, obj, next(rk)] for f, obj, _ in o['got']]
            o['vals'] = o['end']
        rk = iter(ranks([[f, obj] for o in sides for f, obj, _ in o['got']]))
        for o in sides:
            g = []
            for f, obj, x in o['got']:
                a, b = next(rk)
                g.append({'out': 'ok', 'f': a, 'obj': b, 'x': x})
            o['got'] = g
            o['lastf'] = g[-1]['f'] if g else 0
        evs.append(ev)
    return {'v': [], 'k': [], 'w': [], 'land': d, 'seed': seed, 'evs': evs}


def scg_run(f, g, x0, maxit):
    """what the optimizer evaluated and what it reports"""
    points, calls = {}, []

    def pid(x):
        return points.setdefault(np.array(x, float).tobytes(), len(points))
    pid(x0)

    def ff(x):
        v = f(np.array(x))
        calls.append(('f', pid(x), float(v)))
        return v

    def gg(x):
        calls.append(('g', pid(x), 0.))
        return g(np.array(x))
    opt = get_optimizer('scg')(max_iters=maxit)
    opt.run(np.array(x0, float), f=ff, fp=gg, f_fp=None)
    vals = [x for e, _, x in calls if e == 'f'] + [float(x) for x in opt.trace] + [float(opt.f_opt)]
    flat = sorted(set(x for x in vals if np.isfinite(x)))
    tok = lambda x: NAN if x != x else INF if x == np.inf else -1 if x == -np.inf else flat.index(x)
    res = {'log': [tok(float(x)) for x in opt.trace], 'p': points.get(np.array(opt.x_opt, float).tobytes(), -99),
           'evals': int(opt.funct_eval), 'max': maxit}
    if tok(float(opt.f_opt)) != res['log'][-1]:
        res['log'].append(tok(float(opt.f_opt)))
        res['log'].append(-5)
    return {'calls': [{'e': e, 'p': p, 'v': tok(v) if e == 'f' else 0} for e, p, v in calls], 'res': res}


@quiet
def scg_scripts(seed, scripts):
    r = random.Random(seed)
    out = []
    for sc in scripts:
        n = r.choice([1, 1, 2, 3])
        fs = [{INF: np.inf, NAN: np.nan}.get(x, x * 10. + r.random() * .001 * 0) for x in sc['fs']]
        memo = {}
        style = r.randrange(4)

        def f(x):
            k = x.tobytes()
            if k not in memo:
                v = fs[len(memo)] if len(memo) < len(fs) else r.choice([fs[-1], r.randint(-50, 30), np.nan])
                memo[k] = float(v) if style % 2 else np.float64(v)
            return memo[k]
        gm = {}

        def g(x):
            k = x.tobytes()
            if k not in gm:
                gm[k] = np.array([r.choice([-3., -1., -.5, 1., 2., 5.]) for _ in range(n)])
            return gm[k].copy()
        ev = {'op': {'t': 'scripted', 'fs': sc['fs']}, 'out': 'ok', 'ret': [], 'err': ''}
        try:
            ev.update(scg_run(f, g, [float(r.randint(-2, 2)) for _ in range(n)], sc['max']))
        except Exception as e:
            ev['err'] = '%s: %s' % (type(e).__name__, e)
        out.append({'evs': [ev], 'seed': seed})
    return out


@quiet
def scg_random(seed):
    r = random.Random(seed)
    evs = []
    for _ in range(4):
        n = r.randint(1, 5)
        rs = np.random.RandomState(r.randrange(1 << 30))
        A = rs.randn(n, n)
        A = A.dot(A.T) * r.choice([1, .01, 100]) + np.eye(n) * .1
        b = rs.randn(n)
        kind = r.choice(['quad', 'quad', 'cos', 'rosen', 'flat', 'cliff', 'nan', 'noise', 'max'])
        cut = r.uniform(-1, 2)

        def f(x):
            v = .5 * x.dot(A).dot(x) - b.dot(x)
            if kind == 'cos':
                v = v * .1 + np.cos(3 * x).sum()
            elif kind == 'rosen':
                v = ((1 - x) ** 2).sum() + 100 * ((x[1:] - x[:-1] ** 2) ** 2).sum()
            elif kind == 'flat':
                v = np.round(v)
            elif kind == 'cliff' and x[0] > cut:
                v = np.inf
            elif kind == 'nan' and x[0] > cut:
                v = np.nan
            elif kind == 'noise':
                v = v + np.sin(1e4 * x[0])
            elif kind == 'max':
                v = -v
            return v

        def g(x):
            v = A.dot(x) - b
            if kind == 'cos':
                v = v * .1 - 3 * np.sin(3 * x)
            elif kind == 'rosen':
                v = -2 * (1 - x)
                d = 200 * (x[1:] - x[:-1] ** 2)
                v[1:] += d
                v[:-1] -= 2 * d * x[:-1]
            elif kind == 'max':
                v = -v
            return v
        maxit = r.choice([1, 2, 3, 5, 10, 30, 100])
        ev = {'op': {'t': kind, 'max': maxit}, 'out': 'ok', 'ret': [], 'err': ''}
        try:
            ev.update(scg_run(f, g, rs.randn(n) * r.choice([.1, 1, 5]), maxit))
        except Exception as e:
            ev['err'] = '%s: %s' % (type(e).__name__, e)
        evs.append(ev)
    return {'evs': evs, 'seed': seed}


def corrupt_scg(tr, rnd):
    t = copy.deepcopy(tr)
    e = rnd.choice(t['evs'])
    k = rnd.randrange(4)
    if k == 0:
        e['res']['evals'] += 1
    elif k == 1:
        e['res']['log'][-1] += 5
    elif k == 2:
        e['res']['max'] = len(e['res']['log']) - 2
    else:
        e['res']['log'][0] = -7
    return t


def scg_part(c):
    sc = tracecheck.scripts(c, 'SCGMC', 'all objective values and stopping tests for up to %d iterations' % c.n(3, 5),
                            cfg='SCGMC.cfg' if c.quick else 'SCGMC5.cfg')
    trs = [t for p in runner.pmap(scg_scripts, [(c.seed + k, sc[k::32] * c.n(3, 1)) for k in range(32)]) for t in p]
    tracecheck.validate(c, 'SCGTrace', 'scaled conjugate gradients under every adversary of the specification', trs, corrupt_scg, 'scg', chunk=20000)
    trs = runner.pmap(scg_random, [(c.seed * 7919 + i,) for i in range(c.n(400, 8000))])
    tracecheck.validate(c, 'SCGTrace', 'scaled conjugate gradients on random functions', trs, corrupt_scg, 'scg')


def c13(pid):
    def check(c):
        meta = {'fields': OPT_FIELDS[pid]}
        sc = tracecheck.scripts(c, 'OptimizeMC', 'all outcomes of up to %d restarts after every earlier run' % c.n(3, 4),
                                cfg='OptimizeMC.cfg' if c.quick else 'OptimizeMC4.cfg')
        if c.quick and len(sc) > 4000:
            sc = random.Random(c.seed).sample(sc, 4000)
        trs = [t for p in runner.pmap(optimize_scripts, [(c.seed + k, sc[k::32]) for k in range(32)]) for t in p]
        tracecheck.validate(c, 'OptimizeTrace', 'every transition of the specification', trs, corrupt_optimize, 'optimize', chunk=20000, meta=meta)
        trs = runner.pmap(optimize_random, [(c.seed * 7919 + i, c.n(15, 25)) for i in range(c.n(800, 10000))])
        tracecheck.validate(c, 'OptimizeTrace', 'random histories of scripted runs', trs, corrupt_optimize, 'optimize', meta=meta)
        trs = runner.pmap(play_real, [(c.seed * 7907 + i,) for i in range(c.n(400, 6000))])
        tracecheck.validate(c, 'OptimizeTrace', 'the optimizers that come with the code', trs, corrupt_optimize, 'optimize', meta=meta)
        if pid == 'C20':
            scg_part(c)
        if pid == 'C13':
            trs = runner.pmap(play_parallel, [(c.seed * 31 + i,) for i in range(c.n(24, 400))])
            tracecheck.validate(c, 'OptimizeTrace', 'restarts in other processes', trs, None, 'optimize', meta=meta)
    return check


@quiet
def play_parallel(seed):
    """restarts in other processes"""
    r = random.Random(seed)
    n = r.randint(1, 3)
    m = {'w': [1] * n, 'v': [4 * r.randint(1, 4) for _ in range(n)], 'k': [r.choice([1, 2, -1]) for _ in range(n)], 'split': r.randint(1, n)}
    ops = []
    free = n
    if n > 1 and r.random() < .5 or r.random() < .1:
        ops.append({'t': 'fix', 'i': r.randint(1, n)})
        free -= 1
    for _ in range(2):
        bad = r.choice([0, .5, 1])
        runs = [{'out': r.choice(['LinAlgError', 'KeyError', 'ValueError']) if r.random() < bad else 'ok',
                 'f': r.choice([1, 2, 3, INF, NAN]), 'x': [r.randint(1, 9) for _ in range(free)], 'evals': []} for _ in range(4)]
        ops.append({'t': 'restarts', 'robust': int(bad > 0), 'runs': runs, 'start': [0], 'parallel': 1})
    return play_optimize(m, ops, r.randrange(1 << 20), 0)


def corrupt_optimize(tr, rnd):
    t = copy.deepcopy(tr)
    ks = [i for i, e in enumerate(t['evs']) if e['op']['t'] in ('optimize', 'restarts', 'real') and e['out'] == 'ok' and e['a']['obs'] == 0
          and (e['op']['t'] == 'optimize' or e['op']['t'] == 'real')]
    if not ks:
        return None
    e = t['evs'][rnd.choice(ks)]
    for x in 'ab':
        if x in e:
            e[x]['obs'] = 1
            e[x]['out'] = 'Corrupted'
    return t
