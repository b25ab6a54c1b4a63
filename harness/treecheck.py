"""Trace validation of the tree: random histories and histories enumerated by TLC."""
import copy
import json
import random

from harness import gen, tlc, runner
from harness.world import World
from harness.tlc import MachineryError

RESERVED = ['size', 'copy', 'gradient', 'fix']


def one(seed, profile, steps):
    g = gen.Gen(seed, profile)
    try:
        return g.run(steps)
    except Exception as e:
        return {'pool': [], 'evs': [{'op': {'t': 'noop'}, 'out': 'ok', 'ret': [], 'pc': [], 'obs': {},
                                     'err': 'creating objects (seed %d): %s: %s' % (seed, type(e).__name__, str(e)[:300])}]}


def play(pool, ops, fields, last_only=False, looks=None):
    w = World(pool, fields)
    for i, op in enumerate(ops):
        if not w.step(op, observe=(not last_only or i == len(ops) - 1) if looks is None else looks[i]):
            break
    return w.trace()


def counts(traces):
    c, outs, skips = {}, {}, 0
    for t in traces:
        for e in t['evs']:
            k = e['op']['t']
            c[k] = c.get(k, 0) + 1
            if e['out'] != 'ok':
                outs[k + ':' + e['out']] = outs.get(k + ':' + e['out'], 0) + 1
    return c, outs


def corrupt(tr, clauses, rnd):
    """a copy of a trace in which one recorded observation is wrong, or None"""
    t = copy.deepcopy(tr)
    fs = [f for f in clauses if f in ('val', 'con', 'fix', 'kids', 'par', 'size', 'upd', 'grd', 'hname')]
    evs = [e for e in t['evs'] if (not fs or any(f in e['obs'] for f in fs)) and not e['err']]
    at = dict((id(e), i) for i, e in enumerate(t['evs']))
    rnd.shuffle(evs)
    for e in evs[:3]:
        if e['op']['t'] in ('getopt', 'optgrad') and e['out'] == 'ok' and e['ret'] and rnd.random() < .5:
            e['ret'] = e['ret'][:-1]
            t['evs'] = t['evs'][:at[id(e)] + 1]
            return t
    if not fs:                                  # only results are decided: change a printed row
        for e in evs:
            for tb in (e['ret'].get('tables', []) if isinstance(e['ret'], dict) else []):
                if tb['rows']:
                    row = rnd.choice(tb['rows'])
                    if row['con'] and rnd.random() < .5:
                        row['con'][0]['all'] = 1 - row['con'][0]['all']
                    elif row['v']:
                        row['v'] = [row['v'][0] + 1]
                    else:
                        row['shape'] = row['shape'] + [1]
                    t['evs'] = t['evs'][:at[id(e)] + 1]
                    return t
        return None
    for e in evs:
        f = rnd.choice(fs)
        o = e['obs'].get(f)
        if o is None:
            continue
        c = [i for i, x in enumerate(o) if x not in ([], 888888)]
        if f in ('par', 'upd', 'size'):
            i = rnd.randrange(len(o))
            o[i] = (1 - o[i]) if f == 'upd' else o[i] + 1
        elif not c:
            continue
        else:
            i = rnd.choice(c)
            x = o[i]
            k = rnd.randrange(len(x))
            if f == 'con':
                x[k] = [] if x[k] else ['pos']
            elif f == 'fix':
                x[k] = 1 - x[k]
            elif f == 'kids':
                x.pop()
            elif f == 'grd':
                return None
            else:
                x[k] += 1
        t['evs'] = t['evs'][:at[id(e)] + 1]
        return t
    return None


def validate(c, name, traces, clauses, fields, chunk=4000):
    rnd = random.Random(c.seed)
    errs = [(i, t) for i, t in enumerate(traces) if any(e['err'] for e in t['evs'])]
    probes = []
    for t in traces:
        p = corrupt(t, clauses, rnd) if not any(e['err'] for e in t['evs']) else None
        if p is not None:
            probes.append(p)
        if len(probes) >= 6:
            break
    bad, s = tlc.check_traces('TreeTrace', probes + traces, {'check': clauses, 'reserved': [[ord(x) for x in r] for r in RESERVED]},
                              chunk=chunk, timeout=850 if c.quick else 3600)
    hit = set(b[0] for b in bad if b[0] < len(probes))
    bad = [(b[0] - len(probes),) + b[1:] for b in bad if b[0] >= len(probes)]
    if probes and not bad and len(hit) < len(probes):
        raise MachineryError('%d of %d corrupted traces were accepted' % (len(probes) - len(hit), len(probes)))
    ops, outs = counts(traces)
    steps = sum(len(t['evs']) for t in traces)
    c.cov['states'] += s['distinct']
    c.cov['transitions'] += s['generated']
    c.cov['traces_validated_against_impl'] += len(traces)
    c.cov['steps_validated'] += steps
    c.part(name, traces=len(traces), steps=steps, mismatches=len(bad), corrupted_rejected='%d/%d' % (len(hit), len(probes)),
           operations=ops, refused=outs, clauses=clauses)
    if len(c.cov['samples']) < 3 and traces:
        t = traces[len(traces) // 2]
        c.cov['samples'].append({'part': name, 'operations': [e['op'] for e in t['evs']][:12]})
    for t, l, cl, x in bad[:20]:
        tr = traces[t]
        ev = tr['evs'][l] if l >= 0 else {}
        text = 'step %d of a history of the real code is not allowed by spec/Tree.tla: clauses %s; operation %s gave %s%s %s' % (
            l, ','.join(cl), json.dumps(ev.get('op')), ev.get('out'), (' (specified: %s)' % x) if l >= 0 else x, ev.get('err', ''))
        c.violation(text, {'kind': 'tree', 'pool': tr['pool'], 'ops': [e['op'] for e in tr['evs'][:l + 1]], 'fields': fields, 'looks': [sorted(e['obs']) == sorted(f for f in fields if f != 'nt') for e in tr['evs'][:l + 1]],
                           'clauses': clauses, 'observed': ev.get('obs'), 'calls': ev.get('pc'), 'ret': ev.get('ret')})
    return bad


def random_part(c, name, profile, clauses, traces, steps, salt=0):
    fields = profile['fields']
    args = [(c.seed * 1000003 + salt * 100003 + i, profile, steps) for i in range(traces)]
    trs = runner.pmap(one, args, stop=lambda out: sum(1 for t in out[-64:] if t['evs'][-1]['err']) >= 4)
    return validate(c, name, trs, clauses, fields)


# ---------------------------------------------------------------------------------------------
# what each property's histories consist of
STRUCT = {'link': 9, 'unlink': 5}


def prof(base, ops, **kw):
    d = {'fields': base, 'ops': ops}
    d.update(kw)
    return d


P = {
    'C01': dict(fields=['par', 'kids', 'size', 'val', 'con', 'fix', 'name'], clauses=['par', 'kids', 'size', 'val', 'con', 'fix'], parts=[
        ('forest', dict(ops={'link': 12, 'unlink': 6, 'set': 1, 'constrain': 1, 'fix': 1, 'copy': 1, 'rename': 1, 'read': 1, 'build': 1, 'trav': 2}, nodes=(3, 6), leaves=(2, 5)), 260, 45),
        ('deferred', dict(ops={'link': 12, 'unlink': 4, 'initialize': 2, 'set': 1, 'build': 1, 'trav': 1}, nodes=(3, 5), leaves=(2, 4), deferred=1), 100, 30)]),
    'C02': dict(fields=['kids', 'val', 'name'], clauses=['kids', 'val'], parts=[
        ('values', dict(ops={'link': 5, 'unlink': 3, 'set': 12, 'shift': 5, 'rawset': 4, 'nodeset': 4, 'setopt': 3, 'randomize': 1, 'read': 5,
                             'rename': 1, 'constrain': 2, 'fix': 2, 'updates': 1, 'copy': .5, 'build': .5}, nodes=(2, 5)), 320, 50)]),
    'C03': dict(fields=['kids', 'con', 'fix', 'tag', 'name', 'par'], clauses=['kids', 'con', 'fix', 'tag'], parts=[
        ('constraints', dict(ops={'link': 9, 'unlink': 5, 'constrain': 6, 'unconstrain': 2, 'fix': 3, 'unfix': 1, 'tag': 3, 'copy': .5, 'build': .7}, dc=.4, nodes=(3, 5), leaves=(3, 6)), 260, 45),
        ('deferred', dict(ops={'link': 9, 'unlink': 4, 'constrain': 5, 'fix': 2, 'tag': 2, 'initialize': 2, 'unconstrain': 1}, dc=.4, nodes=(3, 5), deferred=1,
                          con_kinds=['l', 's', 'o', 'n']), 100, 30)]),
    'C04': dict(fields=['kids', 'val', 'con', 'fix', 'name'], clauses=['val', 'con', 'fix'], parts=[
        ('constrain', dict(ops={'link': 2, 'unlink': 1, 'constrain': 10, 'unconstrain': 6, 'fix': 6, 'unfix': 4, 'isfixed': 3, 'fixedat': 3, 'set': 2, 'randomize': .3}, dc=.3), 300, 45)]),
    'C05': dict(fields=['kids', 'val', 'con', 'fix', 'name'], clauses=['val', 'con', 'fix'], parts=[
        ('optimizer', dict(ops={'link': 2, 'unlink': 1, 'constrain': 4, 'unconstrain': 2, 'fix': 4, 'unfix': 3, 'isfixed': 2, 'set': 3, 'rawset': 1, 'setopt': 7,
                                'randomize': 2, 'getopt': 12, 'unfixed': 3, 'flatnames': 4, 'updates': 1, 'build': .5, 'copy': .5}, dc=.3), 300, 50)]),
    'C06': dict(fields=['kids', 'val', 'upd', 'name', 'nt'], clauses=['kids', 'val', 'upd', 'pc', 'nt'], parts=[
        ('updates', dict(ops={'link': 3, 'unlink': 2, 'set': 10, 'shift': 3, 'rawset': 2, 'nodeset': 3, 'constrain': 2, 'fix': 2, 'setopt': 4, 'randomize': 2,
                              'updates': 4, 'toggle': 2, 'trigger': 2, 'copy': .3, 'build': .5}, nodes=(3, 6)), 300, 50)]),
    'C10': dict(fields=['par', 'kids', 'val', 'con', 'fix', 'tag', 'upd', 'name', 'hname', 'grd', 'nt'],
                clauses=['par', 'kids', 'size', 'val', 'con', 'fix', 'tag', 'upd', 'name', 'hname', 'grd', 'pc', 'nt'], parts=[
        ('copies', dict(ops={'link': 3, 'unlink': 2, 'set': 5, 'shift': 1, 'rawset': 1, 'nodeset': 1, 'constrain': 3, 'unconstrain': 1, 'fix': 2, 'unfix': 1,
                             'tag': 2, 'setopt': 2, 'updates': 1.5, 'setgrad': 1, 'rename': 1, 'copy': 6, 'getopt': 1, 'flatnames': 1, 'build': .7}, nodes=(2, 4), leaves=(2, 4), max_objs=18, on=.4), 170, 40),
        ('copies of models', dict(ops={'link': 2, 'unlink': 1, 'set': 3, 'constrain': 3, 'fix': 2, 'unfix': 1, 'setopt': 2, 'updates': 1, 'setgrad': 3, 'copy': 6,
                                       'getopt': 2, 'print': 2}, nodes=(2, 4), leaves=(2, 4), max_objs=18, on=.3, models=1, print_kinds=['n']), 50, 40)]),
    'C11': dict(fields=['kids', 'par', 'name', 'hname', 'attr'], clauses=['kids', 'name', 'hname', 'attr'], parts=[
        ('clashes', dict(ops={'link': 8, 'unlink': 4, 'rename': 6, 'flatnames': 1, 'pnames': 2, 'sib': 3, 'copy': .5, 'build': .7}, clash=1, names=gen.CLASH, nodes=(3, 5)), 220, 40),
        ('crowds', dict(ops={'link': 9, 'unlink': 2, 'rename': 3, 'pnames': .5}, clash=1, names=['a', 'a', 'a', 'a_9', 'b_8'], nodes=(1, 2), leaves=(12, 14),
                        shapes=[[1]]), 24, 45),
        ('reserved', dict(ops={'link': 8, 'unlink': 4, 'rename': 6, 'set': 1, 'pnames': 1}, clash=1, names=['a', 'b', 'size', 'copy', 'gradient', 'ab', 'a'], nodes=(3, 5)), 60, 30),
        ('names', dict(ops={'link': 6, 'unlink': 3, 'rename': 5, 'flatnames': 4, 'pnames': 4, 'rawname': 3, 'grep': 4, 'sib': 4, 'fix': 1, 'copy': .5, 'initialize': 1}, nodes=(3, 5)), 120, 40),
        ('deferred', dict(ops={'link': 8, 'unlink': 3, 'rename': 5, 'initialize': 2, 'pnames': 1, 'build': .7}, clash=1, names=gen.CLASH, nodes=(3, 5), deferred=1), 60, 30)]),
    'C12': dict(fields=['kids', 'val', 'con', 'fix', 'name'], clauses=['val', 'con', 'fix', 'pc'], parts=[
        ('handles', dict(ops={'link': 2, 'unlink': 1, 'set': 8, 'shift': 4, 'read': 5, 'compare': 4, 'constrain': 4, 'unconstrain': 3, 'fix': 3, 'unfix': 2, 'grep': 4, 'rename': 1,
                              'updates': .5},
                         set_kinds=['r', 'x'], con_kinds=['r', 'x'], dc=.2), 300, 45)]),
    'C18': dict(fields=['kids', 'grd', 'name'], clauses=['kids', 'grd'], parts=[
        ('gradients', dict(ops={'link': 5, 'unlink': 3, 'setgrad': 12, 'set': 2, 'constrain': 3, 'fix': 2, 'unfix': 1, 'rename': .5, 'unconstrain': 1, 'copy': .3},
                           nodes=(2, 5)), 220, 45),
        ('chain rule', dict(ops={'link': 2, 'unlink': 1, 'setgrad': 8, 'set': 3, 'setopt': 2, 'constrain': 4, 'fix': 2, 'unfix': 2, 'unconstrain': 1, 'optgrad': 12},
                            nodes=(2, 4), models=1, dc=.3), 160, 45)]),
    'C19': dict(fields=['par', 'kids', 'val', 'con', 'fix', 'upd', 'name', 'hname', 'attr'],
                clauses=['par', 'kids', 'val', 'con', 'fix', 'upd', 'name', 'hname', 'attr', 'quiet', 'pc'], parts=[
        ('deferred', dict(ops={'link': 8, 'unlink': 2, 'constrain': 4, 'unconstrain': 1, 'fix': 2, 'unfix': 1, 'rename': 2, 'initialize': 3, 'set': 4, 'updates': 2,
                               'setopt': 1, 'build': 1}, deferred=1, nodes=(2, 5), con_kinds=['l', 's', 'n']), 220, 40),
        ('loading', dict(ops={'link': 8, 'unlink': 1, 'constrain': 3, 'fix': 2, 'rename': 1, 'recipe': 4, 'set': 1, 'setopt': 1, 'copy': .5}, deferred=1, nodes=(2, 5),
                         con_kinds=['l', 's', 'n']), 100, 25)]),
    'C21': dict(fields=['kids', 'val', 'con', 'fix', 'tag', 'name', 'upd'], clauses=['pc'], parts=[
        ('tables', dict(ops={'link': 4, 'unlink': 2, 'set': 3, 'constrain': 4, 'unconstrain': 1, 'fix': 2, 'unfix': 1, 'tag': 2, 'rename': 2, 'print': 14, 'save': 2, 'copy': .3},
                        nodes=(2, 4), leaves=(3, 5), dc=.3, wild=.1), 170, 45),
        ('plain tables', dict(ops={'link': 4, 'unlink': 2, 'set': 3, 'constrain': 4, 'unconstrain': 1, 'fix': 2, 'unfix': 1, 'rename': 2, 'print': 14, 'setopt': 1},
                        nodes=(2, 4), leaves=(3, 5), dc=.3, wild=.1, fields=['kids', 'val', 'con', 'fix', 'name', 'upd']), 60, 45),
        ('models', dict(ops={'link': 4, 'unlink': 2, 'set': 3, 'constrain': 3, 'fix': 3, 'unfix': 1, 'rename': 2, 'updates': 2, 'print': 14},
                        nodes=(2, 4), leaves=(2, 4), dc=.3, models=1, print_kinds=['n', 'n', 'n', 'r', 's']), 120, 45)]),
}


# which models are walked through for which property
TOURS = {'C01': ['struct'], 'C02': ['values'], 'C03': ['labels', 'tags'], 'C04': ['labels', 'fixes'], 'C05': ['opt'], 'C06': ['updates'], 'C10': ['copies'],
         'C11': ['struct'], 'C12': ['regex'], 'C18': ['grads', 'optgrad'], 'C19': ['deferred'], 'C21': ['print']}


def tree_check(pid):
    def run(c):
        from harness import treetour
        d = P[pid]
        for mode in TOURS.get(pid, []):
            fields = [f for f in d['fields'] if f != 'tag' or mode == 'tags']
            treetour.part(c, mode, [f for f in d['clauses'] if f != 'tag' or mode == 'tags'], fields, quick=10000 // len(TOURS[pid]))
            if c.violations:
                return
        for k, (name, kw, traces, steps) in enumerate(d['parts']):
            random_part(c, name, prof(d['fields'], **kw), d['clauses'], c.n(traces, traces * 20), c.n(steps, steps * 2), salt=k)
            if c.violations:
                break
    return run
