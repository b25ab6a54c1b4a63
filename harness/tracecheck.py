"""Shared by the checks: model checking a specification, validating recorded traces against one."""
import json
import random

from harness import tlc
from harness.tlc import MachineryError


def model(c, module, what, cfg=None, timeout=800, args=(), expect_violation=None):
    """check a specification exhaustively; the specification itself has to be right on every tree"""
    out, s = tlc.run(module, cfg=cfg, timeout=timeout, args=args)
    if s['code'] != 0 or not s['finished']:
        raise MachineryError('TLC on %s: %s' % (module, out[-3000:]))
    c.cov['states'] += s['distinct']
    c.cov['transitions'] += s['generated']
    c.part('model ' + (cfg or module), what=what, states=s['distinct'], transitions=s['generated'], depth=s['depth'])
    return out


def validate(c, module, name, traces, corrupt, kind, chunk=6000, meta=None, describe=None):
    """every trace has to be a behaviour of the specification; corrupted copies have to be rejected"""
    rnd = random.Random(c.seed)
    probes = []
    for t in traces:
        if any(e['err'] for e in t['evs']):
            continue
        p = corrupt(t, rnd) if corrupt else None
        if p is not None:
            probes.append(p)
        if len(probes) >= 6:
            break
    bad, s = tlc.check_traces(module, probes + traces, meta or {}, chunk=chunk, timeout=850 if c.quick else 3600)
    hit = set(b[0] for b in bad if b[0] < len(probes))
    bad = [(b[0] - len(probes),) + b[1:] for b in bad if b[0] >= len(probes)]
    if corrupt and not bad and (len(hit) < len(probes) or not probes):
        raise MachineryError('%d of %d corrupted traces were accepted' % (len(probes) - len(hit), len(probes)))
    ops, outs = {}, {}
    for t in traces:
        for e in t['evs']:
            k = e['op']['t']
            ops[k] = ops.get(k, 0) + 1
            if e['out'] != 'ok':
                outs[k + ':' + e['out']] = outs.get(k + ':' + e['out'], 0) + 1
    steps = sum(len(t['evs']) for t in traces)
    c.cov['states'] += s['distinct']
    c.cov['transitions'] += s['generated']
    c.cov['traces_validated_against_impl'] += len(traces)
    c.cov['steps_validated'] += steps
    c.part(name, traces=len(traces), steps=steps, mismatches=len(bad), corrupted_rejected='%d/%d' % (len(hit), len(probes)),
           operations=ops, outcomes=outs)
    if len(c.cov['samples']) < 4 and traces:
        t = traces[len(traces) // 2]
        c.cov['samples'].append({'part': name, 'operations': [e['op'] for e in t['evs']][:10]})
    for t, l, cl, x in bad[:20]:
        tr = traces[t]
        ev = tr['evs'][l] if l >= 0 else {}
        text = 'step %d of a history of the real code is not allowed by the specification (spec/%s.tla): clauses %s; %s gave %s %s %s' % (
            l, module, ','.join(cl), json.dumps(ev.get('op')), ev.get('out'), json.dumps(ev.get('ret')), ev.get('err', '') or (x if l < 0 else ''))
        rep = dict((k, v) for k, v in tr.items() if k != 'evs')
        rep.update({'kind': kind, 'kind2': tr.get('kind'), 'ops': [e['op'] for e in tr['evs'][:l + 1]], 'event': ev, 'clauses': cl})
        c.violation(text, rep)
    return bad


def scripts(c, module, what, cfg=None, timeout=800, args=()):
    """behaviours which TLC writes out while it checks a specification exhaustively: one for every transition"""
    out = model(c, module, what, cfg, timeout, args)
    got = []
    for line in out.splitlines():
        if line.startswith('"SCRIPT '):
            got.append(json.loads(json.loads(line)[7:]))
    if not got:
        raise MachineryError('TLC wrote no scripts for ' + module)
    return got
