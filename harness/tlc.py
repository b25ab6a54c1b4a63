"""Runs TLC and reads what it prints."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from harness.common import VERIF

JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(VERIF, 'spec')


class MachineryError(Exception):
    pass


def run(module, cfg=None, env=None, timeout=800, workers=8, args=(), heap='8g'):
    """returns (output, summary); raises MachineryError if TLC itself does not work"""
    meta = tempfile.mkdtemp(prefix='tlc_')
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap, '-cp', JAR, 'tlc2.TLC', '-workers', str(workers),
               '-metadir', meta, '-noGenerateSpecTE', '-config', cfg or module + '.cfg'] + list(args) + [module]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, universal_newlines=True)
        except subprocess.TimeoutExpired as x:
            raise MachineryError('TLC on %s took longer than %s s' % (module, timeout))
        out = p.stdout
        m = re.findall(r'(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found', out)
        s = {'code': p.returncode, 'generated': 0, 'distinct': 0,
             'finished': 'Model checking completed' in out or 'Finished in' in out}
        if m:
            s['generated'], s['distinct'] = (int(x.replace(',', '')) for x in m[-1])
        d = re.findall(r'depth of the complete state graph search is (\d+)', out)
        s['depth'] = int(d[-1]) if d else 0
        return out, s
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def check_traces(module, traces, meta, timeout=800, workers=8, chunk=4000, tries=None):
    """validate traces against the trace specification `module`;
    returns (list of (trace index, step, clauses, text), counts)"""
    bad, gen, dist = [], 0, 0
    tries = tries if tries is not None else [24]
    for k in range(0, len(traces), chunk):
        part = traces[k:k + chunk]
        fd, path = tempfile.mkstemp(prefix='traces_', suffix='.json')
        with os.fdopen(fd, 'w') as f:
            json.dump(dict(meta, traces=part), f)
        try:
            out, s = run(module, env={'TRACE_FILE': path}, timeout=timeout, workers=workers)
        finally:
            os.unlink(path)
        gen += s['generated']
        dist += s['distinct']
        for m in re.finditer(r'<<\s*"MISMATCH",\s*(\d+),\s*(\d+),\s*(\{.*?\}),\s*(.*?)\s*>>', out, re.S):
            bad.append((k + int(m.group(1)) - 1, int(m.group(2)) - 1, re.findall(r'"(\w+)"', m.group(3)), m.group(4)))
        if 'Parsing or semantic analysis failed' in out or 'Parse Error' in out:
            raise MachineryError('TLC cannot read %s: %s' % (module, out[-2000:]))
        if s['code'] != 0 or not s['finished']:
            tries[0] -= 1
            if tries[0] < 0:
                # enough of these have been found
                continue
            # the specification could not be evaluated on one of the traces: find out on which
            if len(part) > 1:
                h = max(1, len(part) // 2)
                for i in range(0, len(part), h):
                    b, c = check_traces(module, part[i:i + h], meta, timeout, workers, tries=tries)
                    bad += [(k + i + t, l, cl, x) for t, l, cl, x in b]
            else:
                bad.append((k, -1, ['eval'], out[-1500:]))
    return sorted(set((t, l, tuple(c), x) for t, l, c, x in bad)), {'generated': gen, 'distinct': dist}
