"""What all checks share: running things in parallel, counting, reporting, evidence."""
import concurrent.futures as cf
import json
import multiprocessing
import multiprocessing.connection
import os
import re
import resource
import signal
import sys
import time
import traceback

from harness.common import REPO, VERIF
from harness.tlc import MachineryError

EVIDENCE = os.path.join(VERIF, 'evidence')
FINDINGS = os.path.join(VERIF, 'known_findings.txt')


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGINT, signal.SIG_IGN)


class Crash(Exception):
    """the interpreter was brought down by what the code under test did"""


class Hang(BaseException):
    pass


CPU = 200                       # seconds of processor time for one call, set by the tier


def _hang(signum, frame):
    raise Hang()


def _call(a):
    f, args = a
    signal.signal(signal.SIGVTALRM, _hang)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU)
    try:
        return f(*args)
    except Hang:
        text = traceback.format_exc()
        raise Crash('no end after %d s' % CPU, {'function': f.__name__, 'args': args, 'traceback': text[-3000:]})
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


CRASHES = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE)


def _serve(conn, f, argss, idx):
    _limit()
    for i in idx:
        conn.send((i, None))
        conn.send((i, (_call((f, argss[i])),)))


def again(f, argss, procs=8):
    """the same with processes whose end is observed, after a worker died: which of the arguments bring it down?"""
    ctx = multiprocessing.get_context('fork')
    out, ps = {}, []
    for k in range(procs):
        here, there = ctx.Pipe(False)
        p = ctx.Process(target=_serve, args=(there, f, argss, range(k, len(argss), procs)))
        p.start()
        there.close()
        ps.append([here, p, None])
    try:
        open_ = dict((x[0], x) for x in ps)
        while open_:
            ready = multiprocessing.connection.wait(list(open_), timeout=600)
            if not ready:
                raise MachineryError('a worker process did not answer')
            for conn in ready:
                x = open_[conn]
                try:
                    i, r = conn.recv()
                    x[2] = i
                    if r is not None:
                        out[i] = r[0]
                except EOFError:
                    del open_[conn]
                    x[1].join()
                    if -x[1].exitcode in CRASHES:
                        raise Crash('signal %d while performing part %s' % (-x[1].exitcode, x[2]),
                                    {'function': f.__name__, 'args': None if x[2] is None else argss[x[2]]})
                    if x[1].exitcode:
                        raise MachineryError('a worker process died')
    finally:
        for _, p, _ in ps:
            p.terminate()
    return [out[i] for i in range(len(argss))]


def pmap(f, argss, stop=None, procs=8):
    """f(*args) for all args in worker processes, in order; `stop(results so far)` ends early"""
    out = []
    if not argss:
        return out
    ctx = multiprocessing.get_context('fork')
    ex = cf.ProcessPoolExecutor(procs, mp_context=ctx, initializer=_limit)
    try:
        futs, k = [], 0
        argss = list(argss)
        # a moving window, so that stopping early drops little work
        window = procs * 4
        while k < len(argss) or futs:
            while k < len(argss) and len(futs) < window:
                futs.append(ex.submit(_call, (f, argss[k])))
                workers = ex._processes
                k += 1
            out.append(futs.pop(0).result(timeout=600))
            if stop is not None and stop(out):
                for x in futs:
                    x.cancel()
                break
    except cf.process.BrokenProcessPool:
        for p in list(workers.values()):
            p.join(10)
        if not any(-(p.exitcode or 0) in CRASHES for p in workers.values()):
            raise MachineryError('a worker process died')
        for _ in range(3):
            out = again(f, argss[:k])
        return out + (pmap(f, argss[k:], stop) if stop is None or not stop(out) else [])
    except cf.TimeoutError:
        raise MachineryError('a worker process did not answer')
    finally:
        procs = list(getattr(ex, '_processes', {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            p.terminate()
    return out


def blames(text):
    """did the last frame (of the worker, if it came from one) lie in the code under test?"""
    first = text.split('The above exception was the direct cause')[0]
    frames = re.findall(r'File "([^"]+)", line', first)
    mine = [f for f in frames if f.startswith(os.path.join(REPO, 'paramz')) or f.startswith(VERIF)]
    return bool(mine) and not mine[-1].startswith(VERIF)


class Check(object):
    def __init__(self, pid, tier, seed, level='model_checking', budget=None):
        self.id, self.tier, self.seed, self.level = pid, tier, seed, level
        global CPU
        CPU = 200 if tier == 'quick' else 3000
        self.t0 = time.time()
        self.violations = []
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'steps_validated': 0,
                    'samples': [], 'parts': {}}
        self.assume = []
        self.budget = budget or (60 if tier == 'quick' else 1500)

    @property
    def quick(self):
        return self.tier == 'quick'

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def left(self):
        return self.budget - (time.time() - self.t0)

    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a)
        sys.stdout.flush()

    def violation(self, text, replay, key=None):
        """replay: something JSON can write that shows the failing input"""
        self.violations.append((text, replay, key))

    def part(self, name, **kw):
        self.cov['parts'][name] = kw
        self.log(name, ' '.join('%s=%s' % (k, v) for k, v in kw.items() if not isinstance(v, (dict, list))))

    def findings(self):
        out = []
        if os.path.exists(FINDINGS):
            for line in open(FINDINGS):
                line = line.strip()
                if line.startswith('finding: property=%s ' % self.id):
                    rest = line.split(' ', 2)[2]
                    key, _, what = rest.partition(' ')
                    out.append((key, what))
        return out

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        for f in os.listdir(EVIDENCE):
            if f.startswith(self.id + '-replay'):
                os.unlink(os.path.join(EVIDENCE, f))
        known = dict(self.findings())
        seen, bad = set(), []
        for text, replay, key in self.violations:
            if key is not None and key in known:
                seen.add(key)
            else:
                bad.append((text, replay))
        for key, what in known.items():
            print('KNOWN-FINDING: property=%s %s %s%s' % (self.id, key, what, '' if key in seen else ' (not met in this run)'))
        for i, (text, replay) in enumerate(bad[:5]):
            path = os.path.join(EVIDENCE, '%s-replay%d.json' % (self.id, i))
            with open(path, 'w') as f:
                json.dump({'property': self.id, 'what': text, 'replay': replay}, f, indent=1, default=str)
            print('%s: %s' % (self.id, text[:1500]))
            print('VIOLATION property=%s replay=%s' % (self.id, path))
        if len(bad) > 5:
            print('... and %d more' % (len(bad) - 5))
        ev = {'property': self.id, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(bad)}
        with open(os.path.join(EVIDENCE, self.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        self.log('violations: %d' % len(bad))
        return 1 if bad else 0


def main(checks, argv):
    pid = argv[0]
    tier = 'thorough' if '--thorough' in argv else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = Check(pid, tier, seed)
    try:
        checks[pid](c)
    except MachineryError as e:
        print('machinery: %s' % e)
        return 2
    except Crash as e:
        c.violation('the real code brought the interpreter down or does not return: ' + e.args[0], {'kind': 'crash', 'where': e.args[1]})
    except Exception as e:
        traceback.print_exc()
        text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
        if isinstance(e, (OSError, MemoryError)) or not blames(text):
            print('machinery: the check itself failed')
            return 2
        c.violation('the real code failed where it was used as it has to work', {'kind': 'traceback', 'traceback': text[-6000:]})
    return c.finish()
