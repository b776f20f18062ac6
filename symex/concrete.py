"""Concrete side: runs harness code against the unmodified /repo.

usage: concrete.py < jobs.json > results.json ; a job is
{"module": .., "params": .., "values": {name: value}}"""
import json
import os
import signal
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CMF_REPO', '/repo')


class S(object):
    """input factory over concrete values"""

    def __init__(self, values):
        self.v = values

    def char(self, name, chars=None, cls=None):
        return self.v[name]

    def text(self, name, n, chars=None):
        return ''.join(self.v['%s.%d' % (name, i)] for i in range(n))

    def word(self, name, letter, lo, hi):
        return letter * self.v[name]

    def int(self, name, lo, hi):
        return self.v[name]

    def bool(self, name):
        return bool(self.v[name])

    def pick(self, name, options):
        return options[self.v[name]]


class Timeout(Exception):
    pass


def run_job(job):
    import importlib
    from symex import rt
    mod = importlib.import_module(job['module'])

    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(job.get('timeout', 20)))
    import logging
    logging.disable(logging.CRITICAL)
    try:
        inp = mod.inputs(S(job['values']), job['params'])
        try:
            obs = mod.run(job['params'], inp)
            r = ['ok', obs]
        except rt.Bad as ex:
            r = ['bad', str(ex)]
        except rt.Skip:
            r = ['skip', None]
        except Timeout:
            r = ['bad', 'did not terminate within the time limit']
        except Exception as ex:
            import traceback
            r = ['bad', 'unexpected %s: %s\n%s' % (
                type(ex).__name__, ex, traceback.format_exc()[-1500:])]
        try:
            r.append(repr(mod.show(job['params'], inp))[:20000] if hasattr(
                mod, 'show') else repr(inp)[:20000])
        except Exception as ex:
            r.append(repr(job['values']))
    finally:
        signal.alarm(0)
    return r


def norm(x):
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, bytes):
        return x.decode('latin1')
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(type(x))


def main():
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    jobs = json.load(sys.stdin)
    real = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    sys.setrecursionlimit(6000)
    out = []
    for j in jobs:
        try:
            out.append(norm(run_job(j)))
        except BaseException as ex:
            out.append(['error', '%s: %s' % (type(ex).__name__, ex), ''])
    sys.stdout.flush()
    with os.fdopen(real, 'w', encoding='utf-8') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main()
