"""Exploration driver: distributes decision prefixes over worker processes,
collects statistics, replays candidate violations against the real code."""
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback

from . import core, strs, shim, rt, state
from .core import mask_of, SymBool, f_and, f_or, f_not, f_in, mkbool
from .strs import SymStr, Ch, model_str

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


class BadPath(Exception):
    """violation with its model"""

    def __init__(self, model, msg):
        Exception.__init__(self, msg)
        self.model = model


class SymInputs(object):
    """input factory creating symbolic values"""

    def __init__(self, e):
        self.e = e
        self.made = {}

    def _char(self, name, m):
        if name not in self.made:
            self.made[name] = self.e.new_char(name, m)
        return self.made[name]

    def _int(self, name, lo, hi):
        if name not in self.made:
            self.made[name] = self.e.new_int(name, lo, hi)
        return self.made[name]

    def char(self, name, chars=None, cls=None):
        m = mask_of(chars) if chars is not None else core.FULL
        cid = self._char(name, m)
        return strs.mknorm((Ch(cid),))

    def text(self, name, n, chars=None):
        m = mask_of(chars) if chars is not None else core.FULL
        return strs.mknorm([Ch(self._char('%s.%d' % (name, i), m))
                            for i in range(n)])

    def word(self, name, letter, lo, hi):
        n = self._int(name, lo, hi)
        if lo == hi:
            return letter * lo
        return SymStr((strs.Rep(letter, n.l),)) if lo >= 1 else strs.repeat(
            letter, n)

    def int(self, name, lo, hi):
        return self._int(name, lo, hi)

    def bool(self, name):
        return self._int(name, 0, 1) == 1

    def pick(self, name, options):
        """one of several concrete options, decided by forking"""
        n = self._int(name, 0, len(options) - 1)
        return options[n.__index__()]


def _formula(c):
    if isinstance(c, SymBool):
        return c.f
    return bool(c)


class Impl(object):
    """symbolic implementation of rt"""

    def __init__(self, e):
        self.e = e
        self.asserts = 0

    def check(self, cond, msg):
        e = self.e
        self.asserts += 1
        if isinstance(cond, SymBool):
            f = cond.f
            q = e.quick(f)
            if q is None:
                r = e.feasible(f_not(f))
                if r == 'sat':
                    raise BadPath(e.last_model, self._msg(msg))
                if r == 'unknown':
                    raise core.Limit('solver unknown')
                e.known[f] = True
                return
            if q:
                return
            cond = False
        if not cond:
            raise BadPath(dict(e.get_model()), self._msg(msg))

    def _msg(self, msg):
        try:
            return str(msg() if callable(msg) else msg)[:500]
        except Exception:
            return 'violation'

    def assume(self, cond):
        self.e.require(cond if not isinstance(cond, SymBool) else cond.f)

    def conj(self, cs):
        return mkbool(f_and([_formula(c) for c in cs]))

    def disj(self, cs):
        return mkbool(f_or([_formula(c) for c in cs]))

    def neg(self, c):
        return mkbool(f_not(_formula(c)))

    def inset(self, ch, chars):
        if isinstance(ch, SymStr):
            if len(ch.u) != 1 or type(ch.u[0]) is strs.Rep:
                return False
            return mkbool(strs.unit_mask_formula(ch.u[0], mask_of(chars)))
        return len(ch) == 1 and ch in chars

    def is_ascii(self, s):
        if not isinstance(s, SymStr):
            return s.isascii()
        fs = []
        for u in s.u:
            if type(u) is strs.Ch:
                fs.append(u.inmask(core.mask_pred(str.isascii)))
            elif not (u if type(u) is str else u.c).isascii():
                return False
        return bool(mkbool(core.f_and(fs))) if fs else True

    def conc(self, x):
        if isinstance(x, (SymStr, strs.SymBytes)):
            return x.concretize()
        if isinstance(x, core.SymInt):
            return x.__index__()
        if isinstance(x, SymBool):
            return bool(x)
        return x


def values_of(e, m):
    out = {}
    for name, k in e.names.items():
        v = m.get(k)
        if v is None:
            v = core.low_bit(e.dom[k[1]]) if k[0] == 'c' else max(
                e.ivl[k[1]][0], 0)
        out[name] = core.ACHR[v] if k[0] == 'c' else v
    return out


def make_fn(task):
    mod = shim.mod(task['module'])
    if not state.BASE.started:
        state.capture()

    def fn(e):
        impl = Impl(e)
        rt.IMPL = impl
        shim.SYS.reset()
        state.fresh()
        if hasattr(mod, 'reset'):
            mod.reset()
        try:
            inp = mod.inputs(SymInputs(e), task['params'])
            try:
                obs = mod.run(task['params'], inp)
                return ('ok', obs, impl.asserts)
            except rt.Skip:
                raise core.PathAbort('skip')
            except BadPath as b:
                return ('bad', b.model, str(b), impl.asserts)
            except rt.Bad as b:
                return ('bad', dict(e.get_model()), str(b), impl.asserts)
            except RecursionError:
                raise core.Limit('recursion')
            except Exception as ex:
                tb = traceback.format_exc()[-3000:]
                return ('exc', dict(e.get_model()), '%s: %s' % (
                    type(ex).__name__, ex), tb, impl.asserts)
        finally:
            rt.IMPL = None
    return fn


def _norm(x):
    from .concrete import norm
    return norm(x)


_POOLS = {}


def explore_chunk(task, prefixes, budget, want_samples, seed, hard_deadline):
    """DFS below the given prefixes for about budget seconds"""
    st = core.Stats()
    t0 = time.time()
    fn = make_fn(task)
    stack = list(prefixes)
    res = {'task': task['id'], 'bad': [], 'samples': [], 'aborts': 0, 'ok': 0,
           'limits': [], 'asserts': 0, 'limit_vals': [], 'skips': 0,
           'maxdepth': 0, 'exc': 0}
    rnd = random.Random(seed)
    pool = _POOLS.setdefault(task['id'], [])
    while stack:
        p = stack.pop()
        e, out = core.explore_one(fn, p, st, task.get('max_branches', 4000),
                                  min(hard_deadline, time.time() + 60), pool)
        if out[0] == 'limit' and out[1] == 'deadline' and \
                time.time() >= hard_deadline:
            stack.append(p)
            stack.extend(e.pending)
            break
        stack.extend(e.pending)
        res['maxdepth'] = max(res['maxdepth'], len(e.log))
        if out[0] == 'ok':
            v = out[1]
            res['asserts'] += v[-1]
            if v[0] == 'ok':
                res['ok'] += 1
                if len(res['samples']) < want_samples or (
                        want_samples and rnd.random() < 0.02 and
                        len(res['samples']) < want_samples + 3):
                    try:
                        m = e.get_model()
                        res['samples'].append(
                            (values_of(e, m), _norm(model_str(v[1], m))))
                    except core.PathAbort:
                        res['aborts'] += 1
                        res['ok'] -= 1
                    except Exception as ex:
                        res['limits'].append('sample %s' % ex)
            else:
                if v[0] == 'exc':
                    res['exc'] += 1
                if len(res['bad']) < 5:
                    res['bad'].append((values_of(e, v[1]), v[2],
                                       v[3] if v[0] == 'exc' else ''))
        elif out[0] == 'abort':
            if out[1] in ('skip', 'assume'):
                res['skips'] += 1
            else:
                res['aborts'] += 1
        else:
            res['limits'].append(out[1])
            if len(res['limit_vals']) < 5:
                try:
                    res['limit_vals'].append(values_of(e, e.get_model()))
                except BaseException:
                    pass
        if len(res['bad']) >= 3:
            break
        if time.time() - t0 > budget:
            break
    res['left'] = stack
    res['stats'] = {k: getattr(st, k) for k in (
        'paths', 'branches', 'queries', 'solver_s', 'lossy', 'unknown', 'forced',
        'quick_sat', 'quick_unsat')}
    res['lossy_sites'] = st.lossy_sites
    res['time'] = time.time() - t0
    return res


def _worker(conn):
    import gc
    gc.disable()
    n = 0
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            return
        try:
            r = explore_chunk(*job)
        except BaseException as ex:
            r = {'task': job[0]['id'], 'error': '%s: %s\n%s' % (
                type(ex).__name__, ex, traceback.format_exc()[-3000:])}
        conn.send(r)
        n += 1
        if n % 5 == 0:
            gc.collect()


class Runner(object):
    def __init__(self, nproc=None):
        self.nproc = nproc or int(os.environ.get('SYMEX_PROCS', '8'))
        self.ctx = mp.get_context('fork')

    def run(self, tasks, deadline, samples_per_task=6, chunk=0.4, verbose=False):
        """explore all tasks; returns {task id: result}"""
        acc = {}
        for t in tasks:
            acc[t['id']] = {
                'ok': 0, 'bad': [], 'samples': [], 'aborts': 0, 'limits': {},
                'limit_vals': [], 'asserts': 0, 'paths': 0, 'branches': 0,
                'queries': 0, 'solver_s': 0.0, 'lossy': 0, 'unknown': 0,
                'forced': 0, 'quick_sat': 0, 'quick_unsat': 0, 'left': 0, 'time': 0.0, 'errors': [], 'skips': 0,
                'maxdepth': 0, 'lossy_sites': {}, 'exc': 0}
        byid = {t['id']: t for t in tasks}
        queue = {t['id']: [[]] for t in tasks}
        busy = {}
        workers = []
        for _ in range(self.nproc):
            a, b = self.ctx.Pipe()
            p = self.ctx.Process(target=_worker, args=(b,), daemon=True)
            p.start()
            b.close()
            workers.append((p, a))
        idle = list(range(self.nproc))
        order = [t['id'] for t in tasks]
        inflight = {tid: 0 for tid in order}
        stop = set()
        rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
        rr = 0
        try:
            while True:
                now = time.time()
                live = [tid for tid in order if queue[tid] and tid not in stop]
                if now < deadline:
                    while idle and live:
                        # least explored time first keeps tasks balanced
                        tid = min(live, key=lambda t: (
                            acc[t]['time'] / byid[t].get('weight', 1.0)
                            + inflight[t] * chunk))
                        q = queue[tid]
                        n = max(1, min(len(q) // max(1, len(idle)), 40))
                        # take from the front (shallow) to spread work
                        take = [q.pop(rnd.randrange(len(q))) for _ in range(n)] \
                            if len(q) > 200 else q[:n]
                        if len(q) and take and take is not q and q[:n] == take:
                            del q[:n]
                        w = idle.pop()
                        first = acc[tid]['paths'] == 0
                        b = 0.05 if len(q) + len(take) < 8 and \
                            acc[tid]['paths'] < 200 else chunk
                        want = max(0, samples_per_task - len(acc[tid]['samples']))
                        workers[w][1].send((byid[tid], take, b, min(want, 2),
                                            rnd.random(), deadline))
                        busy[w] = (tid, now)
                        inflight[tid] += 1
                        live = [t for t in order if queue[t] and t not in stop]
                if not busy:
                    break
                ready = mp.connection.wait([workers[w][1] for w in busy],
                                           timeout=5)
                for w in list(busy):
                    c = workers[w][1]
                    if c in ready:
                        try:
                            r = c.recv()
                        except EOFError:
                            tid = busy[w][0]
                            acc[tid]['errors'].append('worker died')
                            stop.add(tid)
                            a, b = self.ctx.Pipe()
                            p = self.ctx.Process(target=_worker, args=(b,),
                                                 daemon=True)
                            p.start()
                            b.close()
                            workers[w] = (p, a)
                            inflight[tid] -= 1
                            del busy[w]
                            idle.append(w)
                            continue
                        tid = busy.pop(w)[0]
                        inflight[tid] -= 1
                        idle.append(w)
                        A = acc[tid]
                        if 'error' in r:
                            A['errors'].append(r['error'])
                            stop.add(tid)
                            continue
                        queue[tid].extend(r['left'])
                        for k in ('ok', 'aborts', 'asserts', 'skips', 'exc'):
                            A[k] += r[k]
                        A['bad'].extend(r['bad'])
                        A['samples'].extend(r['samples'])
                        A['limit_vals'].extend(r['limit_vals'][:20])
                        for l in r['limits']:
                            A['limits'][l] = A['limits'].get(l, 0) + 1
                        for k, v in r['stats'].items():
                            A[k] += v
                        for k, v in r['lossy_sites'].items():
                            A['lossy_sites'][k] = A['lossy_sites'].get(k, 0) + v
                        A['time'] += r['time']
                        A['maxdepth'] = max(A['maxdepth'], r['maxdepth'])
                        if len(A['bad']) >= 12:
                            stop.add(tid)
                    elif time.time() > busy[w][1] + 200 or \
                            time.time() > deadline + 90:
                        # stuck
                        tid = busy.pop(w)[0]
                        workers[w][0].kill()
                        acc[tid]['errors'].append('worker stuck')
                        stop.add(tid)
                        inflight[tid] -= 1
                        a, b = self.ctx.Pipe()
                        p = self.ctx.Process(target=_worker, args=(b,),
                                             daemon=True)
                        p.start()
                        b.close()
                        workers[w] = (p, a)
                        idle.append(w)
        finally:
            for p, c in workers:
                try:
                    c.send(None)
                except Exception:
                    pass
            for p, c in workers:
                p.join(0.5)
                if p.is_alive():
                    p.kill()
        for tid in order:
            acc[tid]['left'] = len(queue[tid])
            acc[tid]['exhaustive'] = (not queue[tid] and not acc[tid]['errors']
                                      and tid not in stop)
        return acc


def concrete(jobs, timeout=300, nproc=8):
    """run jobs on the unmodified code; returns list of results"""
    if not jobs:
        return []
    n = min(nproc, max(1, len(jobs) // 4 + 1))
    parts = [jobs[i::n] for i in range(n)]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               PYTHONPATH=shim.REPO)
    procs = []
    for p in parts:
        pr = subprocess.Popen([PY, os.path.join(VERIF, 'symex', 'concrete.py')],
                              stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, env=env, cwd='/tmp')
        procs.append(pr)
    import threading
    outs = [None] * n

    def go(i):
        try:
            o, er = procs[i].communicate(json.dumps(parts[i]).encode(), timeout)
            outs[i] = json.loads(o.decode())
        except Exception as ex:
            procs[i].kill()
            outs[i] = [['error', 'replay process: %s' % ex, '']] * len(parts[i])
    th = [threading.Thread(target=go, args=(i,)) for i in range(n)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    res = [None] * len(jobs)
    for i in range(n):
        res[i::n] = outs[i]
    return res
