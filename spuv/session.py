"""Obligation bookkeeping: runs functions against their contracts and discharges what comes out."""
import os
import sys
import time
import traceback
import multiprocessing as mp
from .terms import *
from . import terms as TM
from . import prove as PV
from .prove import prove
from .interp import *
from . import interp as IP
from . import stdlib as SL
from . import arr as AR
from .loader import Program
from . import build

sys.setrecursionlimit(40000)


def make_interp(P, abstract=True):
    I = Interp(P)
    I.overrides.update(SL.OVERRIDES)
    if abstract:
        I.overrides.update(AR.IP_OVERRIDES)
    I.ghost['abstract_arrays'] = abstract
    return I


_progs = {}


def load_program(files):
    key = tuple(sorted(str(f) for f in files))
    P = _progs.get(key)
    if P is None:
        P = Program()
        for p in build.export(files):
            P.load(p)
        _progs[key] = P
    return P


def find(P, name, nparams=None, sig=None, pred=None):
    c = [f for f in P.byname.get(name, []) if f.hasbody]
    if nparams is not None:
        c = [f for f in c if len(f.params) == nparams]
    if sig is not None:
        c = [f for f in c if sig in f.id]
    if pred is not None:
        c = [f for f in c if pred(f)]
    if len(c) != 1:
        raise Unsupported('function %s: %d candidates' % (name, len(c)))
    return c[0]


class Obl:
    __slots__ = ('fn', 'name', 'status', 'backend', 'ms', 'info', 'model')

    def __init__(self, fn, name, status, backend='', ms=0.0, info='', model=None):
        self.fn, self.name, self.status, self.backend, self.ms, self.info, self.model = fn, name, status, backend, ms, info, model

    def row(self):
        return dict(fn=self.fn, name=self.name, status=self.status, backend=self.backend, ms=round(self.ms, 1), info=self.info, model=self.model)


class Task:
    """verification of one function body (for one parameter instance) against its contract"""

    def __init__(self, name, run, bounded=None, weight=1, group=None):
        self.name = name
        self.run = run
        self.bounded = bounded
        self.weight = weight
        self.group = group


class Ctx:
    """passed to a task's run(): collects obligations"""

    def __init__(self, name, timeout=20000):
        self.name = name
        self.obls = []
        self.timeout = timeout
        self.assumed = set()
        self.contracts = {}
        self.builtins = {}
        self.executed = {}

    def discharge(self, name, goal, assume=(), mode='bv', timeout=None):
        t = time.time()
        if goal is TRUE:
            self.obls.append(Obl(self.name, name, 'proved', 'normaliser', 0.0))
            return True
        r = prove(goal, list(assume), mode, timeout or self.timeout)
        ms = (time.time() - t) * 1000
        if r.ok is True:
            self.obls.append(Obl(self.name, name, 'proved', r.how, ms))
            return True
        if r.ok is False:
            self.obls.append(Obl(self.name, name, 'refuted', r.how, ms, pp(goal, 12)[:1500], r.model))
            return False
        self.obls.append(Obl(self.name, name, 'unknown', r.how, ms, pp(goal, 12)[:1500]))
        return None

    def run(self, I, call, post=None, throws_ok=None, mode='bv', expect_return=True, timeout=None, extra_asm=()):
        """explore call(I); post(I, value) yields (name, goal); throwing is allowed only where throws_ok holds"""
        I.checks = []
        I.throws = []
        goals = []
        returned = []

        def on_path(I, v):
            pc = list(I.pc)
            returned.append(pc)
            n0 = len(I.checks)
            if post is not None:
                for nm, g in post(I, v):
                    goals.append((nm, g, list(I.pc)))
            del I.checks[n0:]
        I.explore(call, on_path)
        seen = set()
        if expect_return:
            ok = False
            for pc in returned[:8]:
                r = prove(FALSE, pc + list(extra_asm), 'bv', 5000, cvc5=False)
                if r.ok is not True:
                    ok = True
                    break
            self.obls.append(Obl(self.name, 'reachable-return', 'proved' if ok else 'refuted', 'z3', 0.0, '' if ok else 'no feasible returning path'))
        for nm, g, pc in goals:
            self._one(nm, g, pc, seen, mode, timeout, extra_asm)
        for nm, g, pc in I.checks:
            self._one('safety: ' + nm, g, pc, seen, mode, timeout, extra_asm)
        for pc, msg in I.throws:
            g = not_(pc) if throws_ok is None or throws_ok is False else implies(pc, throws_ok)
            self._one('does not raise under its precondition', g, [], seen, mode, timeout, extra_asm, info=str(msg))
        for d, s in ((self.contracts, I.used_contracts), (self.builtins, I.used_builtins), (self.executed, I.executed)):
            for k, v in s.items():
                d[k] = d.get(k, 0) + v

    def _one(self, nm, g, pc, seen, mode, timeout, extra, info=''):
        key = (nm, g, tuple(pc))
        if key in seen:
            return
        seen.add(key)
        self.discharge(nm, g, pc + list(extra), mode, timeout)
        if info and self.obls[-1].status != 'proved':
            self.obls[-1].info = (info + ' :: ' + self.obls[-1].info)[:1500]


def _execute(task):
    t = time.time()
    ctx = Ctx(task.name)
    err = None
    try:
        task.run(ctx)
        if not ctx.obls:
            err = 'no obligations generated'
    except Unsupported as e:
        err = 'unsupported: %s' % e
        if os.environ.get('SPUV_TB'):
            err += ' @ ' + '; '.join('%s:%d' % (os.path.basename(x.filename), x.lineno) for x in traceback.extract_tb(sys.exc_info()[2])[-int(os.environ["SPUV_TB"]) - 4:])
    except (Throw, Infeasible, NoMerge) as e:
        err = 'engine: %r' % e
    except RecursionError:
        err = 'engine: recursion'
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])[-3:]
        err = 'engine: %s: %s at %s' % (type(e).__name__, e, '; '.join('%s:%d' % (os.path.basename(x.filename), x.lineno) for x in tb))
    if err:
        ctx.obls.append(Obl(task.name, 'verification', 'unsupported', '', 0, err))
    fn = {}
    return dict(task=task.name, obls=[o.row() for o in ctx.obls], s=time.time() - t, bounded=task.bounded,
                contracts=ctx.contracts, builtins=ctx.builtins, executed=list(ctx.executed), assumed=sorted(ctx.assumed))


_TASKS = None


def _worker(i, timeout):
    import signal

    def alarm(*a):
        raise Unsupported('time limit')
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(timeout))
    try:
        return _execute(_TASKS[i])
    finally:
        signal.alarm(0)


def _child(q, idxs, timeout):
    pass


def run_tasks(tasks, jobs=8, timeout=120):
    """every task in its own forked worker (a crash or a time-out of one is that task's result only)"""
    global _TASKS
    _TASKS = tasks
    res = [None] * len(tasks)
    order = sorted(range(len(tasks)), key=lambda i: -tasks[i].weight)
    running = {}
    ctx = mp.get_context('fork')

    def target(i, conn):
        try:
            r = _worker(i, timeout)
        except BaseException as e:
            r = dict(task=tasks[i].name, obls=[Obl(tasks[i].name, 'verification', 'unsupported', '', 0, 'worker: %r' % e).row()], s=0, bounded=None, contracts={}, builtins={}, executed=[], assumed=[])
        conn.send(r)
        conn.close()
    from multiprocessing.connection import wait
    pend = list(order)
    while pend or running:
        while pend and len(running) < jobs:
            i = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=target, args=(i, b))
            p.start()
            b.close()
            running[a] = (i, p, time.time())
        ready = wait(list(running), timeout=2)
        for a in ready:
            i, p, t0 = running.pop(a)
            try:
                res[i] = a.recv()
            except EOFError:
                res[i] = None
            p.join()
        for a in list(running):
            i, p, t0 = running[a]
            if time.time() - t0 > timeout + 30:
                p.kill()
                p.join()
                running.pop(a)
                res[i] = None
    for i, r in enumerate(res):
        if r is None:
            res[i] = dict(task=tasks[i].name, obls=[Obl(tasks[i].name, 'verification', 'unsupported', '', 0, 'worker died or ran out of time').row()], s=timeout, bounded=None, contracts={}, builtins={}, executed=[], assumed=[])
    return res
