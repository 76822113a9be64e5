"""The simulated environment of one run: faults, durations, streams."""

import collections
import io
import random

from . import hooks
from . import kernel as K


def short(x):
    return x.rsplit('/', 1)[-1] if isinstance(x, str) else x


class World:
    def __init__(self, kernel, plan):
        self.k = kernel
        self.plan = plan
        self.missing_classes = set(plan.get('missing', ()))
        self.executors = []
        self.servers = []
        self.faults = [dict(f) for f in plan.get('faults', ())]
        self.n = collections.Counter()
        self.fired = []
        self.enabled = True
        self.dur = plan.get('dur', [0.05, 20.0])
        self.seed = plan.get('seed', 0)
        self.out = {}               # proc -> StdStream for System.out
        self.silent = 0
        self.watch = None           # path -> what is found there

    # -- hooks interface

    def site(self, name, *info):
        self.k.site(name, *info)

    def fault(self, name, *info):
        prog = short(info[0]) if info else None
        self.n[name] += 1
        self.n[(name, prog)] += 1
        if not self.enabled:
            return None
        for f in self.faults:
            if f['site'] != name:
                continue
            if f.get('prog') is not None:
                hit = f['prog'] == prog and f['nth'] == self.n[(name, prog)]
            else:
                hit = f['nth'] == self.n[name]
            if hit or f.get('always'):
                kind = f.get('kind', True)
                self.fired.append((name, prog, kind))
                self.k.log('fault', site=name, prog=prog, kind_=kind)
                return kind
        return None

    def node(self):
        """Building a node fails: memory of the JVM or of Python is exhausted."""
        f = self.fault('ast.oom')
        if f == 'py':
            raise MemoryError('out of memory')
        if f:
            from . import jvm
            jvm.throw('java.lang.OutOfMemoryError', 'Java heap space')

    def block(self, pred, timeout, what=None):
        return self.k.block(pred, timeout, getattr(what, 'label', what))

    def wake(self, what):
        pass

    def log(self, kind, **kw):
        if 'prog' in kw:
            if self.watch is not None:
                kw.update(self.watch(kw['prog']))
            kw['prog'] = short(kw['prog'])
        self.k.log(kind, **kw)

    def jvm_stdout(self, s):
        o = self.out.get(self.k.cur.proc)
        if o is not None:
            o.foreign(s, 'jvm')

    def jvm_stderr(self, s):
        pass

    def duration(self, name, prog):
        self.n[('dur', name, prog)] += 1
        o = self.plan.get('durations', {}).get('%s/%s/%d' % (
            name, prog, self.n[('dur', name, prog)]))
        if o is not None:
            return o
        r = random.Random('%s/%s/%s/%d' % (self.seed, name, prog,
                                           self.n[('dur', name, prog)]))
        lo, hi = self.dur
        return lo * (hi / lo) ** r.random()

    def delay(self, name):
        self.k.sleep(self.duration(name, None), name)

    def after(self, name, fn, seconds=None, *info):
        if seconds is None:
            seconds = self.duration(name, short(info[0]) if info else None)
        self.k.after(seconds, fn)


class Tee(io.RawIOBase):
    """A raw output stream that hands every write to a callback."""

    def __init__(self, cb):
        self.cb = cb

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        self.cb(b)
        return len(b)


class PipeIn(io.RawIOBase):
    """A raw input stream fed by the simulation; readinto blocks in the kernel."""

    def __init__(self, k):
        self.k = k
        self.buf = bytearray()
        self.eof = False

    def readable(self):
        return True

    def feed(self, data):
        self.buf += data

    def end(self):
        self.eof = True

    def readinto(self, b):
        self.k.block(lambda: self.buf or self.eof, None, 'stdin')
        n = min(len(b), len(self.buf))
        b[:n] = self.buf[:n]
        del self.buf[:n]
        return n


def start(plan, policy):
    k = K.Kernel(policy, tick=plan.get('tick', 1e-4),
                 max_steps=plan.get('max_steps', 300_000),
                 max_time=plan.get('max_time', 20_000.0))
    w = World(k, plan)
    K.set_kernel(k)
    hooks.WORLD = w
    hooks.AST = w.node if any(f['site'] == 'ast.oom' for f in w.faults) else None
    return k, w
