"""The simulator: one process, real threads run one at a time, virtual time.

`install()` replaces the primitives of `threading`, `queue`, `time` and
`asyncio` and must run before anything that creates locks is imported.  While
no kernel is active the replacements behave like their originals in a
single-threaded program.
"""

import _thread
import heapq
import itertools
import os
import random
import sys
import time as _time

_real_start = _thread.start_new_thread
_real_lock = _thread.allocate_lock
_ident = _thread.get_ident
real_time = _time.time
real_monotonic = _time.monotonic
real_sleep = _time.sleep
real_exit = os._exit

KERNEL = None
EPOCH = 1_700_000_000.0


class SimStuck(BaseException):
    """Raised in the driver: nothing can run any more."""


class SimLimit(BaseException):
    """Raised in the driver: the run exceeded its step or time bound."""


class SimExit(BaseException):
    """A simulated process called os._exit."""


class T:
    __slots__ = ('name', 'key', 'baton', 'state', 'pred', 'deadline', 'proc', 'steps',
                 'pending', 'prio', 'sentinel', 'order', 'what', 'start')

    def __init__(self, name, key, proc, order):
        self.name, self.key, self.proc, self.order = name, key, proc, order
        self.baton = _real_lock()
        self.baton.acquire()
        self.state = 'run'
        self.pred = self.deadline = self.pending = self.sentinel = self.what = None
        self.start = None
        self.steps = 0
        self.prio = 0.0


class Policy:
    """Decides, at every site, whether the current thread goes on.

    kinds: 'serial' (switch only when blocked), 'random' (p), 'pct' (priorities
    with d change points), 'delay' (few long delays at random sites), 'mix'.
    """

    def __init__(self, seed, kind='serial', p=0.0, d=0, horizon=4000, pline=0.0,
                 delays=0, dmax=20.0):
        self.rng = random.Random('policy/%s' % (seed,))
        self.kind, self.p, self.pline = kind, p, pline
        self.points = set(self.rng.randrange(horizon) for _ in range(d))
        self.delays = {}
        for _ in range(delays):
            self.delays[self.rng.randrange(horizon)] = \
                10 ** self.rng.uniform(-3, 0) * dmax
        self.low = 0.0

    def new_thread(self, t):
        t.prio = self.rng.random()

    def at_site(self, k, t, name):
        """None, ('to', thread) or ('delay', seconds)."""
        n = k.steps
        if n in self.delays:
            return ('delay', self.delays[n])
        if self.kind == 'serial':
            return None
        if self.kind == 'pct':
            if n in self.points:
                self.low -= 1.0
                t.prio = self.low
            r = k.runnable()
            best = max(r, key=lambda x: (x.prio, -x.order)) if r else t
            return ('to', best) if best is not t and best.prio > t.prio else None
        p = self.pline if name == 'line' else self.p
        if p and self.rng.random() < p:
            r = [x for x in k.runnable() if x is not t]
            if r:
                return ('to', self.rng.choice(r))
        return None

    def choose(self, k, runnable):
        if self.kind == 'serial':
            return None
        if self.kind == 'pct':
            return max(runnable, key=lambda x: (x.prio, -x.order))
        return self.rng.choice(runnable)


class Replay:
    """Follows a recorded list of decisions."""

    def __init__(self, trace):
        self.map = {}
        for key, step, kind, arg in trace:
            self.map[(key, step, kind[0])] = (kind, arg)

    def new_thread(self, t):
        pass

    def at_site(self, k, t, name):
        d = self.map.get((t.key, t.steps, 't')) or self.map.get((t.key, t.steps, 'd'))
        if d is None:
            return None
        kind, arg = d
        if kind == 'delay':
            return d
        for x in k.runnable():
            if x.key == arg:
                return ('to', x)
        return None

    def choose(self, k, runnable):
        d = self.map.get((k.cur.key, k.cur.steps, 'n'))
        if d is None:
            return None
        for x in runnable:
            if x.key == d[1]:
                return x
        return None


class Kernel:
    def __init__(self, policy, tick=1e-4, max_steps=400_000, max_time=50_000.0):
        self.policy = policy
        self.tick = tick
        self.now = 0.0
        self.steps = 0
        self.seq = 0
        self.switches = 0
        self.max_steps, self.max_time = max_steps, max_time
        self.timers = []
        self.threads = []
        self.keys = {}
        self.dead = set()
        self.exit_codes = {}
        self.trace = []
        self.sched_hash = 0
        self.history = []
        self.by_ident = {}
        self.quiet = 0            # >0: no switching (harness internals)
        self.cur = None
        self.driver = self._new('driver', 'driver')
        self.cur = self.driver
        self.by_ident[_ident()] = self.driver
        self.aborted = None

    # -- threads

    def _new(self, name, proc):
        n = self.keys.get(name, 0)
        self.keys[name] = n + 1
        t = T(name, '%s#%d' % (name, n) if n else name, proc, len(self.threads))
        self.policy.new_thread(t)
        self.threads.append(t)
        return t

    def start_thread(self, fn, args=(), kw=None, name=None, proc=None):
        if name is None:
            owner = getattr(fn, '__self__', None)
            name = getattr(owner, '_name', None) or 'thread'
        t = self._new(name, proc or self.cur.proc)

        def boot():
            self.by_ident[_ident()] = t
            t.baton.acquire()
            try:
                fn(*args, **(kw or {}))
            except SimExit:
                pass
            except SystemExit as e:
                self.log('thread_exit', code=repr(e.code))
            finally:
                # no kernel code may run in a thread after it was killed
                if t.proc not in self.dead:
                    if t.sentinel is not None:
                        t.sentinel.locked_ = False
                    t.state = 'done'
                    self._leave(t)
                else:
                    t.state = 'done'
                    if self.cur is t:
                        self._leave(t)
        _real_start(boot, ())
        self.site('spawn')
        return t

    def _leave(self, t):
        n = self._pick()
        self.cur = n
        n.baton.release()

    def mine(self):
        return self.by_ident.get(_ident())

    def alive(self, t):
        return t.state != 'done' and t.proc not in self.dead

    def _ready(self, t):
        if t.state == 'run':
            return True
        if t.state == 'blk':
            if t.pending is not None:
                return True
            if t.deadline is not None and t.deadline <= self.now:
                return True
            return bool(t.pred())
        return False

    def runnable(self):
        return [t for t in self.threads if t.proc not in self.dead and self._ready(t)]

    def _pick(self):
        """The thread to run next when the current one cannot go on."""
        while True:
            self._fire()
            r = self.runnable()
            if r:
                break
            nxt = [t.deadline for t in self.threads
                   if t.state == 'blk' and t.deadline is not None and t.proc not in self.dead]
            if self.timers:
                nxt.append(self.timers[0][0])
            if not nxt or self.now > self.max_time:
                if self.driver.pending is None:
                    self.abort(SimStuck if not nxt else SimLimit,
                               'nothing can run' if not nxt else 'time bound')
                    continue
                raise RuntimeError('driver not runnable')
            self.now = max(self.now, min(nxt))
        if self.driver.pending is not None and self.driver in r:
            return self.driver
        default = min((t for t in r), key=lambda t: (t.order <= self.cur.order, t.order))
        c = default
        if len(r) > 1:
            c = self.policy.choose(self, r) or default
        if c is not default:
            self.trace.append((self.cur.key, self.cur.steps, 'next', c.key))
        return c

    def _switch(self, t):
        cur = self.cur
        if t is not cur:
            self.switches += 1
            self.sched_hash = hash((self.sched_hash, cur.order, cur.steps, t.order))
            self.cur = t
            t.baton.release()
            cur.baton.acquire()
        if cur.pending is not None and cur is self.driver:
            e, cur.pending = cur.pending, None
            raise e

    def abort(self, cls, msg):
        self.aborted = (cls.__name__, msg)
        e = cls(msg)
        e.blocked = [(t.key, str(t.what)) for t in self.threads
                     if t.state == 'blk' and t.proc not in self.dead]
        self.driver.pending = e

    # -- time

    def _fire(self):
        while self.timers and self.timers[0][0] <= self.now:
            _, _, fn = heapq.heappop(self.timers)
            self.quiet += 1
            try:
                fn()
            finally:
                self.quiet -= 1

    def after(self, seconds, fn):
        self.seq += 1
        heapq.heappush(self.timers, (self.now + seconds, self.seq, fn))

    def sleep(self, seconds, what='sleep'):
        self.block(lambda: False, seconds, what)

    # -- sites

    def site(self, name, *info):
        t = self.cur
        if self.quiet or t is None or self.by_ident.get(_ident()) is not t:
            return
        self.steps += 1
        t.steps += 1
        self.now += self.tick
        if self.timers and self.timers[0][0] <= self.now:
            self._fire()
        if self.steps > self.max_steps and self.driver.pending is None \
                and self.aborted is None:
            self.abort(SimLimit, 'step bound')
        if self.driver.pending is not None:
            if t is self.driver:
                self._switch(t)
            else:
                self._switch(self.driver)
            return
        d = self.policy.at_site(self, t, name)
        if d is None:
            return
        if d[0] == 'delay':
            self.trace.append((t.key, t.steps, 'delay', d[1]))
            self._block(t, lambda: False, d[1], 'delay')
        elif d[1] is not t:
            self.trace.append((t.key, t.steps, 'to', d[1].key))
            self._switch(d[1])

    def block(self, pred, timeout=None, what=None):
        """Wait until pred() holds (True) or the timeout expires (False)."""
        t = self.cur
        if self.by_ident.get(_ident()) is not t:
            raise RuntimeError('block() from an unknown thread')
        self.steps += 1
        t.steps += 1
        self.now += self.tick
        if pred() and self.driver.pending is None:
            return True
        return self._block(t, pred, timeout, what)

    def _block(self, t, pred, timeout, what):
        end = None if timeout is None else self.now + timeout
        while True:
            t.pred, t.deadline, t.what = pred, end, what
            t.state = 'blk'
            n = self._pick()
            if n is not t:
                try:
                    self._switch(n)
                finally:
                    t.state = 'run'
            else:
                t.state = 'run'
                if t.pending is not None and t is self.driver:
                    e, t.pending = t.pending, None
                    raise e
            if pred():
                return True
            if end is not None and self.now >= end:
                return False

    # -- processes

    def exit_proc(self, code):
        """os._exit in a simulated process: nothing of it runs any more."""
        t = self.cur
        self.exit_codes[t.proc] = code
        self.log('proc_exit', proc=t.proc, code=code)
        self.dead.add(t.proc)
        t.state = 'done'
        self._leave(t)
        _real_lock_forever()

    # -- history

    def log(self, kind, **kw):
        self.seq += 1
        self.history.append((self.seq, round(self.now, 6), self.cur.key, kind, kw))
        return self.seq


def _real_lock_forever():
    l = _real_lock()
    l.acquire()
    l.acquire()


# ------------------------------------------------------------------ primitives

class SimLock:
    __slots__ = ('locked_', '__weakref__')

    def __init__(self):
        self.locked_ = False

    def acquire(self, blocking=True, timeout=-1):
        k = KERNEL
        if k is None or k.quiet:
            if self.locked_:
                if not blocking:
                    return False
                raise RuntimeError('deadlock outside the simulation')
            self.locked_ = True
            return True
        k.site('lock')
        if self.locked_:
            if not blocking:
                return False
            to = None if timeout is None or timeout < 0 else timeout
            if not k.block(self._free, to, 'lock'):
                return False
        self.locked_ = True
        return True

    def _free(self):
        return not self.locked_

    def release(self):
        if not self.locked_:
            raise RuntimeError('release unlocked lock')
        self.locked_ = False
        k = KERNEL
        if k is not None:
            k.site('unlock')

    def locked(self):
        return self.locked_

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def _at_fork_reinit(self):
        self.locked_ = False


def _start_new_thread(fn, args=(), kw=None):
    k = KERNEL
    if k is None:
        return _real_start(fn, args, kw or {})
    k.start_thread(fn, args, kw)
    return 1


def _set_sentinel():
    l = SimLock()
    k = KERNEL
    if k is not None:
        k.cur.sentinel = l
    return l


def _now():
    return KERNEL.now if KERNEL is not None else real_monotonic()


def _wall():
    return EPOCH + KERNEL.now if KERNEL is not None else real_time()


def _sleep(s):
    if KERNEL is None:
        raise RuntimeError('sleep outside the simulation')
    KERNEL.sleep(s)


def _exit(code=0):
    k = KERNEL
    if k is None or k.cur.proc == 'driver':
        real_exit(code)
    k.exit_proc(code)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import threading
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading._CRLock = None
    threading.RLock = threading._PyRLock
    threading._start_new_thread = _start_new_thread
    threading._set_sentinel = _set_sentinel
    threading._time = _now
    threading._active_limbo_lock = threading._PyRLock()
    threading._shutdown_locks_lock = SimLock()
    serial = itertools.count(1)

    def thread_hash(self):
        # (an executor joins its threads in the order of their hashes)
        try:
            return self.serial_
        except AttributeError:
            self.serial_ = next(serial)
            return self.serial_
    threading.Thread.__hash__ = thread_hash
    import queue
    queue.SimpleQueue = queue._PySimpleQueue
    queue.time = _now
    _time.time = _wall
    _time.monotonic = _now
    _time.perf_counter = _now
    _time.sleep = _sleep
    os._exit = _exit
    import asyncio

    class Sel:
        def __init__(self, loop):
            self.loop = loop

        def select(self, timeout):
            k, loop = KERNEL, self.loop
            k.site('loop')
            if not loop.woken and (timeout is None or timeout > 0):
                k.block(lambda: loop.woken, timeout, 'loop')
            loop.woken = False
            return []

        def close(self):
            pass

    class SimLoop(asyncio.BaseEventLoop):
        def __init__(self):
            super().__init__()
            self.woken = False
            self._selector = Sel(self)
            self._clock_resolution = 1e-9

        def time(self):
            return _now()

        def _write_to_self(self):
            self.woken = True
            if KERNEL is not None:
                KERNEL.site('wake')

        def _process_events(self, ev):
            pass

    class SimPolicy(asyncio.DefaultEventLoopPolicy):
        _loop_factory = SimLoop

    asyncio.set_event_loop_policy(SimPolicy())


# ------------------------------------------------------------- line preemption

TOOL = 3


def line_sites(code_objects):
    """Make every line of the given code objects a scheduling point."""
    mon = sys.monitoring
    try:
        mon.use_tool_id(TOOL, 'dst')
    except ValueError:
        pass

    def on_line(code, line):
        k = KERNEL
        if k is not None:
            k.site('line')

    mon.register_callback(TOOL, mon.events.LINE, on_line)
    for c in code_objects:
        mon.set_local_events(TOOL, c, mon.events.LINE)


def code_objects_of(path_pred):
    """All code objects reachable from loaded modules whose file matches."""
    import types
    seen, out = set(), []

    def walk(c):
        if id(c) in seen:
            return
        seen.add(id(c))
        out.append(c)
        for x in c.co_consts:
            if isinstance(x, types.CodeType):
                walk(x)

    def fn_code(o):
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if isinstance(o, property):
            for g in (o.fget, o.fset, o.fdel):
                if g is not None:
                    fn_code(g)
            return
        o = getattr(o, '__wrapped__', o)
        if isinstance(o, types.FunctionType):
            walk(o.__code__)

    for m in list(sys.modules.values()):
        f = getattr(m, '__file__', None)
        if not f or not path_pred(f):
            continue
        for o in list(vars(m).values()):
            if isinstance(o, type):
                if o.__module__ == m.__name__:
                    for x in list(vars(o).values()):
                        fn_code(x)
            elif getattr(o, '__module__', None) == m.__name__:
                fn_code(o)
    return out


def set_kernel(k):
    global KERNEL
    KERNEL = k
