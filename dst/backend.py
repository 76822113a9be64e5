"""Simulated Viper: deterministic verdicts, direct backends and ViperServer.

A verdict is a pure function of the translated program and the backend's
command line.  The workload places integer literals ("markers") in assertions;
a marker decides whether, and under which configuration, a check fails:

    11xx  fails always                14xx  fails iff resources use 8-bit bitops
    12xx  fails only under Silicon    15xx  fails iff a `--simfail` arg is given
    13xx  fails only under Carbon     16xx  fails iff obligations are encoded
    17xx  fails iff float encoding is "real"
    18xx  fails; its error is a timeout
    19xx  fails iff `--simlow` is NOT given

With `--simfuzz=N` further checks fail, chosen by their kind and source position,
so that errors of every kind come back for every sort of program.
"""

import collections
import hashlib
import re
import zlib

from . import hooks
from . import silver as S
from .silver import JObj, Nodes, Seq, Some, NONE
from . import jvm as J


# ---------------------------------------------------------------- error values

class Reason(JObj):
    def __init__(self, id, node, text):
        self._id, self._n, self._t = id, node, text

    def id(self):
        return self._id

    def offendingNode(self):
        return self._n

    def readableMessage(self):
        return self._t

    def pos(self):
        return self._n.pos()


class FailureContext(JObj):
    def __init__(self, ce, bcs):
        self._ce, self._b = ce, bcs

    def counterExample(self):
        return self._ce

    def branchConditions(self):
        return Seq(self._b)


class VErr(JObj):
    ID = None

    def __init__(self, node, reason, ctx, text=''):
        self._n, self._r, self._ctx, self._t = node, reason, ctx, text

    def id(self):
        return self.ID

    def fullId(self):
        return '%s:%s' % (self.ID, self._r.id())

    def reason(self):
        return self._r

    def offendingNode(self):
        return self._n

    def pos(self):
        return self._n.pos()

    def text(self):
        return 'Viper: %s' % self.ID

    def readableMessage(self):
        return '%s (%s)' % (self.text(), self._n.pos())

    def transformedError(self):
        return self

    def failureContexts(self):
        return Seq(self._ctx)

    def __str__(self):
        return self.readableMessage()


def _errcls(name, id):
    return type(name, (VErr,), {'ID': id})


AssertFailed = _errcls('AssertFailed', 'assert.failed')
ExhaleFailed = _errcls('ExhaleFailed', 'exhale.failed')
PostconditionViolated = _errcls('PostconditionViolated', 'postcondition.violated')
PreconditionInCallFalse = _errcls('PreconditionInCallFalse', 'call.precondition')
PreconditionInAppFalse = _errcls('PreconditionInAppFalse', 'application.precondition')
LoopInvariantNotEstablished = _errcls('LoopInvariantNotEstablished',
                                      'invariant.not.established')
LoopInvariantNotPreserved = _errcls('LoopInvariantNotPreserved',
                                    'invariant.not.preserved')


class TimeoutOccurred(JObj):
    """A non-verification error: no reason, no position, no offending node."""

    def __init__(self, n=10, units='second(s)'):
        self.n, self.u = n, units

    def fullId(self):
        return 'timeout.error'

    def pos(self):
        return S.NoPosition

    def readableMessage(self):
        return 'Timeout occurred after %s %s' % (self.n, self.u)

    text = readableMessage

    def failureContexts(self):
        return Seq([])

    def __str__(self):
        return self.readableMessage()


class Success(JObj):
    def __str__(self):
        return 'Success'


class Failure(JObj):
    def __init__(self, errors):
        self._e = Seq(errors)

    def errors(self):
        return self._e


# ------------------------------------------------------------ counterexamples

class _CEModel(JObj):
    def entries(self):
        return S.SMap()


class _NonBasicChunk(JObj):
    pass


class BasicChunk(JObj):
    pass


class CE(JObj):
    def __init__(self, chunks):
        self._h = chunks

    def store(self):
        return S.SMap()

    def model(self):
        return _CEModel()

    def heap(self):
        return Seq(self._h)

    def oldHeaps(self):
        return S.SMap()


# -------------------------------------------------------------------- verdicts

class Cfg:
    """What a verdict depends on besides the program."""

    def __init__(self, backend, args):
        self.backend = backend
        self.args = list(args)
        self.bcs = '--enableBranchconditionReporting' in args
        self.ce = '--counterexample=native' in args
        self.simfail = '--simfail' in args
        self.simlow = '--simlow' in args
        self.fuzz = next((int(a[10:]) for a in args if a.startswith('--simfuzz=')), None)
        self.timeout = any(a.startswith('--timeout') for a in args)


def prog_features(prog):
    """Configuration visible in the program itself."""
    bits = None
    flt = 'none'
    for d in prog.domains().xs:
        n = d.name()
        if n == '_defines' or n == '___intbv':
            t = S.render(d)
            i = t.find('_BITOPS_SIZE()=')
            if i >= 0:
                j = t.find(';', i)
                bits = t[i + 15:j].strip()
        elif n == '___float32':
            flt = 'ieee32'
        elif n == '___real_helper':
            flt = 'real'
    oblig = any(f.name().startswith('MustInvoke') or f.name() == 'MustTerminate'
                for f in prog.predicates().xs)
    return {'bits': bits, 'float': flt, 'obligations': oblig}


def _lits(n):
    return [x.i().v for x in S.walk(n)
            if isinstance(x, Nodes.IntLit) and 1100 <= x.i().v < 2000]


def signature(prog):
    """Literals 9xxxxx in method bodies: which workload program this is."""
    out = set()
    for m in prog.methods().xs:
        if m.body() is not NONE:
            for x in S.walk(m.body().get()):
                if isinstance(x, Nodes.IntLit) and 900000 <= x.i().v < 10 ** 6:
                    out.add(x.i().v)
    return sorted(out)


def _fires(v, cfg, feat):
    k = v // 100
    return {11: True, 12: cfg.backend == 'silicon', 13: cfg.backend == 'carbon',
            14: feat['bits'] == '8', 15: cfg.simfail, 16: feat['obligations'],
            17: feat['float'] == 'real', 18: True,
            19: not cfg.simlow}[k]


def _find(e, v):
    """Smallest conjunct containing the marker (what Viper would blame)."""
    while isinstance(e, (Nodes.And,)):
        if v in _lits(e.left()):
            e = e.left()
        else:
            e = e.right()
    if isinstance(e, Nodes.Implies) and v in _lits(e.right()):
        return _find(e.right(), v)
    return e


def verdict(prog, cfg):
    feat = prog_features(prog)
    errs = []
    timeout = [False]
    seen = set()

    def add(cls, node, exp, bcs):
        for v in dict.fromkeys(_lits(exp)):
            if not _fires(v, cfg, feat):
                continue
            if v // 100 == 18:
                timeout[0] = True
                continue
            off = _find(exp, v)
            k = (cls, id(node), id(off))
            if k in seen:
                continue
            seen.add(k)
            ce = (Some(CE([_NonBasicChunk()] if v % 10 == 7 else []))
                  if cfg.ce else NONE)
            ctx = [FailureContext(ce, list(bcs) if cfg.bcs
                                  and cfg.backend == 'silicon' else [])]
            errs.append(cls(node, Reason('assertion.false', off,
                                         'Viper reason'), ctx))

    def stmt(s, bcs, m):
        if isinstance(s, Nodes.Seqn):
            for x in s.ss().xs:
                stmt(x, bcs, m)
        elif isinstance(s, Nodes.If):
            c = s.cond()
            exps(c, s, bcs)
            stmt(s.thn(), bcs + [c], m)
            neg = Nodes.Not(c, c.pos(), c.info(), S.NoTrafos)
            stmt(s.els(), bcs + [neg], m)
        elif isinstance(s, Nodes.While):
            for i in s.invs().xs:
                add(LoopInvariantNotEstablished, i, i, bcs)
            stmt(s.body(), bcs + [s.cond()], m)
        elif isinstance(s, Nodes.Assert):
            add(AssertFailed, s, s.exp(), bcs)
        elif isinstance(s, Nodes.Exhale):
            add(ExhaleFailed, s, s.exp(), bcs)
        elif isinstance(s, Nodes.MethodCall):
            for a in s.args().xs:
                add(PreconditionInCallFalse, s, a, bcs)
        elif isinstance(s, Nodes.LocalVarAssign):
            exps(s.rhs(), s, bcs)
        else:
            for x in s.children():
                if isinstance(x, S.Stmt):
                    stmt(x, bcs, m)

    funs = {f.name() for f in prog.functions().xs
            if isinstance(f.pos(), S.IdentifierPosition)}

    def exps(e, s, bcs):
        for x in S.walk(e):
            if isinstance(x, Nodes.FuncApp) and x.funcname() in funs:
                for a in x.args().xs:
                    add(PreconditionInAppFalse, x, a, bcs)

    for f in prog.functions().xs:
        if f.body() is not NONE:
            for p in f.posts().xs:
                add(PostconditionViolated, p, p, [])
    for m in prog.methods().xs:
        if m.body() is NONE:
            continue
        stmt(m.body().get(), [], m)
        for p in m.posts().xs:
            add(PostconditionViolated, p, p, [])
    if cfg.fuzz is not None:
        errs += fuzz(prog, cfg)
    if timeout[0]:
        errs.append(TimeoutOccurred())
    return errs


_FUZZ = {'Assert': 'assert.failed', 'Exhale': 'exhale.failed', 'Inhale': 'inhale.failed',
         'LocalVarAssign': 'assignment.failed', 'FieldAssign': 'assignment.failed',
         'Fold': 'fold.failed', 'Unfold': 'unfold.failed', 'If': 'if.failed',
         'While': 'while.failed', 'Refute': 'refute.failed', 'MethodCall': 'call.precondition',
         'FuncApp': 'application.precondition'}
_ERRS = {}


def fuzz(prog, cfg):
    """Errors at places picked by position."""
    out = []
    mod = 7 + cfg.fuzz % 60
    meths = {m.name(): m for m in prog.methods().xs}
    funs = {f.name(): f for f in prog.functions().xs}

    def pick(n, id, m=mod):
        if not isinstance(n.pos(), S.IdentifierPosition):
            return False
        return zlib.crc32(('%s %s %s' % (id, n.pos(), cfg.fuzz)).encode()) % m == 0

    def blame(e):
        while isinstance(e, (Nodes.And, Nodes.Implies)):
            e = e.right() if zlib.crc32(('%s %s' % (e.pos(), cfg.fuzz)).encode()) % 2 \
                or isinstance(e, Nodes.Implies) else e.left()
        return e

    def add(id, n, off, bcs):
        if not isinstance(off.pos(), S.IdentifierPosition):
            off = n
        cls = _ERRS.setdefault(id, _errcls(id, id))
        why = 'insufficient.permission' if isinstance(off, S.AccessPredicate) or id in (
            'not.wellformed', 'assignment.failed', 'if.failed', 'while.failed', 'unfold.failed') \
            else 'assertion.false'
        ctx = FailureContext(Some(CE([])) if cfg.ce else NONE,
                             list(bcs) if cfg.bcs and cfg.backend == 'silicon' else [])
        out.append(cls(n, Reason(why, off, 'Viper reason'), [ctx]))

    def exps(e, bcs):
        for x in S.walk(e):
            if isinstance(x, Nodes.FuncApp) and pick(x, 'application.precondition'):
                f = funs.get(x.funcname())
                ps = f.pres().xs if f is not None else []
                add('application.precondition', x, blame(ps[0]) if ps else x, bcs)

    def stmt(s, bcs):
        k = type(s).__name__
        id = _FUZZ.get(k)
        if id and pick(s, id):
            if k in ('Assert', 'Exhale', 'Inhale', 'Refute'):
                off = blame(s.exp())
            elif k in ('Fold', 'Unfold'):
                off = s.acc()
            elif k == 'MethodCall':
                m = meths.get(s.methodName())
                ps = m.pres().xs if m is not None else []
                off = blame(ps[zlib.crc32(str(s.pos()).encode()) % len(ps)]) if ps else s
            elif k in ('LocalVarAssign', 'FieldAssign'):
                off = s.rhs()
            else:
                off = s.cond()
            add(id, s, off, bcs)
        if k == 'While':
            for i in s.invs().xs:
                for id in ('invariant.not.established', 'invariant.not.preserved',
                           'not.wellformed'):
                    if pick(i, id):
                        add(id, i, blame(i), bcs)
        for x in s.children():
            if isinstance(x, Stmt):
                if k == 'If':
                    c = s.cond()
                    stmt(x, bcs + [c if x is s.thn() else
                                   Nodes.Not(c, c.pos(), c.info(), S.NoTrafos)])
                else:
                    stmt(x, bcs)
            elif isinstance(x, S.Exp):
                exps(x, bcs)
            else:
                for y in x.children():      # handlers
                    if isinstance(y, Stmt):
                        stmt(y, bcs)

    Stmt = S.Stmt
    for f in list(prog.functions().xs) + list(prog.methods().xs):
        fun = isinstance(f, Nodes.Function)
        for c in list(f.pres().xs) + list(f.posts().xs):
            if pick(c, 'not.wellformed', 4 * mod):
                add('not.wellformed', c, blame(c), [])
        if f.body() is NONE:
            continue
        for c in f.posts().xs:
            if pick(c, 'postcondition.violated', mod // 3 + 1):
                add('postcondition.violated', c, blame(c), [])
        if fun:
            b = f.body().get()
            exps(b, [])
            if pick(f, 'function.not.wellformed', mod // 4 + 1):
                add('function.not.wellformed', f, b, [])
        else:
            stmt(f.body().get(), [])
    for p in prog.predicates().xs:
        if p.body() is not NONE and pick(p, 'predicate.not.wellformed'):
            add('predicate.not.wellformed', p, p.body().get(), [])
    return out


def result_of(errs):
    return Failure(errs) if errs else Success()


_TOK = re.compile(r'[A-Za-z_$][\w$]*|\d+')
_SUF = re.compile(r'(_\d+)+$')


def bag(canon):
    """Fingerprint that ignores order and the numbering of fresh names."""
    n = collections.Counter(_SUF.sub('', t) for t in _TOK.findall(canon))
    return hashlib.sha1(repr(sorted(n.items())).encode()).hexdigest()[:12]


def places(errs):
    """Source positions of errors."""
    out = set()
    for e in errs:
        p = e.pos()
        if isinstance(p, S.IdentifierPosition):
            out.add((p.file().p.rsplit('/', 1)[-1], p.line(), p.column()))
    return sorted(out)


def describe(prog, cfg, errs):
    canon = S.canonical(prog)
    f = prog_features(prog)
    return dict(backend=cfg.backend, args=list(cfg.args),
                fp=S.fingerprint(canon), feat=f, nerr=len(errs), errs=places(errs),
                sig=signature(prog), bag=bag(canon))


# -------------------------------------------------------------- direct backends

class _Direct(JObj):
    KIND = None

    def __init__(self, reporter):
        self.args = None
        self.stopped = False
        hooks.log('direct.new', backend=self.KIND)

    def initialize(self, args):
        self.args = [str(a) for a in args.xs]
        J.jlog_debug('%s initialised' % self.KIND)
        if hooks.fault('direct.init'):
            J.throw('java.lang.RuntimeException', 'could not start prover')

    def verify(self, prog):
        hooks.site('direct.verify', self.KIND)
        cfg = Cfg(self.KIND, self.args)
        errs = verdict(prog, cfg)
        hooks.log('direct.verify', **describe(prog, cfg, errs))
        J.jlog_debug('verifying')
        hooks.delay('direct.time')
        if hooks.fault('sigint'):
            raise KeyboardInterrupt
        if hooks.fault('direct.stall'):
            hooks.log('direct.stalled')
            hooks.block(lambda: False, None, 'stalled direct backend')
        f = hooks.fault('direct.crash')
        if f:
            J.throw('java.lang.RuntimeException', 'prover crashed')
        if hooks.fault('direct.timeout'):
            errs = list(errs) + [TimeoutOccurred()]
        hooks.log('direct.done', nerr=len(errs))
        return result_of(errs)

    def stop(self):
        self.stopped = True
        hooks.log('direct.stop', backend=self.KIND)


class MinimalSiliconFrontendAPI(_Direct):
    KIND = 'silicon'


class MinimalCarbonFrontendAPI(_Direct):
    KIND = 'carbon'


# ------------------------------------------------------------------ ViperServer

class ViperConfig(JObj):
    def __init__(self, args):
        self.args = [str(a) for a in args.xs]


class BackendConfig(JObj):
    KIND = None

    def __init__(self, args):
        self.args = [str(a) for a in args.xs]

    @classmethod
    def apply(cls, args):
        return cls(args)


class SiliconConfig(BackendConfig):
    KIND = 'silicon'


class CarbonConfig(BackendConfig):
    KIND = 'carbon'


class ExecutionContext(JObj):
    def __init__(self, name, tname, nthreads):
        self.alive = True
        self.n = len(hooks.WORLD.executors) if hooks.WORLD is not None else 0
        hooks.log('executor.start', ex=self.n)
        if hooks.WORLD is not None:
            hooks.WORLD.executors.append(self)

    # `terminate$default$1`
    def terminate(self, t):
        if hooks.fault('executor.terminate'):
            J.throw('java.lang.RuntimeException', 'actor system busy')
        self.alive = False
        hooks.log('executor.terminate', ex=self.n)
        for s in hooks.WORLD.servers if hooks.WORLD is not None else ():
            if s.executor is self and s.running:
                hooks.log('server.killed', srv=s.n)
                s.running = False


setattr(ExecutionContext, 'terminate$default$1', lambda self: 1000)


class VerJobId(JObj):
    def __init__(self, n):
        self.n = n

    def id(self):
        return self.n

    def __eq__(self, o):
        return isinstance(o, VerJobId) and self.n == o.n

    def __hash__(self):
        return hash(self.n)

    def __str__(self):
        return 'VerJobId(%d)' % self.n


class StopVerification(JObj):
    pass


STOP = StopVerification()


class JobActor(JObj):
    def __init__(self, job):
        self.job = job

    def tell(self, msg, sender):
        if msg is STOP:
            hooks.log('job.stop_msg', job=self.job.n, prog=self.job.pid)
            self.job.server._interrupt(self.job)


class JobHandle(JObj):
    def __init__(self, job):
        self.job = job

    def job_actor(self):
        return JobActor(self.job)


class _Job:
    def __init__(self, server, n, pid):
        self.server, self.n, self.pid = server, n, pid
        self.future = J.Future('job%d' % n)
        self.state = 'running'
        self.handle = J.Future('handle%d' % n)


class JobPool(JObj):
    def __init__(self, srv):
        self.srv = srv

    def lookupJob(self, jid):
        hooks.site('lookupJob', jid.n)
        j = self.srv.jobs.get(jid.n)
        return Some(j.handle) if j is not None else NONE

    def discardJob(self, jid):
        hooks.site('discardJob', jid.n)
        hooks.log('job.discard', job=jid.n)
        self.srv.jobs.pop(jid.n, None)


class ViperServerService(JObj):
    def __init__(self, cfg, executor):
        self.cfg, self.executor = cfg, executor
        self.jobs = {}
        self.running = False
        self.stopped = False
        self.cache = {}
        self.next = 0
        self.n = len(hooks.WORLD.servers) if hooks.WORLD is not None else 0
        hooks.log('server.new', srv=self.n)
        if hooks.WORLD is not None:
            hooks.WORLD.servers.append(self)

    def start(self):
        hooks.site('server.start')
        J.jprintln('Writing log into journal: /sim/viperserver_journal.log')
        f = J.Future('server.start')
        k = hooks.fault('server.start')
        if k == 'hang':
            return f
        if k and k != 'late':
            f.fail(J.exc_class('java.util.concurrent.ExecutionException')(
                'actor system failed'))
            return f
        hooks.log('server.start', srv=self.n)

        def ready():
            if self.executor.alive and not self.stopped:
                self.running = True
                hooks.log('server.ready', srv=self.n)
                f.complete(None)
        hooks.after('server.start', ready, 150.0 if k == 'late' else None)
        return f

    def verify(self, program_id, backend_cfg, prog, snap):
        hooks.site('server.verify', program_id)
        cfg = Cfg(backend_cfg.KIND, backend_cfg.args)
        errs = verdict(prog, cfg)
        d = describe(prog, cfg, errs)
        if not self.running:
            hooks.log('server.verify_not_running', prog=program_id)
            J.throw('java.lang.IllegalStateException',
                    'Instance of ViperCoreServer already stopped')
        if hooks.fault('server.submit', program_id):
            J.throw('java.lang.RuntimeException', 'submit failed')
        n = self.next
        self.next += 1
        job = _Job(self, n, program_id)
        full = hooks.fault('server.full', program_id)
        if full:
            # The pool rejects the job; ViperServer hands out VerJobId(-1).
            hooks.log('server.reject', prog=program_id)
            return VerJobId(-1)
        self.jobs[n] = job
        key = (program_id, d['fp'], d['backend'], tuple(d['args']))
        hit = key in self.cache
        hooks.log('server.verify', job=n, prog=program_id, cached=hit, **d)
        J.jlog_debug('job %d' % n)
        h = hooks.fault('job.handle', program_id)
        if h == 'fail':
            job.handle.fail(J.exc_class('java.util.concurrent.ExecutionException')(
                'actor could not be created'))
        elif not h:
            job.handle.complete(JobHandle(job))

        def finish():
            if job.state != 'running':
                return
            job.state = 'done'
            out = list(errs)
            f = hooks.fault('job.crash', program_id)
            if f:
                hooks.log('job.crashed', job=n, prog=program_id)
                job.future.fail(J.exc_class(
                    'java.util.concurrent.ExecutionException')('backend crashed'))
                return
            if hooks.fault('job.timeout', program_id):
                out.append(TimeoutOccurred())
                hooks.log('job.timeout', job=n, prog=program_id)
            else:
                self.cache[key] = True
            hooks.log('job.done', job=n, prog=program_id, nerr=len(out))
            job.future.complete(result_of(out))

        if hooks.fault('job.stall', program_id):
            hooks.log('job.stalled', job=n, prog=program_id)
        else:
            hooks.after('job.time', finish, 0.0 if hit else None, program_id)
        return VerJobId(n)

    def _interrupt(self, job):
        if job.state == 'running':
            job.state = 'cancelled'
            hooks.log('job.cancelled', job=job.n, prog=job.pid)
            job.future.fail(J.exc_class(
                'java.util.concurrent.CancellationException')('job stopped'))

    def ver_jobs(self):
        return JobPool(self)

    def discardJob(self, jid):
        self.jobs.pop(jid.n, None)

    def getInterruptFutureList(self):
        hooks.site('interruptAll')
        hooks.log('interrupt_all')
        k = hooks.fault('server.interrupt')
        f = J.Future('interrupt')
        if k == 'hang':
            # the actors do not answer
            hooks.after('interrupt', lambda: f.complete(Seq()), 3000.0)
            return f
        if k:
            J.throw('java.lang.RuntimeException', 'interrupt failed')
        for j in list(self.jobs.values()):
            self._interrupt(j)
        f.complete(Seq())
        return f

    def flushCache(self, logger):
        hooks.site('flushCache')
        hooks.log('server.flush', entries=len(self.cache))
        if hooks.fault('server.flush'):
            J.throw('java.lang.RuntimeException', 'flush failed')
        self.cache.clear()
        return True

    def stop(self):
        hooks.site('server.stop')
        J.jprintln('shutting down...')
        hooks.log('server.stop', srv=self.n)
        f = J.Future('server.stop')
        k = hooks.fault('server.stop')
        for j in list(self.jobs.values()):
            self._interrupt(j)
        self.running = False
        if k == 'hang':
            return f
        if k:
            f.fail(J.exc_class('java.util.concurrent.ExecutionException')(
                'stop failed'))
            return f
        self.stopped = True
        f.complete(Seq())
        return f


class ViperCoreServerUtils:
    @staticmethod
    def getResultsFuture(server, jid, executor):
        hooks.site('getResultsFuture', jid.n)
        j = server.jobs.get(jid.n)
        if j is None:
            f = J.Future('nojob')
            f.fail(J.exc_class('viper.server.vsi.JobNotFoundException')(
                'The verification job #%d does not exist.' % jid.n))
            return f
        return j.future


class ActorRef:
    @staticmethod
    def noSender():
        return None


# ---------------------------------------------------------------- sil resources

class FastParser(JObj):
    def parse(self, text, path, none, diskloader, b):
        from . import silparse
        if hooks.fault('sil.parse'):
            return _ParseResult(None, text)
        try:
            p = silparse.program(text, str(path))
        except FileNotFoundError:
            return _ParseResult(None, text)
        return _ParseResult(p, text)


class _ParseResult(JObj):
    def __init__(self, prog, text):
        self.prog, self.text = prog, text

    def initProperties(self):
        pass


class TerminationPlugin(JObj):
    def __init__(self, a, b, c, parser):
        pass

    def beforeParse(self, text, imported):
        return text


class Resolver(JObj):
    def __init__(self, pr):
        self.pr = pr

    def run(self, b):
        if self.pr.prog is None:
            return NONE
        return Some(self.pr)


class _TranslatorObj:
    @staticmethod
    def apply(pr):
        return _Tr(pr)


class _Tr(JObj):
    def __init__(self, pr):
        self.pr = pr

    def translate(self):
        hooks.log('resources.loaded', **prog_features(self.pr.prog))
        return Some(self.pr.prog)


class ManualProgramSubmitter(JObj):
    def __init__(self, *a):
        pass

    def setProgram(self, p):
        pass

    def setSuccess(self, b):
        self.s = b

    def submit(self):
        hooks.log('submitter', success=bool(self.s))


def register_all(R):
    R('viper.silver.verifier.Failure', Failure)
    R('viper.silver.verifier.Success', Success)
    R('viper.silver.verifier.ConstantEntry', type('ConstantEntry', (), {}))
    R('viper.silver.verifier.ApplicationEntry', type('ApplicationEntry', (), {}))
    R('viper.silver.reporter.NoopReporter$', object())
    R('viper.silicon.Silicon', type('Silicon', (), {}))
    R('viper.silicon.MinimalSiliconFrontendAPI', MinimalSiliconFrontendAPI)
    R('viper.silicon.state.BasicChunk', BasicChunk)
    for t in ('Unit$ IntLiteral Null$ Var App Combine First Second SortWrapper '
              'PredicateLookup SeqAppend SeqSingleton SeqNil').split():
        R('viper.silicon.state.terms.' + t, type(t.strip('$'), (), {}))
    for t in 'sorts$Int$ sorts$Bool$ sorts$Perm$ sorts$Ref$ sorts$Snap$'.split():
        R('viper.silicon.state.terms.' + t, type('Sort', (), {}))
    R('viper.carbon.CarbonVerifier', type('CarbonVerifier', (), {}))
    R('viper.carbon.MinimalCarbonFrontendAPI', MinimalCarbonFrontendAPI)
    R('viper.silver.parser.FastParser', FastParser)
    R('viper.silver.plugin.standard.termination.TerminationPlugin', TerminationPlugin)
    R('viper.silver.ast.utility.DiskLoader$', object())
    R('viper.silver.parser.Resolver', Resolver)
    R('viper.silver.parser.Translator$', _TranslatorObj)
    R('viper.silver.utility.ManualProgramSubmitter', ManualProgramSubmitter)
    R('viper.server.ViperConfig', ViperConfig)
    C = 'viper.server.core.'
    R(C + 'DefaultVerificationExecutionContext', ExecutionContext)
    R(C + 'SiliconConfig', SiliconConfig)
    R(C + 'CarbonConfig', CarbonConfig)
    R(C + 'ViperCoreServerUtils', ViperCoreServerUtils)
    R('viper.server.frontends.lsp.ViperServerService', ViperServerService)
    R('viper.server.vsi.VerificationProtocol$StopVerification$', STOP)
    R('akka.actor.ActorRef', ActorRef)
