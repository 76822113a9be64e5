"""Simulated JVM: class registry, packages and the `jpype` module shim.

The registry maps fully qualified Java names to Python objects.  Scala
singletons are registered under `name$`, which is where Nagini's getobject
looks for them.  The world of one run (jobs, faults, clocks) is reached only
through `dst.hooks`, so the same stub runs with or without the simulator.
"""

import sys
import types

from . import hooks
from . import silver as S
from .silver import JObj, Nodes, Seq, Some, NONE


# ------------------------------------------------------------------ exceptions

class JException(Exception):
    """Stands in for jpype's JException and every Java throwable."""
    java_name = 'java.lang.Throwable'

    def message(self):
        return str(self)

    getMessage = message

    def stacktrace(self):
        return '%s: %s\n\tat sim.jvm(Sim.java:1)\n' % (self.java_name, self)

    def getClass(self):
        return S.JClassInfo(type(self))

    def toString(self):
        return '%s: %s' % (self.java_name, self)


_EXC = {}


def exc_class(name):
    if name not in _EXC:
        _EXC[name] = type(name.rsplit('.', 1)[-1], (JException,),
                          {'java_name': name, '_java_name': name})
    return _EXC[name]


def throw(name, msg=''):
    raise exc_class(name)(msg)


# ------------------------------------------------------------------- registry

REG = {}
PKGS = set()


def register(name, obj):
    REG[name] = obj
    parts = name.split('.')
    for i in range(1, len(parts)):
        PKGS.add('.'.join(parts[:i]))


class Pkg:
    __slots__ = ('_n',)

    def __init__(self, n):
        self._n = n

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        q = self._n + '.' + k
        w = hooks.WORLD
        if w is not None and q in w.missing_classes:
            raise AttributeError("Java package '%s' has no attribute '%s'"
                                 % (self._n, k))
        if q in REG:
            return REG[q]
        if q in PKGS:
            return Pkg(q)
        raise AttributeError("Java package '%s' is not valid: no '%s'"
                             % (self._n, k))

    def __str__(self):
        return self._n

    def __call__(self, *a):
        raise TypeError('Package `%s` is not Callable' % self._n)


class _Field:
    def __init__(self, n):
        self.n = n

    def get(self, _):
        return REG[self.n]


class _Class(JObj):
    def __init__(self, n):
        self.n = n

    def getDeclaredField(self, f):
        if f != 'MODULE$':
            throw('java.lang.NoSuchFieldException', f)
        return _Field(self.n)


class _ClassStatics:
    @staticmethod
    def forName(n):
        w = hooks.WORLD
        if n not in REG or (w is not None and n.rstrip('$') in w.missing_classes):
            throw('java.lang.ClassNotFoundException', n)
        return _Class(n)


class _Stream:
    def __init__(self, which):
        self.which = which

    def println(self, s):
        if self.which == 'out':
            hooks.jvm_stdout(s + '\n')
        else:
            hooks.jvm_stderr(s + '\n')


class _System:
    err = _Stream('err')
    out0 = _Stream('out')
    out = out0

    @classmethod
    def setOut(cls, s):
        cls.out = s


class _Paths:
    @staticmethod
    def get(p, more):
        return S.JPath(str(p))


class _TimeUnit:
    MILLISECONDS = 'ms'


# logback --------------------------------------------------------------------

class _Level:
    DEBUG, INFO, WARN, ERROR = 1, 2, 3, 4


class _Root:
    level = _Level.DEBUG

    def setLevel(self, lv):
        _Root.level = lv


class _LoggerFactory:
    @staticmethod
    def getLogger(n):
        return _Root()


def jlog_debug(msg):
    """A DEBUG record of the backend; logback's default appender uses stdout."""
    if _Root.level <= _Level.DEBUG:
        hooks.jvm_stdout('DEBUG ' + msg + '\n')


def jprintln(msg):
    _System.out.println(msg)


# scala concurrency ----------------------------------------------------------

class _Dur:
    def __init__(self, s):
        self.s = s


class Duration:
    @staticmethod
    def Inf():
        return _Dur(None)

    @staticmethod
    def create(n, unit):
        return _Dur(n / 1000.0)


class Future(JObj):
    """A Scala future whose completion is owned by the simulated world."""

    def __init__(self, label=''):
        self.done = False
        self.val = None
        self.err = None
        self.label = label

    def complete(self, val):
        if not self.done:
            self.done = True
            self.val = val
            hooks.wake(self)

    def fail(self, err):
        if not self.done:
            self.done = True
            self.err = err
            hooks.wake(self)

    def isCompleted(self):
        return self.done


class Await:
    @staticmethod
    def result(fut, dur):
        hooks.site('await', fut.label)
        if hooks.fault('sigint'):
            raise KeyboardInterrupt
        ok = hooks.block(lambda: fut.done, dur.s, fut)
        if not ok:
            throw('java.util.concurrent.TimeoutException',
                  'Futures timed out after [%s seconds]' % dur.s)
        if fut.err is not None:
            raise fut.err
        return fut.val


# silver helpers -------------------------------------------------------------

class _QP:
    @staticmethod
    def desugarSourceQuantifiedPermissionSyntax(f):
        return Seq([f])


class _Chopper:
    @staticmethod
    def chop(prog, names):
        return S.chop(prog, names)


class _FunctionObj:
    @staticmethod
    def apply(*a):
        return Nodes.Function(*a)


class Consistency:
    messages = []

    @staticmethod
    def resetMessages():
        Consistency.messages = []


class _Op(JObj):
    def __init__(self, n):
        self.n = n


def _ms_map():
    return S.SMap()


# SIF ------------------------------------------------------------------------

class SIFInfo(JObj):
    def __init__(self, c, cu, ov):
        self.c, self.cu, self.ov = c, cu, ov

    def __str__(self):
        return 'SIFInfo(%s,%s,%s)' % (self.c, self.cu, self.ov)


class SIFDynCheckInfo(JObj):
    def __init__(self, c, dyn, only):
        self.c, self.dyn, self.only = c, dyn, only

    def __str__(self):
        return 'SIFDyn(%s,%s,%s)' % (self.c, self.dyn, self.only)


class _SIFCfg:
    def __init__(self):
        for f in ('PrimedNames', 'optimizeControlFlow', 'optimizeSequential',
                  'optimizeRestrictActVars', 'onlyTransformMethodsWithRelationalSpecs'):
            setattr(self, f, None)
        self.vals = {}


class SIFTransformer:
    """Global, configurable program transformer (state = JVM singleton)."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.__dict__['conf'] = {}
        self.__dict__['all_low'] = ()
        self.__dict__['pres_low'] = ()
        self.__dict__['primed'] = {}
        self.__dict__['dup'] = set()

    def setAllLowMethods(self, s):
        self.all_low = tuple(sorted(s.d))

    def setPreservesLowMethods(self, s):
        self.pres_low = tuple(sorted(s.d))

    def addPrimedFuncAppReplacement(self, a, b):
        self.primed[a] = b

    def addDomainFuncToDuplicate(self, fs):
        for f in fs.xs:
            self.dup.add(f.name())

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)

        def f(*a):
            self.conf[k] = tuple(str(x) for x in a)
            return SIFTransformer._Ret(self)
        return f

    class _Ret:
        def __init__(self, t):
            self.t = t

    def transformCounterexample(self, ce, name):
        return ce

    def transform(self, prog, flag):
        a = list(prog.a)
        text = 'SIF conf=%s all_low=%s pres_low=%s' % (
            sorted(self.conf.items()), self.all_low, self.pres_low)
        a[5] = Seq(prog.extensions().xs + [S.mk('Opaque', text)])
        return Nodes.Program(*a)


class ARPPluginStub:
    def __init__(self):
        self.ignored = ()

    def setIgnoredFields(self, s):
        self.ignored = tuple(s.xs)

    def beforeVerify(self, prog):
        a = list(prog.a)
        a[5] = Seq(prog.extensions().xs
                   + [S.mk('Opaque', 'ARP ignored=%s' % (self.ignored,))])
        return Nodes.Program(*a)

    def mapVerificationResult(self, r):
        return r


# ---------------------------------------------------------------- registration

def _register():
    R = register
    R('java.lang.Object', JObj)
    R('java.lang.String', str)
    R('java.lang.Class', _ClassStatics)
    R('java.lang.System', _System)
    R('java.nio.file.Paths', _Paths)
    R('java.math.BigInteger', S.BigInteger)
    R('java.util.concurrent.TimeUnit', _TimeUnit)
    R('scala.Some', Some)
    R('scala.None$', NONE)
    R('scala.Function0', object)
    R('scala.Tuple2', S.Tuple2)
    R('scala.math.BigInt', S.BigInt)
    R('scala.collection.mutable.ListBuffer', Seq)
    R('scala.collection.mutable.ArraySeq', Seq)
    R('scala.collection.mutable.HashSet', S.SSet)
    R('scala.collection.immutable.HashMap', S.SMap)
    R('scala.collection.mutable.HashMap', S.SMap)
    R('scala.concurrent.Await', Await)
    R('scala.concurrent.duration.Duration', Duration)
    A = 'viper.silver.ast.'
    for n in list(vars(Nodes)):
        c = getattr(Nodes, n)
        if isinstance(c, type) and not n.startswith('SIF') and n not in (
                'Refute', 'DecreasesTuple', 'DecreasesWildcard',
                'PredicateInstance', 'Opaque', 'OpaqueExp'):
            R(A + n, c)
    R(A + 'Function$', _FunctionObj)
    R(A + 'LocationAccess', S.LocationAccess)
    R(A + 'LineColumnPosition', S.LineColumnPosition)
    R(A + 'IdentifierPosition', S.IdentifierPosition)
    for n in ('SeqType', 'SetType', 'MultisetType', 'MapType', 'DomainType',
              'TypeVar'):
        R(A + n, getattr(S, n))
    for n in ('AddOp AndOp DivOp FracOp GeOp GtOp ImpliesOp IntPermMulOp LeOp '
              'LtOp ModOp MulOp NegOp NotOp OrOp PermAddOp PermDivOp '
              'SubOp').split():
        R(A + n + '$', _Op(n))
    R(A + 'NoPosition$', S.NoPosition)
    R(A + 'NoInfo$', S.NoInfo)
    R(A + 'NoTrafos$', S.NoTrafos)
    for n in ('Int', 'Bool', 'Ref', 'Perm'):
        R(A + n + '$', getattr(S, n))
    R(A + 'utility.QuantifiedPermissions$', _QP)
    R(A + 'utility.chopper.PluginAwareChopper$', _Chopper)
    R(A + 'utility.Consistency', Consistency)
    P = 'viper.silver.plugin.standard.'
    R(P + 'refute.Refute', Nodes.Refute)
    R(P + 'termination.DecreasesTuple', Nodes.DecreasesTuple)
    R(P + 'termination.DecreasesWildcard', Nodes.DecreasesWildcard)
    R(P + 'predicateinstance.PredicateInstance', Nodes.PredicateInstance)
    for n in list(vars(Nodes)):
        if n.startswith('SIF'):
            R('viper.silver.sif.' + n, getattr(Nodes, n))
    R('viper.silver.sif.SIFInfo', SIFInfo)
    R('viper.silver.sif.SIFDynCheckInfo', SIFDynCheckInfo)
    sif = SIFTransformer()
    R('viper.silver.sif.SIFExtendedTransformer$', sif)
    R('viper.silver.sif.SIFExtendedTransformer', sif)
    R('viper.silicon.sif.CounterexampleSIFTransformerO$', sif)
    R('viper.silicon.sif.CounterexampleSIFTransformerO', sif)
    R('viper.silver.plugin.ARPPlugin', ARPPluginStub)
    R('org.slf4j.LoggerFactory', _LoggerFactory)
    R('ch.qos.logback.classic.Level', _Level)
    R('ch.qos.logback.classic.Logger', _Root)
    from . import backend
    backend.register_all(register)


def reset_globals():
    """Fresh JVM state (used when a run starts)."""
    _System.out = _System.out0
    _Root.level = _Level.DEBUG
    REG['viper.silver.sif.SIFExtendedTransformer$'].reset()
    Consistency.messages = []
    Jpype.started = False


# ------------------------------------------------------------------ jpype shim

class JVMNotFoundException(ValueError):
    pass


class JVMNotSupportedException(ValueError):
    pass


class Jpype:
    started = False

    @staticmethod
    def isJVMStarted():
        return Jpype.started

    @staticmethod
    def getDefaultJVMPath():
        if hooks.fault('jvm.path'):
            raise JVMNotFoundException('No JVM shared library file found '
                                       '(libjvm.so). Try setting JAVA_HOME')
        return '/sim/libjvm.so'

    @staticmethod
    def startJVM(path, *args, **kw):
        hooks.site('jvm.start')
        if hooks.fault('jvm.start'):
            raise OSError('JVM could not be loaded')
        if Jpype.started:
            raise OSError('JVM is already started')
        Jpype.started = True
        hooks.log('jvm.started')

    @staticmethod
    def JPackage(n):
        return Pkg(n)

    @staticmethod
    def JClass(n):
        if isinstance(n, _Class):
            return REG[n.n]
        w = hooks.WORLD
        if n not in REG or (w is not None and n in w.missing_classes):
            raise TypeError('Class %s is not found' % n)
        return REG[n]

    @staticmethod
    def JProxy(t, inst=None, dict=None):
        return inst

    @staticmethod
    def JArray(t):
        return lambda n: Seq(n).xs

    @staticmethod
    def JObject(o, t=None):
        return o


def install():
    if 'jpype' in sys.modules and getattr(sys.modules['jpype'], '_dst', False):
        return
    assert 'jpype' not in sys.modules, 'real jpype already imported'
    m = types.ModuleType('jpype')
    m._dst = True
    m.__path__ = []
    for k in ('isJVMStarted', 'getDefaultJVMPath', 'startJVM', 'JPackage',
              'JClass', 'JProxy', 'JArray', 'JObject'):
        setattr(m, k, getattr(Jpype, k))
    m.JException = JException
    m.JVMNotFoundException = JVMNotFoundException
    m.JVMNotSupportedException = JVMNotSupportedException
    m.isThreadAttachedToJVM = lambda: True
    m.attachThreadToJVM = lambda: None
    m.shutdownJVM = lambda: None
    e = types.ModuleType('jpype._jexception')
    e.JException = JException
    m._jexception = e
    sys.modules['jpype'] = m
    sys.modules['jpype._jexception'] = e
    _register()
