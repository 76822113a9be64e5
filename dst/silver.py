"""A pure-Python stand-in for the part of Silver's AST that Nagini touches.

Nothing here imports Nagini.  Node classes are generated from a table; field
order is the positional constructor order JPype would expose, and calling a
constructor with the wrong arity raises TypeError like JPype does.
"""

import hashlib
import re

from . import hooks


# ----------------------------------------------------------------- scala-ish

class JObj:
    """Base of everything that pretends to be a Java object."""
    __slots__ = ()
    _java_name = 'java.lang.Object'

    def getClass(self):
        return JClassInfo(type(self))

    def toString(self):
        return str(self)

    def equals(self, other):
        return self == other

    def hashCode(self):
        return 0


class JClassInfo(JObj):
    __slots__ = ('cls',)

    def __init__(self, cls):
        self.cls = cls

    def getSimpleName(self):
        return self.cls.__name__

    def getName(self):
        return getattr(self.cls, '_java_name', self.cls.__name__)

    def __str__(self):
        return 'class ' + self.getName()


class NoneOpt(JObj):
    def isDefined(self):
        return False

    def isEmpty(self):
        return True

    def nonEmpty(self):
        return False

    def get(self):
        from .jvm import throw
        throw('java.util.NoSuchElementException', 'None.get')

    def __str__(self):
        return 'None'


NONE = NoneOpt()


class Some(JObj):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def isDefined(self):
        return True

    def isEmpty(self):
        return False

    def nonEmpty(self):
        return True

    def get(self):
        return self.v

    def value(self):
        return self.v

    def __eq__(self, o):
        return isinstance(o, Some) and self.v == o.v

    def __hash__(self):
        return hash(('Some', self.v))

    def __str__(self):
        return 'Some(%s)' % (self.v,)


class It(JObj):
    __slots__ = ('xs', 'i')

    def __init__(self, xs):
        self.xs = xs
        self.i = 0

    def hasNext(self):
        return self.i < len(self.xs)

    def next(self):
        x = self.xs[self.i]
        self.i += 1
        return x


class Seq(JObj):
    """Mutable or immutable Scala sequence."""
    __slots__ = ('xs',)

    def __init__(self, n=0):
        if isinstance(n, int):
            self.xs = [None] * n
        else:
            self.xs = list(n)

    @classmethod
    def make(cls, arr):
        return cls(arr)

    def update(self, i, v):
        self.xs[i] = v

    def append(self, v):
        if isinstance(v, Seq):
            self.xs.extend(v.xs)
        else:
            self.xs.append(v)

    def toIterator(self):
        return It(self.xs)

    iterator = toIterator

    def toList(self):
        return Seq(self.xs)

    toSeq = toList

    def toSet(self):
        return SSet(self.xs)

    def head(self):
        if not self.xs:
            from .jvm import throw
            throw('java.util.NoSuchElementException', 'head of empty list')
        return self.xs[0]

    def isEmpty(self):
        return not self.xs

    def nonEmpty(self):
        return bool(self.xs)

    def size(self):
        return len(self.xs)

    length = size

    def apply(self, i):
        return self.xs[i]

    def contains(self, v):
        return v in self.xs

    def __eq__(self, o):
        return isinstance(o, Seq) and self.xs == o.xs

    def __hash__(self):
        return hash(tuple(self.xs))

    def __str__(self):
        return 'List(%s)' % ', '.join(str(x) for x in self.xs)


class SSet(JObj):
    __slots__ = ('d',)

    def __init__(self, xs=()):
        self.d = {}
        for x in xs:
            self.d[x] = True

    def add(self, x):
        self.d[x] = True
        return True

    def contains(self, x):
        return x in self.d

    def toSet(self):
        return SSet(self.d)

    def toSeq(self):
        return Seq(list(self.d))

    def toIterator(self):
        return It(list(self.d))

    def size(self):
        return len(self.d)

    def isEmpty(self):
        return not self.d

    def __str__(self):
        return 'Set(%s)' % ', '.join(sorted(str(x) for x in self.d))


class SMap(JObj):
    __slots__ = ('d',)

    def __init__(self, d=()):
        self.d = dict(d)

    def updated(self, k, v):
        m = SMap(self.d)
        m.d[k] = v
        return m

    def contains(self, k):
        return k in self.d

    def get(self, k):
        return Some(self.d[k]) if k in self.d else NONE

    def toIterator(self):
        return It([Tuple2(k, v) for k, v in self.d.items()])

    def isEmpty(self):
        return not self.d

    def __str__(self):
        return 'Map(%s)' % ', '.join('%s -> %s' % (k, v)
                                     for k, v in self.d.items())


class Tuple2(JObj):
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a, self.b = a, b

    def _1(self):
        return self.a

    def _2(self):
        return self.b


class BigInteger(JObj):
    def __init__(self, s):
        self.v = int(s)

    def negate(self):
        return BigInteger(-self.v)

    def __str__(self):
        return str(self.v)


class BigInt(JObj):
    def __init__(self, bi):
        self.v = bi.v if isinstance(bi, BigInteger) else int(bi)

    def __eq__(self, o):
        return isinstance(o, BigInt) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __str__(self):
        return str(self.v)


# ------------------------------------------------------------------ positions

class NoPos(JObj):
    def __str__(self):
        return '<no position>'


NoPosition = NoPos()


class JPath(JObj):
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def toString(self):
        return self.p

    def getFileName(self):
        return JPath(self.p.rsplit('/', 1)[-1])

    __str__ = toString


class LineColumnPosition(JObj):
    __slots__ = ('_l', '_c')

    def __init__(self, line, column):
        self._l, self._c = int(line), int(column)

    def line(self):
        return self._l

    def column(self):
        return self._c

    def __str__(self):
        return '%d.%d' % (self._l, self._c)


class IdentifierPosition(JObj):
    __slots__ = ('_f', '_s', '_e', '_id')

    def __init__(self, file, start, end, id):
        self._f, self._s, self._e, self._id = file, start, end, id

    def file(self):
        return self._f

    def start(self):
        return self._s

    def end(self):
        return self._e

    def line(self):
        return self._s.line()

    def column(self):
        return self._s.column()

    def id(self):
        return self._id

    def key(self):
        return (self._f.p, self._s._l, self._s._c)

    def __eq__(self, o):
        return (isinstance(o, IdentifierPosition) and self._id == o._id
                and self.key() == o.key())

    def __hash__(self):
        return hash(self._id)

    def __str__(self):
        return '%s@%s' % (self._f.p.rsplit('/', 1)[-1], self._s)


class NoInfoT(JObj):
    def comment(self):
        return Seq()

    def __str__(self):
        return 'NoInfo'


class SimpleInfo(JObj):
    __slots__ = ('c',)

    def __init__(self, comments):
        self.c = comments

    def comment(self):
        return self.c

    def __str__(self):
        return 'Info%s' % self.c


class ConsInfo(JObj):
    __slots__ = ('h', 't')

    def __init__(self, head, tail):
        self.h, self.t = head, tail

    def head(self):
        return self.h

    def tail(self):
        return self.t


class AnnotationInfo(JObj):
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    def values(self):
        return self.m

    def __str__(self):
        return '@' + str(self.m)


NoInfo = NoInfoT()


class NoTrafosT(JObj):
    pass


NoTrafos = NoTrafosT()


# ---------------------------------------------------------------------- types

class Type(JObj):
    def __eq__(self, o):
        return self is o or (type(self) is type(o) and str(self) == str(o))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(str(self))


class Atomic(Type):
    def __init__(self, n):
        self.n = n

    def __str__(self):
        return self.n


Int, Bool, Ref, Perm = (Atomic(n) for n in ('Int', 'Bool', 'Ref', 'Perm'))


class _Coll(Type):
    def __init__(self, elementType):
        self.e = elementType

    def elementType(self):
        return self.e

    def __str__(self):
        return '%s[%s]' % (self.__class__.__name__[:-4], self.e)


class SeqType(_Coll):
    pass


class SetType(_Coll):
    pass


class MultisetType(_Coll):
    pass


class MapType(Type):
    def __init__(self, k, v):
        self.k, self.v = k, v

    def keyType(self):
        return self.k

    def valueType(self):
        return self.v

    def __str__(self):
        return 'Map[%s,%s]' % (self.k, self.v)


class DomainType(Type):
    def __init__(self, name, m, tvs):
        self.name_ = name
        self.m = m
        self.tvs = tvs

    def domainName(self):
        return self.name_

    def __str__(self):
        if self.tvs.xs:
            return '%s[%s]' % (self.name_, ','.join(
                str(self.m.d.get(t, t)) for t in self.tvs.xs))
        return self.name_


class TypeVar(Type):
    def __init__(self, name):
        self.name_ = name

    def name(self):
        return self.name_

    def __str__(self):
        return self.name_


# ---------------------------------------------------------------------- nodes

class Node(JObj):
    FIELDS = ()
    CHILD = ()

    def __init__(self, *a):
        if len(a) != len(self.FIELDS):
            raise TypeError('No matching overloads found for constructor %s(%s)'
                            % (type(self).__name__,
                               ', '.join(type(x).__name__ for x in a)))
        self.a = a
        if hooks.AST is not None:
            hooks.AST()

    def children(self):
        out = []
        for i in self.CHILD:
            v = self.a[i]
            if isinstance(v, Some):
                v = v.v
            if isinstance(v, Node):
                out.append(v)
            elif isinstance(v, Seq):
                for x in v.xs:
                    if isinstance(x, Node):
                        out.append(x)
        return out

    def subnodes(self):
        return Seq(self.children())

    def reduceTree(self):
        return list(walk(self))

    def __eq__(self, o):
        if self is o:
            return True
        if type(self) is not type(o):
            return False
        for f, x, y in zip(self.FIELDS, self.a, o.a):
            if f in ('pos', 'info', 'errT'):
                continue
            if x != y:
                return False
        return True

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(type(self).__name__)

    def __str__(self):
        return render(self)


def walk(n):
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        stack.extend(reversed(x.children()))


def _fmt(v, out):
    if isinstance(v, Node):
        n = type(v).__name__
        out.append(n)
        out.append('(')
        first = True
        for f, x in zip(v.FIELDS, v.a):
            if f in ('pos', 'errT'):
                continue
            if f == 'info' and x is NoInfo:
                continue
            if not first:
                out.append(', ')
            first = False
            _fmt(x, out)
        out.append(')')
        if isinstance(v, (Stmt, Member)):
            out.append('\n')
    elif isinstance(v, Seq):
        out.append('[')
        for i, x in enumerate(v.xs):
            if i:
                out.append(', ')
            _fmt(x, out)
        out.append(']')
    elif isinstance(v, Some):
        _fmt(v.v, out)
    elif isinstance(v, ConsInfo):
        out.append('Cons(')
        _fmt(v.h, out)
        out.append(', ')
        _fmt(v.t, out)
        out.append(')')
    elif isinstance(v, NoneOpt):
        out.append('-')
    else:
        out.append(str(v))


def render(n):
    out = []
    _fmt(n, out)
    return ''.join(out)


class Exp(Node):
    T = None

    def typ(self):
        t = self.T
        if t is not None:
            return t
        return self._typ()

    def _typ(self):
        raise AttributeError('typ of %s' % type(self).__name__)

    def isPure(self):
        for n in walk(self):
            if isinstance(n, (AccessPredicate, Nodes.InhaleExhaleExp)):
                return False
        return True

    def isHeapDependent(self, *_):
        return any(isinstance(n, LocationAccess) for n in walk(self))

    def whenExhaling(self):
        if isinstance(self, Nodes.InhaleExhaleExp):
            return self.ex().whenExhaling()
        a = []
        changed = False
        for i, x in enumerate(self.a):
            if i in self.CHILD and isinstance(x, Exp):
                y = x.whenExhaling()
                changed = changed or y is not x
                a.append(y)
            else:
                a.append(x)
        return type(self)(*a) if changed else self


class Stmt(Node):
    pass


class Member(Node):
    pass


class AccessPredicate(Exp):
    pass


class LocationAccess(Exp):
    pass


class Nodes:
    """Holder of generated node classes (also the registry for the package)."""


SPEC = '''
Program:Node domains fields functions predicates methods extensions pos info errT
Function:Member name formalArgs typ pres posts body pos info errT
Method:Member name formalArgs formalReturns pres posts body pos info errT
Field:Member name typ pos info errT
Predicate:Member name formalArgs body pos info errT
Domain:Member name functions axioms typVars interpretations pos info errT
DomainFunc:Member name formalArgs typ unique interpretation pos info domainName errT
NamedDomainAxiom:Member name exp pos info domainName errT
LocalVarDecl:Node name typ pos info errT
Label:Stmt name invs pos info errT
Goto:Stmt target pos info errT
Seqn:Stmt ss scopedSeqnDeclarations pos info errT
LocalVarAssign:Stmt lhs rhs pos info errT
FieldAssign:Stmt lhs rhs pos info errT
MethodCall:Stmt methodName args targets pos info errT
NewStmt:Stmt lhs fields pos info errT
Fold:Stmt acc pos info errT
Unfold:Stmt acc pos info errT
Inhale:Stmt exp pos info errT
Exhale:Stmt exp pos info errT
Assert:Stmt exp pos info errT
If:Stmt cond thn els pos info errT
While:Stmt cond invs body pos info errT
PredicateAccess:LocationAccess:Bool args predicateName pos info errT
PredicateAccessPredicate:AccessPredicate:Bool loc permExp pos info errT
FieldAccess:LocationAccess:1f rcv field pos info errT
FieldAccessPredicate:AccessPredicate:Bool loc permExp pos info errT
Unfolding:Exp:@body acc body pos info errT
Asserting:Exp:@body ass body pos info errT
DomainFuncApp:Exp funcname args typVarMap pos info typ domainName errT
FuncApp:Exp funcname args pos info typ errT
Old:Exp:@exp exp pos info errT
LabelledOld:Exp:@exp exp oldLabel pos info errT
InhaleExhaleExp:Exp:Bool in_ ex pos info errT
FullPerm:Exp:Perm pos info errT
NoPerm:Exp:Perm pos info errT
WildcardPerm:Exp:Perm pos info errT
FractionalPerm:Exp:Perm left right pos info errT
CurrentPerm:Exp:Perm res pos info errT
ForPerm:Exp:Bool variables resource body pos info errT
PermMinus:Exp:Perm exp pos info errT
PermAdd:Exp:Perm left right pos info errT
PermSub:Exp:Perm left right pos info errT
PermMul:Exp:Perm left right pos info errT
IntPermMul:Exp:Perm left right pos info errT
PermDiv:Exp:Perm left right pos info errT
PermLtCmp:Exp:Bool left right pos info errT
PermLeCmp:Exp:Bool left right pos info errT
PermGtCmp:Exp:Bool left right pos info errT
PermGeCmp:Exp:Bool left right pos info errT
Not:Exp:Bool exp pos info errT
Minus:Exp:@exp exp pos info errT
CondExp:Exp:@thn cond thn els pos info errT
EqCmp:Exp:Bool left right pos info errT
NeCmp:Exp:Bool left right pos info errT
GtCmp:Exp:Bool left right pos info errT
GeCmp:Exp:Bool left right pos info errT
LtCmp:Exp:Bool left right pos info errT
LeCmp:Exp:Bool left right pos info errT
IntLit:Exp:Int i pos info errT
Implies:Exp:Bool left right pos info errT
ExplicitSeq:Exp:$SeqType elems pos info errT
ExplicitSet:Exp:$SetType elems pos info errT
ExplicitMultiset:Exp:$MultisetType elems pos info errT
EmptySeq:Exp:%SeqType elemTyp pos info errT
EmptySet:Exp:%SetType elemTyp pos info errT
EmptyMultiset:Exp:%MultisetType elemTyp pos info errT
LocalVar:Exp name typ pos info errT
Result:Exp typ pos info errT
AnySetContains:Exp:Bool elem s pos info errT
AnySetUnion:Exp:@left left right pos info errT
AnySetSubset:Exp:Bool left right pos info errT
MapContains:Exp:Bool key base pos info errT
MapLookup:Exp:mv base key pos info errT
SeqAppend:Exp:@left left right pos info errT
SeqContains:Exp:Bool elem s pos info errT
SeqLength:Exp:Int s pos info errT
SeqIndex:Exp:sv s idx pos info errT
SeqTake:Exp:@s s n pos info errT
SeqDrop:Exp:@s s n pos info errT
Add:Exp:Int left right pos info errT
Sub:Exp:Int left right pos info errT
Mul:Exp:Int left right pos info errT
Div:Exp:Int left right pos info errT
Mod:Exp:Int left right pos info errT
And:Exp:Bool left right pos info errT
Or:Exp:Bool left right pos info errT
TrueLit:Exp:Bool pos info errT
FalseLit:Exp:Bool pos info errT
NullLit:Exp:Ref pos info errT
Forall:Exp:Bool variables triggers exp pos info errT
Exists:Exp:Bool variables triggers exp pos info errT
Trigger:Node exps pos info errT
Let:Exp:@body variable exp body pos info errT
Refute:Stmt exp pos info errT
DecreasesTuple:Exp:Bool tupleExpressions condition pos info errT
DecreasesWildcard:Exp:Bool condition pos info errT
PredicateInstance:Exp:Ref p args pos info errT
SIFReturnStmt:Stmt exp resVar pos info errT
SIFBreakStmt:Stmt pos info errT
SIFContinueStmt:Stmt pos info errT
SIFRaiseStmt:Stmt assignment pos info errT
SIFExceptionHandler:Node errVar exception body pos info errT
SIFWhileElse:Stmt whl els pos info errT
SIFTryCatchStmt:Stmt body catchBlocks elseBlock finallyBlock pos info errT
SIFLowExp:Exp:Bool exp comparator typVarMap pos info errT
SIFLowEventExp:Exp:Bool pos info errT
SIFLowExitExp:Exp:Bool pos info errT
SIFDeclassifyStmt:Stmt exp pos info errT
SIFInlinedCallStmt:Stmt stmts pos info errT
SIFAssertNoException:Stmt pos info errT
SIFTerminatesExp:Exp:Bool cond pos info errT
Opaque:Node text pos info errT
OpaqueExp:Exp:Bool text pos info errT
'''

_NONCHILD = {'name', 'pos', 'info', 'errT', 'typ', 'funcname', 'domainName',
             'methodName', 'predicateName', 'typVarMap', 'typVars', 'unique',
             'interpretation', 'interpretations', 'field', 'i', 'elemTyp',
             'oldLabel', 'target', 'text', 'comparator', 'p'}

_BASES = {'Node': Node, 'Exp': Exp, 'Stmt': Stmt, 'Member': Member,
          'AccessPredicate': AccessPredicate, 'LocationAccess': LocationAccess}
_ATOM = {'Int': Int, 'Bool': Bool, 'Ref': Ref, 'Perm': Perm}


def _acc(i):
    def f(self):
        return self.a[i]
    return f


def _build():
    for line in SPEC.strip().splitlines():
        head, *fields = line.split()
        name, base, *rest = head.split(':')
        ns = {'FIELDS': tuple(fields),
              'CHILD': tuple(i for i, f in enumerate(fields)
                             if f not in _NONCHILD)}
        for i, f in enumerate(fields):
            ns[f] = _acc(i)
        ns['_java_name'] = 'viper.silver.ast.' + name
        if rest:
            r = rest[0]
            if r in _ATOM:
                ns['T'] = _ATOM[r]
            elif r[0] == '@':
                def _t(self, k=r[1:]):
                    return getattr(self, k)().typ()
                ns['typ'] = _t
            elif r[0] == '$':
                def _t(self, c={'SeqType': SeqType, 'SetType': SetType,
                                'MultisetType': MultisetType}[r[1:]]):
                    return c(self.elems().head().typ())
                ns['typ'] = _t
            elif r[0] == '%':
                def _t(self, c={'SeqType': SeqType, 'SetType': SetType,
                                'MultisetType': MultisetType}[r[1:]]):
                    return c(self.elemTyp())
                ns['typ'] = _t
            elif r == '1f':
                ns['typ'] = lambda self: self.field().typ()
            elif r == 'mv':
                ns['typ'] = lambda self: self.base().typ().valueType()
            elif r == 'sv':
                ns['typ'] = lambda self: self.s().typ().elementType()
        setattr(Nodes, name, type(name, (_BASES[base],), ns))


_build()
Nodes.SimpleInfo = SimpleInfo
Nodes.ConsInfo = ConsInfo
Nodes.AnnotationInfo = AnnotationInfo


def _mname(self):
    return self.a[0]


def fingerprint(text):
    return hashlib.sha1(text.encode('utf-8', 'replace')).hexdigest()[:16]


def canonical(prog):
    """Text of a program including positions (not the per-run unique ids)."""
    out = [render(prog), '\n']
    for n in walk(prog):
        try:
            p = n.pos()
        except Exception:
            continue
        if isinstance(p, IdentifierPosition):
            out.append('%s;' % p)
        else:
            out.append('-;')
    return ''.join(out)


def mk(name, *fields):
    """Build a node with NoPosition/NoInfo/NoTrafos appended."""
    return getattr(Nodes, name)(*fields, NoPosition, NoInfo, NoTrafos)


_WORD = re.compile(r'[A-Za-z_$][A-Za-z_0-9$]*')
_WORDS = {}


def _words(text):
    w = _WORDS.get(text)
    if w is None:
        w = _WORDS[text] = tuple(sorted(set(_WORD.findall(text))))
    return w


def chop(prog, names):
    """Reachability slicing by member name (used by Nagini for selection)."""
    members = {}
    for m in (prog.functions().xs + prog.predicates().xs + prog.methods().xs):
        members.setdefault(m.name(), []).append(m)
    todo = [n for n in names.d if n in members]
    if not todo:
        return NONE
    seen = set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for m in members.get(n, ()):
            for x in walk(m):
                t = type(x).__name__
                if t == 'FuncApp':
                    todo.append(x.funcname())
                elif t == 'MethodCall':
                    todo.append(x.methodName())
                elif t == 'PredicateAccess':
                    todo.append(x.predicateName())
                elif t == 'PredicateInstance':
                    todo.append(x.p())
                elif t in ('Opaque', 'OpaqueExp'):
                    todo.extend(w for w in _words(x.text()) if w in members)
    a = list(prog.a)
    a[2] = Seq([f for f in prog.functions().xs if f.name() in seen])
    a[3] = Seq([f for f in prog.predicates().xs if f.name() in seen])
    a[4] = Seq([f for f in prog.methods().xs if f.name() in seen])
    return Some(Nodes.Program(*a))


def _localVar(self):
    return Nodes.LocalVar(self.name(), self.typ(), self.pos(), self.info(),
                          NoTrafos)


Nodes.LocalVarDecl.localVar = _localVar


def _replace(self, old, new):
    if self == old:
        return new
    a = []
    ch = False
    for i, x in enumerate(self.a):
        y = x
        if i in self.CHILD:
            if isinstance(x, Node):
                y = x.replace(old, new)
            elif isinstance(x, Seq):
                zs = [z.replace(old, new) if isinstance(z, Node) else z
                      for z in x.xs]
                if any(p is not q for p, q in zip(zs, x.xs)):
                    y = Seq(zs)
            elif isinstance(x, Some) and isinstance(x.v, Node):
                z = x.v.replace(old, new)
                if z is not x.v:
                    y = Some(z)
        ch = ch or y is not x
        a.append(y)
    return type(self)(*a) if ch else self


Exp.replace = _replace
Node.replace = _replace
