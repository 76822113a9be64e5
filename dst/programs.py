"""Generated Nagini programs with known ground truth.

Every program carries a signature literal (9xxxxx, never a failing marker) and
markers (see backend.py); `truth` gives the errors a configuration must report
as (file, line) pairs.
"""

import random

HEAD = 'from nagini_contracts.contracts import *\n'


class Program:
    def __init__(self, name, files, markers, kind, oblig, methods, sig, main=None):
        self.name = name          # file name of the main module
        self.files = files        # name -> text
        self.markers = markers    # [(marker, file, line, method)]
        self.kind = kind          # 'ok' | 'type' | 'invalid' | 'unsupported' | 'syntax'
        self.oblig = oblig
        self.methods = methods
        self.sig = sig

    def truth(self, cfg):
        """Expected (file, line) of errors, or None if translation must fail.

        cfg: dict(backend, bits, float, args, forced_oblig, selected).
        """
        if self.kind != 'ok':
            return None
        out = []
        args = cfg.get('args') or []
        ob = self.oblig if cfg.get('oblig') is None else cfg['oblig']
        sel = cfg.get('selected')
        for m, f, line, meth in self.markers:
            k = m // 100
            if sel and meth not in sel:
                continue
            fire = {11: True, 12: cfg['backend'] == 'silicon', 13: cfg['backend'] == 'carbon',
                    14: cfg['bits'] == 8, 15: '--simfail' in args, 16: ob,
                    17: cfg.get('float') == 'real', 18: True,
                    19: '--simlow' not in args}[k]
            if fire:
                out.append((f, line) if k != 18 else ('timeout', 0))
        return out


class Gen:
    """Builds one program from random pieces."""

    def __init__(self, rng, idx):
        self.rng = rng
        self.idx = idx
        self.lines = []
        self.markers = []
        self.methods = []
        self.sig = 900000 + idx
        self.n = 0
        self.oblig = False
        self.file = None
        self.used = set()

    def uid(self, p):
        self.n += 1
        return '%s_%d_%d' % (p, self.idx, self.n)

    def emit(self, s='', marker=None, meth=None):
        self.lines.append(s)
        if marker is not None:
            self.markers.append((marker, self.file, len(self.lines), meth))

    def marker(self, kinds):
        k = self.rng.choice(kinds)
        for _ in range(50):
            m = k * 100 + self.rng.randrange(100)
            # xx7 asks for a counterexample with an unusual heap
            if m not in self.used and (m % 10 != 7 or self.rng.random() < 0.5):
                break
        self.used.add(m)
        return m

    # pieces; each takes a list of marker kinds (possibly empty: passes)

    def _m(self, kinds):
        return self.marker(kinds) if kinds else 800 + self.rng.randrange(100)

    def p_assert(self, kinds):
        f = self.uid('f')
        m = self._m(kinds)
        self.methods.append(f)
        self.emit('def %s(a: int) -> int:' % f)
        self.emit('    Requires(a >= 0)')
        self.emit('    Ensures(Result() >= a)')
        self.emit('    Assert(a != %d)' % m, m if kinds else None, f)
        self.emit('    return a + 1')

    def p_pyassert(self, kinds):
        f = self.uid('g')
        m = self._m(kinds)
        self.methods.append(f)
        self.emit('def %s(a: int, b: int) -> int:' % f)
        self.emit('    c = a + b')
        self.emit('    assert c != %d' % m, m if kinds else None, f)
        self.emit('    return c')

    def p_twoline(self, kinds):
        f = self.uid('t')
        m, m2 = self._m(kinds), self._m(kinds)
        self.methods.append(f)
        self.emit('def %s(a: int, b: int) -> int:' % f)
        if kinds:
            self.markers.append((m2, self.file, len(self.lines) + 1, f))
        self.emit('    Assert(a != %d); Assert(b != %d)' % (m, m2), m if kinds else None, f)
        self.emit('    return a')

    def p_post(self, kinds):
        f = self.uid('h')
        m = self._m(kinds)
        self.methods.append(f)
        self.emit('def %s(a: int) -> int:' % f)
        self.emit('    Requires(a > 0)')
        self.emit('    Ensures(Result() != %d)' % m, m if kinds else None, f)
        self.emit('    b = a * 2')
        self.emit('    return b')

    def p_call(self, kinds):
        f, g = self.uid('callee'), self.uid('caller')
        m = self._m(kinds)
        self.methods += [g]
        self.emit('def %s(x: int) -> int:' % f)
        self.emit('    Requires(x != %d)' % (700 + self.rng.randrange(90)))
        self.emit('    return x')
        self.emit()
        self.emit('def %s(y: int) -> int:' % g)
        self.emit('    z = %s(y)' % f)
        self.emit('    Assert(z != %d)' % m, m if kinds else None, g)
        self.emit('    return z')

    def p_branch(self, kinds):
        f = self.uid('br')
        m, m2 = self._m(kinds), self._m([])
        self.methods.append(f)
        self.emit('def %s(a: int) -> int:' % f)
        self.emit('    r = 0')
        self.emit('    if a > 5:')
        self.emit('        Assert(a != %d)' % m, m if kinds else None, f)
        self.emit('        r = 1')
        self.emit('    else:')
        self.emit('        Assert(a != %d)' % m2)
        self.emit('    return r')

    def p_loop(self, kinds):
        f = self.uid('lp')
        m = self._m(kinds)
        self.methods.append(f)
        self.emit('def %s(n: int) -> int:' % f)
        self.emit('    i = 0')
        self.emit('    while i < n:')
        self.emit('        Invariant(i >= 0)')
        self.emit('        i += 1')
        self.emit('        Assert(i != %d)' % m, m if kinds else None, f)
        self.emit('    return i')

    def p_class(self, kinds):
        c = self.uid('C')
        m = self._m(kinds)
        meth = '%s.get' % c
        self.methods.append(meth)
        self.emit('class %s:' % c)
        self.emit('    def __init__(self, v: int) -> None:')
        self.emit('        Ensures(Acc(self.v))')
        self.emit('        self.v = v  # type: int')
        self.emit()
        self.emit('    def get(self) -> int:')
        self.emit('        Requires(Acc(self.v))')
        self.emit('        Ensures(Acc(self.v))')
        self.emit('        Assert(self.v != %d)' % m, m if kinds else None, meth)
        self.emit('        return self.v')

    def p_pure(self, kinds):
        f, g = self.uid('pf'), self.uid('up')
        m = self._m(kinds)
        self.methods.append(g)
        self.emit('@Pure')
        self.emit('def %s(a: int) -> int:' % f)
        self.emit('    Ensures(Result() >= a)')
        self.emit('    return a + 1')
        self.emit()
        self.emit('def %s(a: int) -> None:' % g)
        self.emit('    Assert(%s(a) != %d)' % (f, m), m if kinds else None, g)

    def p_oblig(self, kinds):
        f = self.uid('ob')
        m = self._m(kinds)
        self.oblig = True
        self.methods.append(f)
        self.emit('def %s(a: int) -> int:' % f)
        self.emit('    Requires(MustTerminate(2))')
        self.emit('    Assert(a != %d)' % m, m if kinds else None, f)
        self.emit('    return a')

    def p_list(self, kinds):
        f = self.uid('ls')
        m = self._m(kinds)
        self.methods.append(f)
        self.emit('def %s(a: int) -> None:' % f)
        self.emit('    l = [a, a + 1, 3]')
        self.emit('    Assert(len(l) == 3)')
        self.emit('    Assert(l[0] != %d)' % m, m if kinds else None, f)

    PIECES = ['assert', 'pyassert', 'post', 'call', 'branch', 'loop', 'class', 'pure', 'list', 'twoline']

    def piece(self, kinds, name=None):
        self.emit()
        self.emit()
        getattr(self, 'p_' + (name or self.rng.choice(self.PIECES)))(kinds)

    def sig_fn(self):
        f = 'sig_%d' % self.idx
        self.emit()
        self.emit('def %s(a: int) -> None:' % f)
        self.emit('    Assert(a != %d)' % self.sig)
        self.methods.append(f)


def make(rng, idx, kind='ok', kinds=(), oblig=False, helper=False, pieces=None,
         name=None, spec=()):
    """kinds: marker kinds to place (each at its own piece).

    spec: further pieces as (piece name, marker kind or None).
    """
    g = Gen(rng, idx)
    name = name or 'p%d.py' % idx
    g.file = name
    files = {}
    hm = []
    g.lines = HEAD.splitlines()
    if oblig:
        g.lines.append('from nagini_contracts.obligations import MustTerminate')
    if helper:
        hn = 'helper_%d' % idx
        g.lines.append('from %s import hp_%d' % (hn, idx))
        h = Gen(rng, idx)
        h.file = hn + '.py'
        h.used = g.used
        h.lines = HEAD.splitlines()
        h.emit()
        m = h._m(list(helper) if isinstance(helper, (list, tuple)) else [])
        h.emit('def hp_%d(a: int) -> int:' % idx)
        h.emit('    Requires(a >= 0)')
        h.emit('    Ensures(Result() >= a)')
        h.emit('    Assert(a != %d)' % m,
               m if isinstance(helper, (list, tuple)) and helper else None, 'hp_%d' % idx)
        h.emit('    return a + 2')
        files[hn + '.py'] = '\n'.join(h.lines) + '\n'
        hm = h.markers
    if oblig:
        g.piece([16] if 16 in kinds else [], 'oblig')
    todo = [k for k in kinds if not (oblig and k == 16)]
    extra = rng.randrange(0, 2) if pieces is None else pieces
    for k in todo:
        g.piece([k])
    for n, k in spec:
        g.piece([k] if k else [], n)
    for _ in range(extra):
        g.piece([])
    if helper:
        g.emit()
        g.emit()
        g.emit('def use_helper_%d(b: int) -> int:' % idx)
        g.emit('    Requires(b >= 3)')
        g.emit('    return hp_%d(b)' % idx)
        g.methods.append('use_helper_%d' % idx)
    g.emit()
    g.sig_fn()
    if kind == 'type':
        g.emit()
        g.emit('def bad_%d(a: int) -> str:' % idx)
        g.emit('    return a + %d' % g.sig)
    elif kind == 'type_any':
        g.emit()
        g.emit('def bad_%d(a):' % idx)
        g.emit('    return a')
    elif kind == 'invalid':
        g.emit()
        g.emit('def bad_%d(a: int) -> int:' % idx)
        g.emit('    b = a')
        g.emit('    Requires(a > 0)')
        g.emit('    return b')
    elif kind == 'unsupported':
        g.emit()
        g.emit('async def bad_%d(a: int) -> int:' % idx)
        g.emit('    return a')
    elif kind == 'syntax':
        g.emit('def bad_%d(a: int -> int:' % idx)
    files[name] = '\n'.join(g.lines) + '\n'
    return Program(name, files, g.markers + hm, 'ok' if kind == 'ok' else kind, oblig,
                   g.methods, g.sig)


def twins(rng, idx, kind=11):
    """Main and imported module fail with the same error at the same place."""
    m = kind * 100 + rng.randrange(100)
    name, hn = 'p%d.py' % idx, 'twin_%d' % idx
    sig = 900000 + idx
    body = ['@Pure', 'def %s(a: int) -> int:', '    Requires(a >= 0)',
            '    Ensures(Result() != %d)' % m, '    return a + 2', '']
    fs = {}
    for f, fn, head in ((hn + '.py', 'tw_%d' % idx, 'from nagini_contracts.contracts import Acc'),
                        (name, 'tw_%d' % idx, 'import %s' % hn)):
        lines = HEAD.splitlines() + [head, ''] + [x % fn if '%s' in x else x for x in body]
        fs[f] = lines
    fs[name] += ['', 'def sig_%d(a: int) -> None:' % idx, '    Assert(a != %d)' % sig,
                 '    b = %s.tw_%d(3)' % (hn, idx), '']
    return Program(name, {f: '\n'.join(l) for f, l in fs.items()},
                   [(m, hn + '.py', 7, 'tw_%d' % idx), (m, name, 7, 'tw_%d' % idx)],
                   'ok', False, ['tw_%d' % idx], sig)


def odd(kind, idx):
    """Files that are not programs at all; verification must fail on them."""
    name = 'odd%d.py' % idx
    body = {'nofile': {}, 'dir': {name: '<dir>'},
            'binary': {name: '<hex>' + 'ff00fe8081deadbeef0a' * 5},
            'latin1': {name: '<hex>' + ('# caf\xe9\nx = 1\n'.encode('latin1')).hex()},
            'nul': {name: 'x = 1\0\n'},
            'empty': {name: ''},
            'badimport': {name: HEAD + 'import no_such_module_%d\n' % idx},
            'mode': {name: HEAD + '\ndef f(a: int) -> int:\n    Requires(a > 0)\n'
                     '    return undefined_name_%d\n' % idx},
            'recursion': {name: 'x = ' + '(' * 150 + '1' + ')' * 150 + '\n'},
            'async': {name: HEAD + '\nasync def f(a: int) -> int:\n    return a\n'},
            'yield': {name: HEAD + '\ndef f(a: int) -> None:\n    x = [i for i in range(a)]\n'
                      '    yield a\n'},
            'lambda': {name: HEAD + '\nz = lambda q: q\n'},
            'walrus': {name: HEAD + '\ndef f(a: int) -> int:\n    if (b := a) > 1:\n'
                       '        return b\n    return a\n'},
            'match': {name: HEAD + '\ndef f(a: int) -> int:\n    match a:\n        case 1:\n'
                      '            return 2\n    return a\n'},
            'starexpr': {name: HEAD + '\ndef f(*a: int, **k: int) -> int:\n    b, *c = a\n'
                         '    return b\n'},
            'global': {name: HEAD + '\nG = 1\ndef f(a: int) -> int:\n    global G\n    G = a\n'
                       '    del a\n    return G\n'},
            'nested': {name: HEAD + '\ndef f(a: int) -> int:\n    def g(b: int) -> int:\n'
                       '        return b\n    return g(a)\n'},
            'metacls': {name: HEAD + '\nclass M(type):\n    pass\n\nclass C(metaclass=M):\n'
                        '    x = 1\n'},
            'decor': {name: HEAD + '\ndef d(f: object) -> object:\n    return f\n\n@d\n'
                      'def g(a: int) -> int:\n    return a\n'},
            'oldresult': {name: HEAD + '\ndef f(a: int) -> int:\n    Ensures(Result() == Old(q))\n'
                          '    return a\n'},
            'accargs': {name: HEAD + '\ndef f(a: int) -> int:\n    Requires(Acc())\n'
                        '    return a\n'},
            }[kind]
    p = Program(name, body, [], 'odd', False, [], 800000 + idx)
    p.odd = kind
    return p


ODD = ['nofile', 'dir', 'binary', 'latin1', 'nul', 'empty', 'badimport', 'mode', 'recursion',
       'async', 'yield', 'lambda', 'walrus', 'match', 'starexpr', 'global', 'nested', 'metacls',
       'decor', 'oldresult', 'accargs']
