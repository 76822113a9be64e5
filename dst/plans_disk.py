"""Projects on disk, their versions, and histories of their directories."""

import random

from . import corpus as CO
from . import plans as P
from . import programs as PG

HEAD = 'from nagini_contracts.contracts import *\n'


class Project:
    """A program with several versions of its files (None: file removed)."""

    def __init__(self, idx, name, versions, base_dir=None, local=True):
        self.idx, self.name, self.versions = idx, name, versions
        self.files = versions[0]
        self.base_dir, self.local, self.args = base_dir, local, None
        self.sig = 900000 + idx
        self.kind, self.markers, self.methods, self.oblig = 'ok', [], [], False

    def op(self, r):
        o = dict(op='verify', file=self.name, sig=self.sig)
        if self.base_dir is not None:
            o['base_dir'] = self.base_dir
        if self.args and r.random() < 0.7:
            o['viper_args'] = self.args
        return o


def _m(r, fails):
    """A marker that fails, or a literal that does not; same number of digits."""
    return 1100 + r.randrange(1, 7) + 10 * r.randrange(9) if fails else 8000 + r.randrange(90)


def main_text(r, idx, imports, body, fails):
    return HEAD + ''.join(i + '\n' for i in imports) + '''

def sig_%d(a: int) -> None:
    Assert(a != %d)


def f_%d(x: int) -> int:
    Requires(x > 0)
%s
    Assert(x != %d)
    return x
''' % (idx, 900000 + idx, idx, body.rstrip('\n'), _m(r, fails))


def plain_lib(r, idx, variant):
    """A module without contracts; the variants have equal length."""
    t, v = [('int ', 'a   '), ('bool', 'True'), ('str ', "'st'")][variant % 3]
    return '''
K_%d = %d

class D_%d:
    def __init__(self, a: int) -> None:
        self.v = %s  # type: %s
        self.w = a
''' % (idx, 10 + variant, idx, v, t)


def pure_lib(r, idx, fails):
    return HEAD + '''
@Pure
def g_%d(y: int) -> int:
    Requires(y > 0)
    Ensures(Result() != %d)
    return y + 1

def h_%d(y: int) -> int:
    Requires(y >= %d)
    Ensures(Result() >= y)
    return y
''' % (idx, _m(r, fails), idx, r.randrange(2))


def typed_lib(r, idx, t):
    """The type of a member decides whether the main module type checks."""
    return HEAD + '''
class E_%d:
    def __init__(self) -> None:
        Ensures(Acc(self.m) and Acc(self.o))
        self.m = %s  # type: %s
        self.o = None  # type: Optional['E_%d']

@Pure
def k_%d(y: int) -> %s:
    return %s
''' .replace('%s  # type: %s', '%(v)s  # type: %(t)s').replace('-> %s', '-> %(t)s') \
        .replace('return %s', 'return %(v)s').replace('%d', '%(i)d') \
        .replace(HEAD, HEAD + 'from typing import Optional\n') % dict(
            i=idx, t=t, v={'int ': '1     ', 'str ': "'abcd'", 'bool': 'False '}[t])


def project(r, idx, kind):
    n = 'p%d.py' % idx
    use_d = '    d = D_%d(x)\n    u = d.w\n    Assert(u != %d)\n' % (idx, _m(r, False))
    if kind == 'single':
        vs = []
        for k in (0, 1):
            q = random.Random(idx)
            vs.append({n: main_text(q, idx, [], '    y = x + 1\n    Assert(y != %d)\n' % _m(
                r, k), False)})
        vs.append({n: vs[0][n].replace('y = x + 1', "y = 'abc'")})
        p = Project(idx, n, vs, local=False)
    elif kind == 'helper':
        h = 'lib_%d' % idx
        t = main_text(r, idx, ['from %s import g_%d, h_%d' % (h, idx, idx)],
                      '    y = g_%d(x)\n    z = h_%d(x)\n' % (idx, idx), r.random() < 0.4)
        vs = [{n: t, h + '.py': pure_lib(r, idx, k)} for k in (0, 1)]
        vs.append({n: t, h + '.py': pure_lib(r, idx, 0).replace('return y + 1', "return 'a' ")})
        p = Project(idx, n, vs)
    elif kind == 'typed':
        h = 'lib_%d' % idx
        t = main_text(r, idx, ['import %s' % h],
                      '    e = %s.E_%d()\n    y = e.m\n    w = %s.k_%d(x)\n' % (h, idx, h, idx)
                      + r.choice(['', '    z = w + x\n', '    o = e.o\n    q = o.m\n']),
                      r.random() < 0.4)
        vs = [{n: t, h + '.py': typed_lib(r, idx, k)} for k in ('int ', 'str ', 'bool')]
        p = Project(idx, n, vs)
    elif kind == 'package':
        g = 'pkg_%d' % idx
        imps = r.choice([
            ['from %s.a import D_%d' % (g, idx)],
            ['from %s.a import D_%d' % (g, idx), 'from cfg_%d import K' % idx],
            ['from %s.a import *' % g, 'import cfg_%d' % idx],
            ['from cfg_%d import K' % idx, 'from %s.a import D_%d' % (g, idx)]])
        rel = r.choice(['from .deep import D_%d\n', 'from .deep import *\n',
                        'from %s.deep import D_%%d\n' % g,
                        'from . import deep\nfrom .deep import D_%d\n',
                        'from .mid import D_%d\n'])
        rel = rel % idx if '%d' in rel else rel
        t = main_text(r, idx, imps, use_d, r.random() < 0.4)
        fs = {n: t, g + '/__init__.py': r.choice(['', 'from .deep import D_%d\n' % idx, 'X = 1\n']),
              g + '/a.py': r.choice(['', HEAD]) + rel, 'cfg_%d.py' % idx: 'K = 12\n'}
        if '.mid' in rel:
            fs[g + '/mid.py'] = 'from .deep import D_%d\n' % idx
        vs = [dict(fs, **{g + '/deep.py': plain_lib(r, idx, k)}) for k in (0, 1, 2)]
        if r.random() < 0.5:
            vs = [dict(v, **{n: t.replace('u = d.w', r.choice(['u = d.v', 'u = d.w']))})
                  for v in vs]
        p = Project(idx, n, vs)
    elif kind == 'chain':
        a, b, c = ('%s_%d' % (x, idx) for x in ('ma', 'mb', 'mc'))
        t = main_text(r, idx, ['from %s import D_%d' % (a, idx)], use_d, r.random() < 0.4)
        cyc = 'import %s\n' % a if r.random() < 0.3 else ''
        fs = {n: t, a + '.py': 'from %s import *\n' % b, b + '.py': 'from %s import D_%d\n' % (c, idx)}
        vs = [dict(fs, **{c + '.py': cyc + plain_lib(r, idx, k)}) for k in (0, 1, 2)]
        p = Project(idx, n, vs)
    elif kind == 'basedir':
        g = 'src_%d' % idx
        t = main_text(r, idx, ['from lib_%d import D_%d' % (idx, idx)], use_d, r.random() < 0.4)
        vs = [{g + '/' + n: t, g + '/lib_%d.py' % idx: plain_lib(r, idx, k)} for k in (0, 1, 2)]
        p = Project(idx, g + '/' + n, vs, base_dir=g)
    elif kind == 'optional':
        # needs the second, non-strict type check
        vs = []
        for k in (0, 1):
            q = random.Random(idx)
            vs.append({n: main_text(q, idx, ['from typing import Optional'], '''\
    c = N_%d()
    Assert(c.get() != %d)
''' % (idx, _m(r, k)), False) + '''

class N_%d:
    def __init__(self) -> None:
        Ensures(Acc(self.o))
        Ensures(Acc(self.v))
        self.o = None  # type: Optional['N_%d']
        self.v = 0

    def get(self) -> int:
        Requires(Acc(self.o))
        Requires(Acc(self.v))
        Requires(self.o is not None)
        Requires(Acc(self.o.v))
        Ensures(Result() >= 0)
        t = self.o
        return t.v
''' % (idx, idx)})
        p = Project(idx, n, vs, local=False)
    elif kind in ('corpus', 'union'):
        q = CO.make(r, idx, name=r.choice(CO.UNIONS) if kind == 'union' else None)
        t = q.files[q.name]
        p = Project(idx, q.name, [
            {q.name: t}, {q.name: t + '\n\ndef more_%d(a: int) -> int:\n    return a\n' % idx}],
            local=False)
        p.args = ['--simfuzz=%d' % r.randrange(10 ** 6)]
    else:
        raise ValueError(kind)
    p.shape = kind
    return p


THIRD = ['basedir', 'corpus', 'optional', 'union', 'single', 'basedir', 'corpus', 'helper']


def pool(r, n, base):
    ks = ['package', r.choice(['helper', 'typed', 'chain']), THIRD[base // 10 % len(THIRD)]] + \
        [r.choice(['single', 'optional', 'basedir', 'helper', 'typed', 'chain', 'package', 'corpus'])
         for _ in range(n - 3)]
    return [project(r, base + i, k) for i, k in enumerate(ks[:n])]


# ------------------------------------------------------------------ histories

CRASH = ['crash_before', 'crash_mid', 'crash_after']
DAMAGE = ['trunc0', 'half', 'tail', 'zeros', 'binary', 'text', 'list', 'null', 'empty',
          'delete', 'dir']
HOT = ['builtins', 'typing', 'abc', '__main__', 'contracts', '@plugins', 'types', 'sys']


def disk_faults(r):
    k = r.random()
    nth = r.choice([1, 1, 2, 3, 5, 8, 13, 20, 30, 45, 60])
    if k < 0.25:
        return [dict(site='store.write', nth=0, always=True, kind=r.choice(
            ['full', 'mkdir', 'write', 'replace', 'open'])), dict(site='store.mark', nth=0, always=True)]
    if k < 0.5:
        return [dict(site='store.write', nth=nth, kind=r.choice(
            ['write', 'replace', 'open', 'mkdir']))]
    if k < 0.8:
        return [dict(site='store.read', nth=nth, kind=r.choice(['eio', 'short', 'garbage']))]
    if k < 0.9:
        return [dict(site='store.read', nth=0, always=True, kind=r.choice(['eio', 'short', 'garbage']))]
    return [dict(site='store.stat', nth=nth)]


def a_damage(r):
    d = dict(op='damage', kind=r.choice(DAMAGE), pick=r.randrange(1 << 30),
             store=r.choice([0, 0, 0, 1]), keep=r.random() < 0.75,
             count=r.choice([1, 1, 2, 5, 1000]))
    k = r.random()
    if k < 0.4:
        d['name'] = r.choice(HOT)
    if r.random() < 0.6:
        d['ext'] = r.choice(['.meta.json', '.data.json'])
    if r.random() < 0.06:
        d = dict(op='damage', kind=r.choice(['rmall', 'notdir']), store=d['store'])
    return d


def disk_plan(r, progs):
    p = r.choice(progs)
    vs = p.versions
    cur = r.randrange(len(vs))
    d = dict(scenario='disk', seed=r.randrange(1 << 48), files0=vs[cur], main=p.name,
             config=r.choice([{}, {}, {}, {}, dict(use_viper_server=False),
                              dict(verifier_backend='carbon')]), faults=[])
    if r.random() < 0.08:
        d['cold'] = True
    s = d['script'] = []
    tick = lambda: s.append(dict(op='tick', s=r.choice([0, 1, 1, 3600, 86400, -100]))) \
        if r.random() < 0.5 else None
    where = None
    if not p.local and r.random() < 0.4:
        where = r.choice(['elsewhere', 'else/where'])

    def verify(**kw):
        o = dict(p.op(r), **kw)
        if where and r.random() < 0.6:
            o['cwd'] = where
        elif r.random() < 0.2:
            o['relative'] = True
        s.append(o)
        return o

    def edit():
        nonlocal cur
        new = r.randrange(len(vs))
        s.append(dict(op='write', files={n: t for n, t in vs[new].items()
                                         if vs[cur].get(n) != t}))
        cur = new
    n = r.choice([1, 2, 2, 3])
    verify()
    for i in range(n):
        tick()
        k = r.random()
        if p.shape in ('corpus', 'union') and k < 0.6:
            k = 1.0                     # order of sets
        if k < 0.2:
            edit()
            tick()
            verify()
        elif k < 0.42:
            # a crash while the cache is written, possibly losing what was not flushed
            if r.random() < 0.6:
                edit()
            if r.random() < 0.5:
                s.append(dict(op='damage', kind='rmall', store=0))
            verify(faults=[dict(site='store.write', nth=r.choice(
                [1, 2, 3, 4, 5, 7, 10, 15, 25, 40]), kind=r.choice(CRASH))])
            if r.random() < 0.5:
                s.append(dict(op='damage', kind=r.choice(['trunc0', 'half', 'zeros']), recent=True,
                              pick=r.randrange(1 << 30), count=r.choice([1, 2, 5]), keep=True))
            if r.random() < 0.4:
                edit()
            tick()
            verify()
        elif k < 0.66:
            s.append(a_damage(r))
            if r.random() < 0.4:
                edit()
            verify()
        elif k < 0.84:
            if r.random() < 0.5:
                edit()
            verify(faults=disk_faults(r))
            if r.random() < 0.5:
                verify()
        elif k < 0.93 and not where:
            pe = dict(kind=r.choice(['run', 'run', 'run', 'rm']), pick=r.randrange(1 << 30),
                      ops=r.choice([10, 60, 150]))
            if pe['kind'] == 'run':
                pe['files'] = vs[r.randrange(len(vs))]
            if r.random() < 0.5:
                s.append(dict(op='damage', kind='rmall', store=0))
            verify(peer=pe)
            verify()
        else:
            verify(hashseed=r.randrange(1, 1 << 32), junk=r.randrange(200))
    return d


# ------------------------------------------------------------------ edits meanwhile

def variants(r, p):
    """More versions of the files of a project: what an editor may leave behind."""
    vs = list(p.versions)
    for v in list(vs):
        n = r.choice(sorted(v))
        t = v[n]
        k = r.randrange(8)
        if k == 0:
            t = '# one\n# two\n' * r.randint(1, 9) + t
        elif k == 1:
            t = t[:r.randrange(len(t) + 1)]
        elif k == 2:
            t = t + '\ndef broken(:\n'
        elif k == 3:
            t = t + "\n\ndef extra_%d(a: int) -> int:\n    Assert(a != 1101)\n    return 'a'\n" % p.idx
        elif k == 4:
            t = ''
        elif k == 5:
            t = '# -*- coding: latin-1 -*-\n' + t + '\n# \xe9\n'
        elif k == 6:
            t = t.replace('\n', '\r\n')
        else:
            t = t.replace('x', 'xyz')
        vs.append(dict(v, **{n: t}))
    return vs


def changes(a, b):
    d = {n: t for n, t in b.items() if a.get(n) != t}
    d.update({n: None for n in a if n not in b})
    return d


def edit_plan(r, progs):
    p = r.choice(progs)
    vs = variants(r, p)
    pick = lambda: r.choice(vs) if r.random() < 0.6 else r.choice(p.versions)
    cur = pick()
    d = dict(scenario='edit', seed=r.randrange(1 << 48), files0=cur, main=p.name,
             config=r.choice([{}, {}, dict(use_viper_server=False)]), faults=[],
             policy={'kind': 'serial'}, lines=False, dur=[0.05, 2.0], tick=1e-5, shutdown=False)
    edits, at = [], 0
    for i in range(r.choice([1, 1, 1, 2, 2, 3])):
        at += r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10, 14])
        new = pick()
        ch = changes(cur, new)
        if not ch:
            continue
        k = r.random()
        if k < 0.15 and len(ch) > 1:
            n = r.choice(sorted(ch))
            ch = {n: ch[n]}
        if k > 0.85:
            # written in place: another process may see it empty or half
            half = {n: t[:len(t) // 2] if r.random() < 0.6 else '' for n, t in ch.items() if t}
            edits.append(dict(at=at, files=half, how='torn'))
            cur = dict(cur, **half)
            at += r.choice([1, 1, 2, 4])
        elif k > 0.8:
            n = r.choice(sorted(cur))
            edits.append(dict(at=at, files={n: None}, how='removed'))
            at += r.choice([1, 1, 2, 4])
            ch[n] = new.get(n)
        edits.append(dict(at=at, files=ch, how='replace'))
        cur = dict(cur, **ch)
        cur = {n: t for n, t in cur.items() if t is not None}
    d['edits'] = edits
    ops = []
    for i in range(r.choice([1, 2, 2, 3])):
        ops.append(dict(p.op(r), **({'relative': True} if r.random() < 0.2 else {})))
        if i and r.random() < 0.3:
            new = pick()
            ops.insert(-1, dict(op='write', files=dict(new)))
    d['clients'] = [ops]
    if r.random() < 0.3:
        d['clients'].append([p.op(r) for _ in range(r.choice([1, 2]))])
        d['policy'] = {'kind': 'random', 'p': r.choice([0.02, 0.1, 0.5])}
    return d
