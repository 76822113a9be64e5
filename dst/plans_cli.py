"""Workloads for the command line and the socket server."""

import json

from . import plans as P
from . import programs as PG


def pool(r, n=8, base_idx=0):
    out = P.pool_mixed(r, n, base_idx, odd=2)
    out[4 % n] = PG.make(r, base_idx + 4 % n, 'ok', [], pieces=1)
    out[3 % n] = PG.make(r, base_idx + 3 % n, 'ok', [16], oblig=True, pieces=0)
    return out


BAD_ARGV = [['--verifier', 'nothing'], ['--verifier', 'carbon', '--counterexample'],
            ['--ignore-obligations', '--force-obligations'], ['--float-encoding', 'x'],
            ['--sif', 'x'], ['--no-such-option'], ['--int-bitops-size', 'many']]


def argv(r, p, rich=0.5):
    a = []
    if r.random() < 0.55:
        a.append('--viper-server')
    if r.random() < rich:
        v = P.random.Random('cli/%s/%s' % (p.sig, p.name))
        k = v.random()
        if p.methods and k < 0.35:
            a += ['--select', ','.join(sorted(v.sample(p.methods, v.randint(1, min(2, len(p.methods))))))]
        elif k < 0.55:
            a.append('--counterexample')
        elif k < 0.7:
            a.append('--viper-arg=' + v.choice(['--simfail', '--simlow']))
        elif k < 0.8:
            a.append('--ignore-global')
    if '--counterexample' not in a and r.random() < 0.15:
        a += ['--verifier', 'carbon']
    if r.random() < 0.1:
        a += ['--int-bitops-size', '16']
    if r.random() < 0.1:
        a += ['--float-encoding', r.choice(['real', 'ieee32'])]
    if r.random() < 0.1:
        a.append('--disable-branch-conditions')
    return a


def cli_plan(r, progs):
    d = P.base(r, scenario='cli')
    p = r.choice(progs)
    d['file'] = p.name
    a = argv(r, p)
    k = r.random()
    if k < 0.12:
        a.append('--skip-verification')
    elif k < 0.2:
        a += ['--benchmark', str(r.randint(1, 2))]
        if '--disable-branch-conditions' not in a:
            a.append('--disable-branch-conditions')
        d['loose'] = True
    elif k < 0.25:
        a.append('--sif=true')
        if '--counterexample' in a:
            a.remove('--counterexample')
    if r.random() < 0.15:
        a.append('--ide-mode')
    if r.random() < 0.1:
        a.append('-v')
    if r.random() < 0.1:
        a.append('--print-viper')
        d['loose'] = True
    k = r.random()
    if k < 0.06:
        a += ['--write-viper-to-file', 'tmp/out.vpr']
    elif k < 0.12:
        a += ['--write-viper-to-file', 'no/such/place.vpr']
        d['loose'] = True
    elif k < 0.16:
        a.append('--extraction')
        d['loose'] = True
    elif k < 0.2:
        a.append(r.choice(['--ignore-obligations', '--force-obligations']))
        if p.oblig:
            d['loose'] = True
    if r.random() < 0.05:
        a = r.choice(BAD_ARGV)
        d['invalid'] = True
    d['argv'] = a
    server = '--viper-server' in a
    if r.random() < 0.6:
        k = r.random()
        if k < 0.5:
            d['faults'] = P.some_faults(r, [p], P.PRE_FAULTS + (
                P.RUN_FAULTS if server else P.DIRECT_FAULTS), (1, 2))
            for f in d['faults']:
                f['nth'] = 1 if f['site'] != 'ast.oom' else f['nth']
        elif k < 0.6:
            d['faults'] = [dict(site='stdout.epipe', nth=r.randint(1, 3))]
        elif k < 0.75:
            d['faults'] = [dict(site='sigint', nth=r.randint(1, 3 if server else 1))]
        elif k < 0.85:
            d['faults'] = [dict(site=r.choice(['jvm.path', 'jvm.start', 'sil.parse']), nth=1)]
        else:
            d['faults'] = []
        if server and r.random() < 0.4:
            d['faults'].append(dict(site=r.choice(['server.start', 'server.stop']), nth=1,
                                    kind=r.choice(['fail', 'hang'])))
            if d['faults'][-1]['site'] == 'server.start' and r.random() < 0.5:
                d['faults'] += P.some_faults(r, [p], P.DIRECT_FAULTS, (1, 1))
    d['policy'] = P.policy(r, 3000)
    d['policy'].pop('delays', None)
    return d


RAW = ['', '{', '[]', '7', 'null', '"x"', '{}', '{"file": null}', '{"file": 7}',
       '{"file": ["a"]}', '{"file": ""}', '{"file": "$CWD"}', '{"select": "f"}',
       '{"file": "$CWD/p0.py", "select": 5}', '{"file": "$CWD/p0.py", "select": ["f"]}',
       '\xff\xfe\x00', '{"file": "\\ud800.py"}', '{"file": "a\\u0000b.py"}', '\x00', 'no/such/file.py',
       '[' * 3000, '{"file": "' + 'x' * 5000 + '"}',
       '{"file": "$CWD/missing.py", "select": "a"}', '{"a": 1}', '\xc3\xbc.py', ' ', '\n']


def zmq_plan(r, progs):
    d = P.base(r, scenario='zmq')
    ops = []
    good = [p for p in progs if p.kind != 'odd']

    def client(p):
        if p.methods and r.random() < 0.35:
            return dict(op='client', file=p.name, select=','.join(
                sorted(P.random.Random(p.sig).sample(p.methods, 1))))
        if r.random() < 0.15:
            return dict(op='raw', data='$CWD/' + p.name, valid=[p.name, None])
        return dict(op='client', file=p.name)
    for _ in range(r.randint(2, 6)):
        k = r.random()
        if k < 0.6:
            ops.append(client(r.choice(progs)))
        elif k < 0.9:
            ops.append(dict(op='raw', data=r.choice(RAW)))
        else:
            p = r.choice(good)
            ops.append(dict(op='gone', data='$CWD/' + p.name, s=P.loguni(r, 1e-3, 3.0)))
        k = r.random()
        if k < 0.3:
            ops.append(P.stagger(r))
        elif k < 0.5:
            ops.append(dict(op='wait'))
    d['script'] = ops
    a = []
    if r.random() < 0.5:
        a.append('--viper-server')
    if r.random() < 0.15:
        a += ['--verifier', 'carbon']
    if r.random() < 0.1:
        a += ['--int-bitops-size', '16']
    if r.random() < 0.15:
        a.append('--ide-mode')
    if r.random() < 0.1:
        a.append('-v')
    d['argv'] = a
    server = '--viper-server' in a
    if r.random() < 0.6:
        d['faults'] = P.some_faults(r, progs, P.PRE_FAULTS + (
            P.RUN_FAULTS if server else P.DIRECT_FAULTS), (1, 3))
        if server and r.random() < 0.3:
            d['faults'].append(dict(site='server.start', nth=1, kind=r.choice(['fail', 'hang'])))
    d['epilogue'] = [client(r.choice(good)) for _ in range(2)]
    d['policy'] = P.policy(r, 3000 * len(ops))
    d['policy'].pop('delays', None)
    return d
