"""Workloads for the tool server."""

import random

from . import plans as P
from . import programs as PG

SLOTS = 5


def text(r, idx, k):
    """Snippets as agents write them: also odd ones."""
    p = PG.make(r, idx, 'ok', [r.choice(P.FAIL)] if r.random() < 0.7 else [], pieces=0)
    t = p.files[p.name]
    if k == 'crlf':
        t = t.replace('\n', '\r\n')
    elif k == 'unicode':
        t = t.replace(PG.HEAD, PG.HEAD + '# \u00fc\u4e2d\U0001f600\n', 1)
        p.markers = [(m, f, l + 1, x) for m, f, l, x in p.markers]
    elif k == 'nonl':
        t = t.rstrip('\n')
    elif k == 'tabs':
        t = t.replace('    ', '\t')
    elif k == 'cookie':
        t = '# -*- coding: utf-8 -*-\n# caf\u00e9\n' + t
        p.markers = [(m, f, l + 2, x) for m, f, l, x in p.markers]
    p.files[p.name] = t
    return p


def pool(r, n=6, base_idx=0):
    """Two files, three snippets (one odd), one of them rejected."""
    out = []
    for i in range(n):
        idx = base_idx + i
        if i < 2:
            p = PG.make(r, idx, 'ok', r.sample(P.FAIL, 1), pieces=0, oblig=i == 0)
            p.snippet = False
        elif i == 2:
            p = text(r, idx, r.choice(['crlf', 'unicode', 'unicode', 'nonl', 'tabs', 'cookie']))
        elif i == 3:
            p = PG.make(r, idx, r.choice(['type', 'syntax', 'invalid']), [11], pieces=0)
        elif i == 4:
            p = PG.make(r, idx, 'ok', [], pieces=1)
        else:
            p = text(r, idx, None)
        p.snippet = i >= 2
        out.append(p)
    return out


def warm_places(p):
    """Where a snippet's text may have to be type checked."""
    if getattr(p, 'snippet', False):
        for s in range(SLOTS):
            yield 'tmp/nagini_mcp_s%d' % s, 'snippet.py'


def call(r, progs, snip=0.6, rich=0.3, tokens=('a', 'b')):
    p = r.choice([x for x in progs if x.snippet == (r.random() < snip)] or progs)
    v = random.Random('mcp/%s/%s' % (p.sig, p.name))
    args, opts = {}, {}
    if r.random() < rich:
        k = v.random()
        if k < 0.4 or p.snippet and k < 0.6:
            opts['counterexample'] = True
        elif k < 0.7:
            opts['viper_args'] = [v.choice(['--simfail', '--simlow'])]
        else:
            opts['ignore_global'] = True
    if r.random() < 0.2:
        opts['include_viper'] = True
    if r.random() < 0.3:
        opts['job_token'] = r.choice(tokens)
    if p.snippet:
        return dict(op='call', tool='verify_snippet', args=dict(opts, code=p.name),
                    prog=p.name)
    if p.methods and r.random() < 0.4:
        m = v.choice(p.methods)
        if r.random() < 0.5:
            opts.pop('ignore_global', None)
            return dict(op='call', tool='verify_method', args=dict(opts, path=p.name, method=m))
        return dict(op='call', tool='verify_file', args=dict(opts, path=p.name, method=m))
    return dict(op='call', tool='verify_file', args=dict(opts, path=p.name))


def pair(r, progs, snip):
    a = call(r, progs, snip, rich=0.0)
    a['args'] = {k: x for k, x in a['args'].items() if k in ('path', 'code', 'method')}
    b = dict(a, args=dict(a['args']))
    k = r.choice(['counterexample', 'counterexample', 'viper_args', 'viper_args', 'method',
                  'include_viper', 'job_token', 'path'])
    if k == 'counterexample' or k == 'include_viper':
        b['args'][k] = True
    elif k == 'viper_args':
        b['args'][k] = ['--simfail']
    elif k == 'job_token':
        b['args'][k] = 'b'
    elif k == 'method' and a['tool'] == 'verify_method':
        b = dict(a, tool='verify_file', args=dict(path=a['args']['path']))
    elif k == 'path' and 'path' in a['args']:
        p = r.choice([x for x in progs if not x.snippet])
        b = dict(a, tool='verify_file', args=dict(path=p.name), prog=p.name)
    two = [a, b]
    r.shuffle(two)
    return two


def other(r):
    k = r.random()
    if k < 0.3:
        return dict(op='call', tool='cancel', args=r.choice([{}, {'job_token': 'a'},
                                                             {'job_token': 'nobody'}]))
    if k < 0.45:
        return dict(op='call', tool='flush_cache', args={})
    if k < 0.6:
        return dict(op='request', method='ping')
    if k < 0.75:
        return dict(op='request', method='tools/list', params={})
    if k < 0.85:
        return dict(op='call', tool='configure', args=dict(options={}))
    return dict(op='request', method='ping')


def wait(r, p=None):
    k = r.random()
    if k < 0.5:
        return dict(op='until', kind=r.choice(['typecheck', 'server.verify', 'job.done',
                                               'response']), where={}, n=r.randint(1, 4), s=40.0)
    return P.stagger(r)


CONFIGS = [{'intBitopsSize': 16}, {'intBitopsSize': 8}, {'verifier': 'carbon'},
           {'verifier': 'silicon'}, {'floatEncoding': 'real'}, {'disableBranchConditions': True},
           {'useViperServer': False}, {'useViperServer': True}, {'intBitopsSize': None, 'x': 1}]


BAD = ['{', '[]', 'null', '{"jsonrpc": "2.0"}', '{"jsonrpc": "2.0", "id": 77}', 'x' * 300,
       '{"jsonrpc": "2.0", "method": 5}', '\u00fc\U0001f600', '{"a": "\\ud800"}',
       '{"jsonrpc": "2.0", "method": "no/such/notification"}', '', '   ']


def bad(r):
    """Input no well-behaved agent sends."""
    k = r.random()
    if k < 0.4:
        return dict(op='bad', data=r.choice(BAD))
    if k < 0.6:
        return dict(op='request', method='no/such')
    t, a = r.choice([('no_such_tool', {}), ('verify_file', {}), ('verify_file', {'path': 7}),
                     ('verify_method', {'path': 'x'}), ('configure', {'options': 'x'}),
                     ('configure', {'options': {'intBitopsSize': 'many'}}),
                     ('verify_snippet', {'code': ['x']}), ('configure', {})])
    return dict(op='badcall', tool=t, args=a)


def mcp_plan(r, progs, n=(2, 5), snip=0.6, others=0.3, configs=0.0, cancels=0.15):
    d = P.base(r, scenario='mcp')
    ops = []
    for _ in range(r.randint(*n)):
        if r.random() < 0.25:
            # the same thing at the same time, in different ways
            ops += pair(r, progs, snip)
            continue
        ops.append(call(r, progs, snip))
        if r.random() < 0.5:
            ops.append(wait(r))
        if r.random() < others:
            ops.append(other(r))
        if r.random() < cancels:
            ops.append(dict(op='cancelrequest', which=r.randint(0, 3)))
        if r.random() < configs:
            ops.append(dict(op='call', tool='configure', args=dict(options=r.choice(CONFIGS))))
            ops.append(dict(op='answered', s=400.0))
    d['script'] = ops
    d['settle'] = 600.0
    if r.random() < 0.15:
        d['chunks'] = r.choice([7, 60, 400])
    if r.random() < 0.1:
        d['argv'] = ['--log', 'DEBUG']
    d['policy'] = P.policy(r, 9000 * len(ops))
    return d
