"""The tool server over simulated stdio, with one simulated agent."""

import builtins
import errno
import io
import json
import os
import tempfile

from . import engine as E
from . import kernel as K
from . import hooks
from . import procs as PR

ARGV = ['nagini_mcp', '--z3', '/sim/z3', '--viper-jar-path', '/sim/viper.jar',
        '--boogie', '/sim/boogie']
TMP = E.CWD + '/tmp'
real_open = builtins.open


def slots(n=400):
    i = 0
    while True:
        yield 's%d' % i
        i += 1


class Files:
    """builtins.open for the private places of snippets: logged, may fail."""

    def __init__(self, scen, locale=None):
        self.scen, self.locale = scen, locale
        self.written = set()

    def mine(self, p):
        return isinstance(p, str) and p.startswith(TMP + '/')

    def __call__(self, file, mode='r', buffering=-1, encoding=None, *a, **kw):
        if K.KERNEL is None or K.KERNEL.cur.proc == 'driver' or not self.mine(file):
            return real_open(file, mode, buffering, encoding, *a, **kw)
        k = K.KERNEL
        if 'w' in mode or 'a' in mode or 'x' in mode:
            if hooks.fault('tmp.open'):
                raise OSError(errno.EMFILE, 'Too many open files', file)
            if self.locale and encoding is None and 'b' not in mode:
                encoding = self.locale
            f = real_open(file, mode, buffering, encoding, *a, **kw)
            self.written.add(file)
            k.site('tmp.write')
            if hooks.fault('tmp.full'):
                return Full(f)
            return f
        k.site('tmp.read')
        try:
            return real_open(file, mode, buffering, encoding, *a, **kw)
        except FileNotFoundError:
            if file in self.written:
                k.log('missing', path=file)
            raise


class Full:
    """A file on a full disk: writing fails, part of the data is there."""

    def __init__(self, f):
        self.f = f

    def write(self, s):
        self.f.write(s[:len(s) // 2])
        raise OSError(errno.ENOSPC, 'No space left on device')

    def __getattr__(self, n):
        return getattr(self.f, n)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()


class McpScenario(PR.ProcScenario):
    """plan: argv, script=[op...], finish."""

    def setup_fs(self):
        super().setup_fs()
        tempfile._name_sequence = slots()

    def drive(self):
        from nagini_translation import mcp_server
        k = self.k
        self.prepare()
        self.ids = {}
        self.answers = {}
        self.n = 0
        self.pipe = PR.StdinPipe(k)
        self.frames = PR.Lines(self.on_msg, self.on_bad)
        self.w.watch = self.watch
        self.before = set(os.listdir('tmp'))
        builtins.open = Files(self, self.plan.get('locale'))
        mk = os.mkdir

        def mkdir(p, *a, **kw):
            if isinstance(p, str) and p.startswith(TMP + '/') and hooks.fault('tmp.mkdir'):
                raise OSError(errno.ENOSPC, 'No space left on device', p)
            return mk(p, *a, **kw)
        os.mkdir = mkdir
        self.spawn('mcp', mcp_server.main, ARGV + self.plan.get('argv', []),
                   stdin=self.pipe, parser=self.frames)
        self.request('initialize', dict(protocolVersion='2024-11-05', capabilities={},
                                        clientInfo=dict(name='a', version='1')), wait=400.0)
        self.notify('notifications/initialized')
        for i, op in enumerate(self.plan['script']):
            self.do(i, op)
            if self.exited('mcp'):
                break
        k.log('script_done')
        k.sleep(self.plan.get('settle', 400.0))
        k.log('settled', tmp=self.leftovers())
        self.w.enabled = False
        k.log('faults_off')
        for i, op in enumerate(self.plan.get('epilogue', ())):
            self.do(1000 + i, op)
            if self.exited('mcp'):
                break
            if 'id' in op or op['op'] == 'call':
                n = self.n
                k.block(lambda: n in self.answers or self.exited('mcp'), 300.0, 'response')
        k.sleep(1.0)
        k.log('finish', tmp=self.leftovers())
        self.pipe.pipe.end()
        self.wait_exit('mcp', 400.0)
        k.log('ended', tmp=self.leftovers())

    def leftovers(self):
        return sorted(set(os.listdir('tmp')) - self.before)

    def watch(self, path):
        """What the verifier finds at a snippet's place right now."""
        if not isinstance(path, str) or not path.startswith(TMP):
            return {}
        try:
            with real_open(path, 'rb') as f:
                return dict(path=path, sha=E.digest(f.read().decode('utf-8', 'replace')))
        except OSError:
            return dict(path=path, sha=None)

    # -- messages

    def on_msg(self, m):
        k = self.k
        if 'method' in m:
            k.log('s2c', method=m['method'])
            return
        i = m.get('id')
        self.answers.setdefault(i, []).append(m)
        r = m.get('result')
        kw = dict(id=i, error=(m.get('error') or {}).get('code'))
        if m.get('error'):
            kw['text'] = str(m['error'].get('message'))[:200]
        if isinstance(r, dict) and 'content' in r:
            kw['isError'] = bool(r.get('isError'))
            t = ''.join(c.get('text', '') for c in r['content'])
            try:
                d = json.loads(t)
            except ValueError:
                d = t[:300]
            if isinstance(d, dict) and 'diagnostics' in d:
                kw['viper'] = 'viperProgram' in d and d['viperProgram'] is not None
                d = E.norm_result(d)
            kw['res'] = d
        else:
            kw['res'] = None if self.ids.get(i) == 'initialize' else str(r)[:300]
        k.log('response', **kw)

    def on_bad(self, b):
        self.k.log('garbage', data=repr(b))

    def send(self, m):
        m['jsonrpc'] = '2.0'
        self.raw(json.dumps(m).encode() + b'\n')

    def raw(self, b):
        cut = self.plan.get('chunks')
        for i in range(0, len(b), cut or len(b)):
            self.pipe.pipe.feed(b[i:i + (cut or len(b))])
            self.k.site('feed')

    def notify(self, method, params=None):
        m = dict(method=method)
        if params is not None:
            m['params'] = params
        self.send(m)

    def request(self, method, params, wait=None, **kw):
        self.n += 1
        i = self.n
        self.ids[i] = method
        m = dict(id=i, method=method)
        if params is not None:
            m['params'] = params
        self.k.log('request', id=i, method=method, **kw)
        self.send(m)
        if wait is not None:
            if not self.k.block(lambda: i in self.answers or self.exited('mcp'), wait,
                                'response'):
                self.k.log('no_answer', id=i, method=method)
        return i

    def do(self, i, op):
        k, o = self.k, op['op']
        if o == 'sleep':
            return k.sleep(op['s'])
        if o == 'until':
            k.block(lambda: sum(h[3] == op['kind'] and all(
                h[4].get(a) == b for a, b in op.get('where', {}).items())
                for h in k.history) >= op.get('n', 1) or self.exited('mcp'),
                op.get('s', 30.0), 'until')
            return
        if o == 'call':
            args = dict(op['args'])
            if 'code' in args:
                args['code'] = next(p for p in self.programs if p.name == op['prog']).files[op['prog']]
            if 'path' in args:
                args['path'] = '%s/%s' % (E.CWD, args['path'])
            self.request('tools/call', dict(name=op['tool'], arguments=args), tool=op['tool'],
                         args=op['args'], prog=op.get('prog'), i=i)
        elif o == 'badcall':
            self.request('tools/call', dict(name=op['tool'], arguments=op['args']),
                         bad=op['tool'], i=i)
        elif o == 'answered':
            n = self.n
            k.block(lambda: n in self.answers or self.exited('mcp'), op['s'], 'response')
        elif o == 'request':
            self.request(op['method'], op.get('params'), i=i)
        elif o == 'cancelrequest':
            ks = [a for a, b in self.ids.items() if b == 'tools/call' and a not in self.answers]
            if ks:
                a = ks[op.get('which', 0) % len(ks)]
                k.log('cancelrequest', id=a)
                self.notify('notifications/cancelled', dict(requestId=a, reason='x'))
        elif o == 'bad':
            k.log('bad', data=op['data'][:60])
            self.raw(op['data'].encode() + b'\n')

    def extra(self):
        builtins.open = real_open
        out = self.stdout._m.get('mcp')
        return dict(garbage=self.frames.bad, partial=not self.frames.finish(),
                    foreign=out.foreign_data[:3], nout=len(out.data),
                    stderr=self.err.tail[-3000:])
