"""The language server over simulated stdio, with one simulated editor."""

import json

from . import engine as E
from . import kernel as K
from . import procs as PR

ARGV = ['nagini_lsp', '--z3', '/sim/z3', '--viper-jar-path', '/sim/viper.jar',
        '--boogie', '/sim/boogie']
METHODS = {'open': 'textDocument/didOpen', 'save': 'textDocument/didSave',
           'command': 'workspace/executeCommand', 'hover': 'textDocument/hover',
           'lens': 'textDocument/codeLens', 'change': 'textDocument/didChange'}


def uri_of(name):
    return 'file://%s/%s' % (E.CWD, name)


def file_of(uri):
    return uri.rsplit('/', 1)[-1]


def norm_lsp(ds):
    """Published diagnostics in comparable form."""
    out = []
    for d in ds:
        r = d['range']
        out.append(json.dumps([r['start']['line'], r['start']['character'], r['end']['line'],
                               r['end']['character'], d['message'], d.get('code'),
                               d.get('severity'), d.get('source')]))
    return sorted(out)


def expected(res):
    """What must be published for a service result (dict, normalised)."""
    out = []
    for x in res['diagnostics']:
        x = json.loads(x)
        m = x['message'] if not x['reason'] else '%s %s' % (x['message'], x['reason'])
        out.append(json.dumps([max(x['startLine'] - 1, 0), max(x['startCol'], 0),
                               max(x['endLine'] - 1, 0), max(x['endCol'], 0), m,
                               x['code'], 1, x['source']]))
    return sorted(out)


class LspScenario(PR.ProcScenario):
    """plan: init (initializationOptions), argv, script=[op...], finish."""

    def drive(self):
        from nagini_translation import lsp_server
        k = self.k
        self.prepare()
        self.ids = {}
        self.answers = {}
        self.n = 0
        self.files = {}
        for p in self.programs:
            self.files.update(p.files)
        self.pipe = PR.StdinPipe(k)
        fr = PR.Frames(self.on_msg, self.on_bad)
        self.frames = fr
        self.spawn('lsp', lsp_server.main, ARGV + self.plan.get('argv', []),
                   stdin=self.pipe, parser=fr)
        self.request('initialize', dict(
            processId=None, rootUri=None, capabilities={},
            initializationOptions=self.plan.get('init')), wait=200.0)
        self.notify('initialized', {})
        for i, op in enumerate(self.plan['script']):
            self.do(i, op)
            if self.exited('lsp'):
                break
        k.log('script_done')
        k.sleep(self.plan.get('settle', 400.0))
        k.log('settled')
        for f in sorted(self.opened):
            for line in self.plan.get('hover_lines', {}).get(f, ()):
                self.request('textDocument/hover', dict(
                    textDocument={'uri': uri_of(f)},
                    position={'line': line, 'character': 0}), wait=100.0, final=True)
        self.w.enabled = False
        how = self.plan.get('finish', 'exit')
        k.log('finish', how=how)
        if how == 'exit':
            self.request('shutdown', None, wait=100.0)
            self.notify('exit', None)
            k.sleep(0.01)
        self.pipe.pipe.end()
        self.wait_exit('lsp', 400.0)

    opened = frozenset()

    # -- messages

    def on_msg(self, m):
        k = self.k
        if 'method' in m:
            if m['method'] == 'textDocument/publishDiagnostics':
                k.log('publish', file=file_of(m['params']['uri']), uri=m['params']['uri'],
                      diags=norm_lsp(m['params']['diagnostics']))
            elif m['method'] == 'window/logMessage':
                import re
                k.log('logmsg', type=m['params']['type'],
                      text=re.sub(r'[0-9.]+s$', 'Ns', m['params']['message'])[:200])
            elif m['method'] == 'window/showMessage':
                k.log('showmsg', type=m['params']['type'], text=m['params']['message'][:200])
            else:
                k.log('s2c', method=m['method'])
        else:
            i = m.get('id')
            self.answers.setdefault(i, []).append(m)
            k.log('response', id=i, error=(m.get('error') or {}).get('code'),
                  res=json.dumps(m.get('result'), sort_keys=True)[:3000]
                  if self.ids.get(i) != 'initialize' else '...')

    def on_bad(self, b):
        self.k.log('garbage', data=repr(b))

    def send(self, m):
        m['jsonrpc'] = '2.0'
        b = json.dumps(m).encode()
        self.raw(b'Content-Length: %d\r\n\r\n' % len(b) + b)

    def raw(self, b):
        cut = self.plan.get('chunks')
        if cut:
            for i in range(0, len(b), cut):
                self.pipe.pipe.feed(b[i:i + cut])
                self.k.site('feed')
        else:
            self.pipe.pipe.feed(b)
            self.k.site('feed')

    def notify(self, method, params):
        m = dict(method=method)
        if params is not None:
            m['params'] = params
        self.send(m)

    def request(self, method, params, wait=None, final=False, **kw):
        self.n += 1
        i = self.n
        self.ids[i] = method
        m = dict(id=i, method=method)
        if params is not None:
            m['params'] = params
        self.k.log('request', id=i, method=method, final=final, params=json.dumps(
            params, sort_keys=True, default=str)[:300] if method != 'initialize' else '', **kw)
        self.send(m)
        if wait is not None:
            if not self.k.block(lambda: i in self.answers or self.exited('lsp'), wait,
                                'response'):
                self.k.log('no_answer', id=i, method=method)
        return i

    # -- script operations

    def do(self, i, op):
        k, o = self.k, op['op']
        f = op.get('file')
        if o == 'sleep':
            return k.sleep(op['s'])
        if o == 'until':
            k.block(lambda: sum(h[3] == op['kind'] and all(
                h[4].get(a) == b for a, b in op.get('where', {}).items())
                for h in k.history) >= op.get('n', 1) or self.exited('lsp'),
                op.get('s', 30.0), 'until')
            return
        if o == 'write':
            E.write_files(op['files'])
            self.files.update(op['files'])
            k.log('wrote', files=dict(op['files']))
            return
        if o in ('open', 'save', 'command'):
            k.log('run', i=i, file=f, how=o, selected=op.get('selected'),
                  text=self.files.get(f))
        if o == 'open':
            self.opened = self.opened | {f}
            self.notify(METHODS[o], dict(textDocument=dict(
                uri=uri_of(f), languageId='python', version=1, text=self.files.get(f, ''))))
        elif o == 'save':
            self.notify(METHODS[o], dict(textDocument=dict(uri=uri_of(f))))
        elif o == 'command':
            self.request(METHODS[o], dict(command='nagini.verifyMethod',
                                          arguments=[uri_of(f), op['selected']]), run=i)
        elif o == 'hover':
            self.request(METHODS[o], dict(textDocument={'uri': uri_of(f)}, position=dict(
                line=op.get('line', 3), character=op.get('col', 5))))
        elif o == 'lens':
            self.request(METHODS[o], dict(textDocument={'uri': uri_of(f)}))
        elif o == 'cancelrequest':
            if self.n:
                ks = [a for a, b in self.ids.items() if b == METHODS['command']]
                if ks:
                    k.log('cancelrequest', id=ks[-1])
                    self.notify('$/cancelRequest', {'id': ks[-1]})
        elif o == 'bad':
            k.log('bad', data=op['data'][:60])
            self.raw(op['data'].encode())
        elif o == 'shutdown':
            self.request('shutdown', None)

    def extra(self):
        out = self.stdout._m.get('lsp')
        return dict(garbage=self.frames.bad, partial=not self.frames.finish(),
                    foreign=out.foreign_data[:3], nout=len(out.data),
                    stderr=self.err.tail[-3000:])
