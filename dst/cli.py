"""The command line, and the socket server with its clients."""

import re

from . import engine as E
from . import procs as PR

ARGV = ['nagini', '--viper-jar-path', '/sim/viper.jar', '--z3', '/sim/z3',
        '--boogie', '/sim/boogie']


def norm_text(t):
    """Printed text without durations."""
    t = re.sub(r'Verification took [0-9.]+ seconds', 'Verification took N seconds', t)
    return t.replace(E.CWD + '/', '')


class CliScenario(PR.ProcScenario):
    """plan: argv, file.  One run of the command line."""

    def drive(self):
        from nagini_translation import main as M
        k = self.k
        self.prepare()
        f = self.plan['file']
        argv = ARGV + list(self.plan.get('argv', ()))
        self.spawn('cli', M.main, argv + ['%s/%s' % (E.CWD, f) if self.plan.get('abs', True)
                                          else f])
        ended = self.wait_exit('cli', self.plan.get('bound', 2000.0))
        out = self.stdout._m['cli']
        k.log('ended', ended=ended, out=norm_text(bytes(out.data).decode('utf-8', 'replace')))

    def extra(self):
        return dict(stderr=self.err.tail[-3000:])


class ZmqScenario(PR.ProcScenario):
    """plan: argv, script.  The socket server and a number of clients."""

    def drive(self):
        from nagini_translation import main as M
        from . import fakezmq
        k = self.k
        fakezmq.reset()
        self.prepare()
        self.spawn('server', M.main, ARGV + ['--server'] + list(self.plan.get('argv', ()))
                   + ['unused.py'])
        self.pending = []
        for i, op in enumerate(self.plan['script']):
            self.do(i, op)
        self.settle(3000.0)
        self.w.enabled = False
        k.log('faults_off')
        for i, op in enumerate(self.plan.get('epilogue', ())):
            self.do(1000 + i, op)
            self.settle(1000.0)
        k.log('finish')

    def settle(self, s):
        self.k.block(lambda: not any(self.k.alive(t) for t in self.pending)
                     or self.exited('server'), s, 'clients')

    def do(self, i, op):
        k, o = self.k, op['op']
        if o == 'sleep':
            k.sleep(op['s'])
        elif o == 'wait':
            self.settle(op.get('s', 100.0))
        elif o == 'client':
            from nagini_translation import client
            name = 'c%d' % i
            argv = ['nagini_client'] + (['--select', op['select']] if op.get('select') else []) \
                + ['%s/%s' % (E.CWD, op['file'])]
            k.log('creq', id=i, file=op['file'], select=op.get('select'))

            def run():
                client.main()
                out = self.stdout._m[name]
                out.flush()
                k.log('creply', id=i, out=norm_text(bytes(out.data).decode('utf-8', 'replace')))
            self.pending.append(self.spawn(name, run, argv))
        elif o in ('raw', 'gone'):
            data = op['data'].replace('$CWD', E.CWD).encode('latin1')
            k.log('creq', id=i, raw=op['data'][:80], gone=o == 'gone', valid=op.get('valid'))

            def run():
                import zmq
                s = zmq.Context().socket(zmq.REQ)
                s.connect('tcp://localhost:5555')
                s.send(data)
                if o == 'gone':
                    k.sleep(op.get('s', 0.01))
                    s.close()
                    return
                r = s.recv()
                k.log('creply', id=i, out=norm_text(r.decode('utf-8', 'replace')))
            self.pending.append(k.start_thread(run, name='raw%d' % i, proc='raw%d' % i))

    def extra(self):
        return dict(stderr=self.err.tail[-3000:])
