"""Service-level scenario: caller threads around one VerificationService."""

import json
import os
import traceback

from . import engine as E
from . import kernel as K
from . import world as W

BASE_CFG = dict(verifier_backend='silicon', sif=False, float_encoding=None,
                int_bitops_size=8, use_viper_server=True,
                disable_branch_conditions=False, z3_path='/sim/z3',
                boogie_path='/sim/boogie')


def policy_of(plan):
    if 'trace' in plan:
        return K.Replay(plan['trace'])
    return K.Policy(plan.get('seed', 0), **plan.get('policy', {'kind': 'serial'}))


class Scenario:
    """Common frame: driver thread, clients, history, result report."""

    def __init__(self, plan, programs, hot=()):
        self.plan = plan
        self.programs = programs
        self.hot = hot

    def setup_fs(self):
        for p in self.programs:
            E.write_files(p.files)

    def run(self):
        plan = self.plan
        E.seed_process(plan.get('seed', 0))
        self.setup_fs()
        self.fd_capture()
        import logging
        logging.disable(logging.CRITICAL)
        if plan.get('lines', True) and self.hot:
            K.line_sites(self.hot)
        pol = policy_of(plan)
        self.k, self.w = W.start(plan, pol)
        rep = {'stuck': None}
        try:
            self.drive()
        except (K.SimStuck, K.SimLimit) as e:
            rep['stuck'] = [type(e).__name__, str(e), getattr(e, 'blocked', [])]
        k = self.k
        K.set_kernel(None)
        from . import hooks
        hooks.WORLD = hooks.AST = None
        rep.update(history=k.history, steps=k.steps, switches=k.switches,
                   now=k.now, trace=k.trace, fired=self.w.fired,
                   threads=len(k.threads), sched=k.sched_hash,
                   exit_codes=k.exit_codes, sites=dict(
                       (n, c) for n, c in self.w.n.items() if isinstance(n, str)),
                   executors=[e.alive for e in self.w.executors],
                   servers=[s.running for s in self.w.servers],
                   fd1=self.fd_read())
        rep.update(self.extra())
        return rep

    def fd_capture(self):
        """Anything written to file descriptors 1 and 2 lands in files."""
        self.fdfile = os.open('fd1.out', os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        os.dup2(self.fdfile, 1)
        err = os.open('fd2.out', os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        if not os.environ.get('DST_DEBUG'):
            os.dup2(err, 2)

    def fd_read(self):
        import sys
        try:
            sys.__stdout__.flush()
        except Exception:
            pass
        with open('fd1.out', 'rb') as f:
            return f.read(2000)

    def extra(self):
        return {}

    def join(self, ts, what='clients'):
        self.k.block(lambda: not any(self.k.alive(t) for t in ts), None, what)


class ServiceScenario(Scenario):
    """plan: config, clients=[[op...]...], epilogue=[op...], shutdown=bool."""

    def drive(self):
        from nagini_translation.service import VerificationService
        k = self.k
        self.svc = None
        cfg = dict(BASE_CFG)
        cfg.update(self.plan.get('config', {}))
        k.log('construct', cfg=cfg)
        try:
            self.svc = VerificationService(viper_jar_path='/sim/viper.jar', **cfg)
        except K.SimStuck:
            raise
        except Exception as e:
            k.log('construct_failed', exc=repr(e))
            return
        k.log('constructed')
        ts = []
        for c, ops in enumerate(self.plan['clients']):
            ts.append(k.start_thread(self.client, (c, ops), name='client%d' % c))
        self.join(ts)
        k.log('faults_off')
        self.w.enabled = False
        self.client('e', self.plan.get('epilogue', ()))
        if self.plan.get('shutdown', True):
            self.call('e', 'x', {'op': 'shutdown'})

    def client(self, c, ops):
        for i, op in enumerate(ops):
            if op['op'] == 'sleep':
                self.k.sleep(op['s'])
            elif op['op'] == 'write':
                E.write_files(op['files'])
                self.k.log('wrote', files=sorted(op['files']))
            elif op['op'] == 'mark':
                self.k.log('mark')
            elif op['op'] == 'until':
                self.until(op)
            else:
                self.call(c, i, op)

    def until(self, op):
        """Wait (bounded) for an event in the history."""
        k = self.k
        n = len(k.history)
        k.block(lambda: any(h[3] == op['kind'] and all(
            h[4].get(a) == b for a, b in op.get('where', {}).items())
            for h in k.history), op.get('s', 30.0), 'until')

    def call(self, c, i, op):
        k = self.k
        rid = '%s.%s' % (c, i)
        k.log('invoke', id=rid, op=op['op'], arg={a: b for a, b in op.items() if a != 'op'})
        try:
            v = getattr(self, 'do_' + op['op'])(op)
        except K.SimStuck:
            raise
        except (Exception, SystemExit) as e:
            tb = traceback.extract_tb(e.__traceback__)
            k.log('raised', id=rid, exc='%s: %s' % (type(e).__name__, str(e)[:200]),
                  at='%s:%s' % (W.short(tb[-1].filename), tb[-1].name))
        else:
            k.log('return', id=rid, res=v)

    def do_verify(self, op):
        kw = {}
        for a in ('base_dir', 'arp', 'counterexample', 'ignore_global', 'include_viper'):
            if a in op:
                kw[a] = op[a]
        if op.get('selected'):
            kw['selected'] = set(op['selected'])
        if op.get('viper_args'):
            kw['viper_args'] = list(op['viper_args'])
        if op.get('token') is not None:
            kw['job_token'] = op['token']
        r = self.svc.verify('%s/%s' % (E.CWD, op['file']), **kw)
        d = r.to_dict()
        vp = d.get('viperProgram')
        out = E.norm_result(d)
        out['hasViper'] = vp is not None
        if vp is not None:
            out['viperSig'] = str(op.get('sig')) in vp
        return out

    def do_cancel(self, op):
        self.svc.cancel(job_token=op.get('token'))

    def do_reconfigure(self, op):
        return dict(self.svc.reconfigure(**op['options']))

    def do_options(self, op):
        return dict(self.svc.current_options())

    def do_flush(self, op):
        self.svc.flush_cache()

    def do_shutdown(self, op):
        self.svc.shutdown()


def solo_plan(config, op, files):
    return dict(scenario='svc', config=config, clients=[[dict(op, op='verify')]],
                policy={'kind': 'serial'}, lines=False, dur=[0.1, 0.1], tick=1e-6,
                shutdown=False)
