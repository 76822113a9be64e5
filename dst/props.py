"""The checks: pools, plans and rules per property."""

import random

from . import cli as CL
from . import disk as D
from . import judge as J
from . import judge_cli as JC
from . import judge_disk as JD
from . import judge_lsp as JL
from . import judge_mcp as JM
from . import judge_srv as JS
from . import lsp as L
from . import mcp as M
from . import plans as P
from . import plans_cli as PCL
from . import plans_disk as PD
from . import plans_lsp as PL
from . import plans_mcp as PM
from . import programs as PG
from . import runner as R
from . import svc as SV

REAL = ['nagini_translation.service (VerificationService)', 'nagini_translation.main '
        '(translate, verify, resource loading)', 'analyzer, translators, error manager, '
        'type checking front (TypeInfo)', 'viper_server.py, verifier.py, jvmaccess.py',
        'Python threads, locks, queues (threading/queue/concurrent.futures code over '
        'simulated primitives)']
STUBS = ['JVM, Silver AST, Silicon, Carbon, ViperServer (in-process model behind the jpype '
         'seam; verdicts by marker literals)', 'clock and sleeping (virtual)',
         'thread switching (seeded scheduler, one thread at a time)',
         'mypy results memoised by file contents unless stated otherwise']
ASSUME = ['the model of the Viper API behaves like the documented one (dst/backend.py)',
          'switches happen at lock operations, environment calls and line boundaries of the '
          'service, frontend, configuration and error-manager code; the translator proper is '
          'preempted only at environment calls']

PROPS = {}


class Prop:
    level = 'exploration'
    note = ('Seeded search: shows the property on the schedules, faults and histories drawn, not on all; '
            'trusts the model of the Viper API and the isolated runs used as reference.')
    runs = dict(quick=192, thorough=8000)
    base_dirs = ()
    child_timeout = 120.0
    per_pool = 60
    memoise = True
    real, stubs, assumptions = REAL, STUBS, ASSUME
    rule = ('one case = one seeded simulated run (workload, schedule, durations, faults drawn '
            'from the seed); it counts as distinct and non-trivial if it had at least two '
            'thread switches, a delay, an injected fault or four operations, and its event history (events, '
            'threads, payloads; no timestamps) differs from that of every other run')

    def scenario(self, plan):
        return SV.ServiceScenario

    def shrink(self, plan):
        return R.shrink_lists(plan)

    def view(self, rep, plan, programs, solo):
        return J.View(rep, plan, programs, solo)


def reg(cls):
    PROPS[cls.id] = cls()
    return cls


@reg
class C01(Prop):
    id = 'C01'
    tech = 'seeded schedules of concurrent requests over one simulated service'

    def pool(self, r, w):
        if w % 8 in (3, 6):
            return P.pool_corpus(r, 7, 10 * w)
        return P.pool_general(r, 8, 10 * w)

    def plan(self, r, progs):
        d = P.base(r)
        k = r.random()
        if k < 0.75:
            d['clients'] = P.clients(r, progs, n=(2, 4), ops=(1, 2),
                                     rich=0.7 if progs[0].kind == 'corpus' else 0.4)
        else:
            q = r.sample(progs, 2)
            d['clients'] = P.clients(r, q, n=(2, 3), ops=(1, 3))
        n = sum(1 for c in d['clients'] for o in c if o['op'] == 'verify')
        d['policy'] = P.policy(r, 6000 * n)
        if r.random() < 0.1:
            d['config'] = {'use_viper_server': False}
        elif r.random() < 0.15:
            d['config'] = {'verifier_backend': 'carbon'}
        if r.random() < 0.3:
            d['faults'] = [P.run_fault(r, progs, P.RUN_FAULTS + P.PRE_FAULTS)
                           for _ in range(r.randint(1, 2))]
        return d

    def judge(self, rep, plan, programs, solo):
        v = self.view(rep, plan, programs, solo)
        return J.r_answer(v) + J.r_job(v) + J.r_live(v)


def with_stalls(r, d, progs):
    """Stall some job and make sure somebody cancels everything later."""
    d.setdefault('faults', []).append(dict(site='job.stall', prog=r.choice(progs).name, nth=1))
    d['clients'].append([dict(op='sleep', s=300.0), dict(op='cancel')] +
                        [x for _ in range(3) for x in
                         (dict(op='sleep', s=200.0), dict(op='cancel'))])
    return d


@reg
class C02(Prop):
    id = 'C02'
    tech = 'faults at every backend step, verdicts compared with planted errors'

    def pool(self, r, w):
        if w % 8 in (3, 5, 6):
            return P.pool_corpus(r, 8, 10 * w)
        return P.pool_mixed(r, 8, 10 * w, odd=1)

    def plan(self, r, progs):
        d = P.base(r)
        d['clients'] = P.clients(r, progs, n=(1, 4), ops=(1, 2), tokens=['t0', 't1', 't2'],
                                 rich=0.7 if progs[0].kind == 'corpus' else 0.4)
        d['config'] = dict(P.config(r, 0.4), **P.corpus_config(r, progs))
        direct = d['config'].get('use_viper_server') is False or d['config'].get('sif')
        sites = P.PRE_FAULTS + (P.DIRECT_FAULTS if direct
                                else P.RUN_FAULTS + ['job.crash', 'job.timeout'])
        k = r.random()
        if k < 0.7:
            d['faults'] = P.some_faults(r, progs, sites, (1, 4))
        if r.random() < 0.15:
            d.setdefault('faults', []).append(dict(
                site='server.start', nth=1, kind=r.choice(['fail', 'hang'])))
            d['faults'] += P.some_faults(r, progs, P.DIRECT_FAULTS, (0, 2))
        if r.random() < 0.35:
            c = []
            for _ in range(r.randint(1, 3)):
                c += [P.stagger(r), r.choice([
                    dict(op='cancel'), dict(op='cancel', token=r.choice(['t0', 't1'])),
                    dict(op='flush')])]
            if r.random() < 0.2:
                c += [P.stagger(r), dict(op='shutdown')]
            d['clients'].append(c)
        if r.random() < 0.1:
            with_stalls(r, d, progs)
        d['policy'] = P.policy(r, 6000 * P.count(d['clients']))
        return d

    def judge(self, rep, plan, programs, solo):
        v = self.view(rep, plan, programs, solo)
        return J.r_truth(v)


@reg
class C03(Prop):
    id = 'C03'
    tech = 'generated request histories with faults, compared with fresh processes'

    def pool(self, r, w):
        if w % 8 in (2, 5, 6):
            return P.pool_corpus(r, 8, 10 * w)
        if w % 2:
            return P.pool_config(r, 7, 10 * w)
        return P.pool_mixed(r, 8, 10 * w)

    def plan(self, r, progs):
        d = P.base(r, policy=dict(kind='serial'), lines=False)
        d['config'] = dict(P.config(r, 0.4), **P.corpus_config(r, progs))
        ops = []
        rich = 0.7 if progs[0].kind == 'corpus' else 0.45
        for _ in range(r.randint(3, 6)):
            k = r.random()
            if k < 0.72 or not ops:
                ops.append(P.verify_op(r, r.choice(progs), rich))
            elif k < 0.9:
                ops.append(dict(op='reconfigure', options=P.options(r)))
            elif k < 0.95:
                ops.append(dict(op='flush'))
            else:
                ops.append(dict(op='cancel'))
        d['clients'] = [ops]
        if r.random() < 0.5:
            d['faults'] = P.some_faults(r, progs, P.PRE_FAULTS + P.RUN_FAULTS + P.DIRECT_FAULTS, (1, 2))
        if r.random() < 0.25:
            d.setdefault('faults', []).append(dict(site='sil.parse', nth=r.randint(2, 3)))
        d['epilogue'] = [P.verify_op(r, r.choice(progs), 0.3) for _ in range(2)]
        return d

    def judge(self, rep, plan, programs, solo):
        v = self.view(rep, plan, programs, solo)
        return J.r_answer(v) + J.r_job(v)


@reg
class C04(Prop):
    id = 'C04'
    tech = 'fault sequences at every step followed by healthy requests'

    def pool(self, r, w):
        return P.pool_mixed(r, 9, 10 * w, odd=3)

    def plan(self, r, progs):
        d = P.base(r)
        d['clients'] = P.clients(r, progs, n=(1, 3), ops=(1, 3))
        d['config'] = P.config(r, 0.4)
        if r.random() < 0.2:
            d['config']['use_viper_server'] = False
        direct = d['config'].get('use_viper_server') is False or d['config'].get('sif')
        sites = P.PRE_FAULTS + (P.DIRECT_FAULTS if direct else P.RUN_FAULTS)
        if r.random() < 0.85:
            d['faults'] = P.some_faults(r, progs, sites, (1, 4))
            if direct and r.random() < 0.5:
                d['faults'].append(dict(site='direct.init', nth=1))
        if r.random() < 0.2:
            d.setdefault('faults', []).append(dict(
                site='server.start', nth=1, kind=r.choice(['fail', 'hang'])))
            d['faults'] += P.some_faults(r, progs, P.DIRECT_FAULTS, (1, 2))
        if r.random() < 0.25:
            d['clients'].append([P.stagger(r), dict(op='reconfigure', options=P.options(r)),
                                 P.stagger(r), dict(op='reconfigure', options=P.options(r))])
            d.setdefault('faults', []).append(dict(site='sil.parse', nth=r.randint(2, 3)))
        if r.random() < 0.3:
            d['clients'].append([P.stagger(r), r.choice([dict(op='flush'), dict(op='cancel')])])
            d.setdefault('faults', []).append(dict(
                site=r.choice(['server.flush', 'server.interrupt']), nth=1))
        if r.random() < 0.15:
            with_stalls(r, d, progs)
        good = [p for p in progs if p.kind != 'odd']
        d['epilogue'] = [P.verify_op(r, r.choice(good), 0.2) for _ in range(2)]
        d['policy'] = P.policy(r, 6000 * P.count(d['clients']))
        return d

    def judge(self, rep, plan, programs, solo):
        v = self.view(rep, plan, programs, solo)
        return J.r_escape(v) + J.r_fault_shape(v) + J.r_live(v) + J.r_epilogue(v) + \
            J.r_bad_input(v)


@reg
class C05(Prop):
    id = 'C05'
    tech = 'cancellations placed against every phase of running requests'

    def pool(self, r, w):
        return P.pool_general(r, 6, 10 * w)

    def plan(self, r, progs):
        d = P.base(r)
        if r.random() < 0.2:
            return self.precise(r, progs, d)
        toks = ['t0', 't1']
        n = r.randint(1, 3)
        d['clients'] = []
        for c in range(n):
            ops = [P.stagger(r)] if r.random() < 0.3 else []
            for _ in range(r.randint(1, 2)):
                op = P.verify_op(r, r.choice(progs), 0.2)
                if r.random() < 0.8:
                    op['token'] = r.choice(toks + ['c%d' % c])
                ops.append(op)
            d['clients'].append(ops)
        vs = [o for c in d['clients'] for o in c if o['op'] == 'verify']
        for _ in range(r.randint(1, 2)):
            c = []
            for _ in range(r.randint(1, 2)):
                o = r.choice(vs)
                k = r.random()
                if k < 0.5:
                    ev = r.choice(['typecheck', 'server.verify', 'server.verify', 'job.done',
                                   'invoke', 'return'])
                    if ev in ('typecheck', 'server.verify', 'job.done'):
                        c.append(dict(op='until', kind=ev, where=dict(prog=o['file']), s=60.0))
                        if r.random() < 0.4:
                            c.append(dict(op='sleep', s=P.loguni(r, 1e-3, 1.0)))
                else:
                    c.append(P.stagger(r))
                k = r.random()
                tok = o.get('token')
                if k < 0.2:
                    tok = None
                elif k < 0.3:
                    tok = 'never'
                c.append(dict(op='cancel', token=tok) if tok else dict(op='cancel'))
            d['clients'].append(c)
        if r.random() < 0.1:
            d['config'] = P.options(r, (1, 1), ['verifier_backend', 'use_viper_server'])
        if r.random() < 0.25:
            d['faults'] = P.some_faults(r, progs, ['job.crash', 'job.timeout', 'server.full'],
                                        (1, 2))
        if r.random() < 0.2:
            with_stalls(r, d, progs)
        elif r.random() < 0.25:
            d.setdefault('faults', []).append(dict(
                site='job.handle', prog=r.choice(vs)['file'], nth=1,
                kind=r.choice(['fail', 'hang'])))
        d['epilogue'] = [dict(r.choice(vs))]
        d['policy'] = P.policy(r, 6000 * P.count(d['clients']))
        return d

    def judge(self, rep, plan, programs, solo):
        v = self.view(rep, plan, programs, solo)
        return J.r_spurious_cancel(v) + J.r_cancel_effective(v) + \
            J.r_answer(v, rule='disturbed') + J.r_live(v)


    def precise(self, r, progs, d):
        """One of several long-running verifications is cancelled by its token."""
        ok = r.sample([p for p in progs if p.kind == 'ok'], 2)
        d['dur'] = [20.0, 60.0]
        d['clients'] = [[dict(P.verify_op(r, p, 0.2), token='t%d' % i)]
                        for i, p in enumerate(ok)]
        d['clients'].append([
            dict(op='until', kind='server.verify', where=dict(prog=ok[0].name), s=200.0),
            dict(op='until', kind='server.verify', where=dict(prog=ok[1].name), s=200.0),
            dict(op='cancel', token='t0')])
        if r.random() < 0.6:
            d['faults'] = [dict(site='job.handle', prog=ok[0].name, nth=1,
                                kind=r.choice(['fail', 'hang']))]
        d['epilogue'] = [P.verify_op(r, r.choice(progs), 0.2)]
        d['policy'] = P.policy(r, 12000)
        d['policy'].pop('delays', None)
        return d


@reg
class C06(Prop):
    id = 'C06'
    tech = 'configuration changes racing with requests in every phase'

    def pool(self, r, w):
        return P.pool_config(r, 7, 10 * w)

    def plan(self, r, progs):
        d = P.base(r)
        d['clients'] = P.clients(r, progs, n=(1, 3), ops=(1, 2), rich=0.15)
        d['config'] = P.config(r, 0.4)
        c = []
        names = r.sample(sorted(P.ALL_OPTIONS), 3)
        cfg = dict(SV.BASE_CFG, **d['config'])
        for _ in range(r.randint(1, 3)):
            if r.random() < 0.6:
                vs = [o for x in d['clients'] for o in x if o['op'] == 'verify']
                c.append(dict(op='until', kind=r.choice(['typecheck', 'server.verify']),
                              where=dict(prog=r.choice(vs)['file']), s=60.0))
                if r.random() < 0.5:
                    c.append(dict(op='sleep', s=P.loguni(r, 1e-3, 1.0)))
            else:
                c.append(P.stagger(r))
            o = P.options(r, (1, 3), names if r.random() < 0.5 else None)
            # prefer real changes
            for k in o:
                alt = [x for x in P.ALL_OPTIONS[k] if x != cfg.get(k)]
                if alt and r.random() < 0.8:
                    o[k] = r.choice(alt)
            c.append(dict(op='reconfigure', options=o))
            cfg.update(o)
            if r.random() < 0.3:
                c.append(dict(op='options'))
            if r.random() < 0.4:
                c.append(P.verify_op(r, r.choice(progs), 0.1))
        d['clients'].append(c)
        if r.random() < 0.25:
            d['faults'] = [dict(site='sil.parse', nth=r.randint(2, 4))]
        d['epilogue'] = [dict(op='options'), P.verify_op(r, r.choice(progs), 0.1)]
        d['policy'] = P.policy(r, 6000 * P.count(d['clients']))
        return d

    def judge(self, rep, plan, programs, solo):
        v = self.view(rep, plan, programs, solo)
        return J.r_consistent(v) + J.r_reconfigure(v)


@reg
class C13(Prop):
    id = 'C13'
    tech = 'stalled backend jobs beside other operations, bounded simulated time'

    def pool(self, r, w):
        return P.pool_general(r, 7, 10 * w)

    def plan(self, r, progs):
        d = P.base(r)
        ok = [p for p in progs if p.kind == 'ok']
        slow = r.sample(ok, r.randint(1, 3))
        d['slow'] = [p.name for p in slow]
        d['faults'] = [dict(site='job.stall', prog=p.name, nth=1) for p in slow]
        fast = [p for p in progs if p not in slow]
        d['clients'] = [[P.verify_op(r, p, 0.2)] for p in slow]
        for _ in range(r.randint(1, 3)):
            c = [dict(op='until', kind='job.stalled', where={}, s=100.0)] \
                if r.random() < 0.6 else [P.stagger(r)]
            for _ in range(r.randint(1, 3)):
                k = r.random()
                if k < 0.55:
                    c.append(P.verify_op(r, r.choice(fast), 0.3))
                elif k < 0.7:
                    c.append(dict(op='reconfigure', options=P.options(
                        r, (1, 2), ['int_bitops_size', 'float_encoding', 'verifier_backend',
                                    'disable_branch_conditions', 'z3_path'])))
                elif k < 0.75:
                    c.append(dict(op='cancel', token='nobody'))
                elif k < 0.8:
                    # interrupting everything, but nothing reacts
                    c.append(dict(op='cancel'))
                    d['faults'].append(dict(site='server.interrupt', kind='hang', nth=1))
                elif k < 0.9:
                    c.append(dict(op='options'))
                else:
                    c.append(dict(op='flush'))
            d['clients'].append(c)
        d['clients'].append([dict(op='sleep', s=1000.0), dict(op='mark')] +
                            [x for _ in range(3) for x in
                             (dict(op='cancel'), dict(op='sleep', s=50.0))])
        d['dur'] = [P.loguni(r, 0.01, 1.0)] * 2
        d['policy'] = P.policy(r, 6000 * P.count(d['clients']))
        d['policy'].pop('delays', None)
        return d

    def judge(self, rep, plan, programs, solo):
        v = self.view(rep, plan, programs, solo)
        return J.r_not_held_up(v)


class LspProp(Prop):
    runs = dict(quick=120, thorough=6000)
    real = ['nagini_translation.lsp_server (main, handlers)', 'pygls and lsprotocol',
            'asyncio event loop code (over a simulated selector)'] + REAL
    stubs = ['standard input and output of the server (simulated pipes)',
             'the editor (scripted)'] + STUBS
    rule = ('one case = one seeded simulated session of an editor with the real language server '
            '(script, schedule, durations, faults drawn from the seed); distinct as for C01')

    def scenario(self, plan):
        return L.LspScenario

    def view(self, rep, plan, programs, solo):
        return JL.LView(rep, plan, programs, solo)


@reg
class C07(LspProp):
    id = 'C07'
    tech = 'editing sessions against the real language server under seeded schedules'

    def pool(self, r, w):
        return PL.pool(r, 5, 10 * w)

    def plan(self, r, progs):
        d = PL.lsp_plan(r, progs, n=(2, 6), nfiles=r.choice([1, 1, 2, 3]))
        if r.random() < 0.3:
            d['faults'] = P.some_faults(r, progs, ['job.crash', 'job.timeout', 'server.submit',
                                                   'server.full'], (1, 2))
        d['hover_lines'] = PL.lines_of(progs)
        return d

    def judge(self, rep, plan, programs, solo):
        v = self.view(rep, plan, programs, solo)
        return JL.r_newest(v) + JL.r_hover(v)


@reg
class C08(LspProp):
    id = 'C08'
    tech = 'editing sessions with stalls, start-up failures and backend faults'

    def pool(self, r, w):
        return PL.pool(r, 5, 10 * w)

    def plan(self, r, progs):
        d = PL.lsp_plan(r, progs, n=(2, 6), nfiles=r.choice([1, 2, 3]))
        fs = d['faults'] = []
        k = r.random()
        files = sorted({o['file'] for o in d['script'] if 'file' in o})
        if k < 0.35:
            for f in r.sample(files, min(len(files), r.randint(1, 2))):
                fs.append(dict(site='job.stall', prog=f, nth=r.randint(1, 2)))
        elif k < 0.55:
            fs.append(dict(site='sil.parse', nth=1))
            if r.random() < 0.4:
                fs.append(dict(site='sil.parse', nth=2))
        elif k < 0.7:
            fs.append(dict(site='server.start', nth=1, kind=r.choice(['fail', 'hang'])))
        if r.random() < 0.3:
            fs += P.some_faults(r, progs, P.RUN_FAULTS + P.PRE_FAULTS, (1, 2))
        # other requests in between
        ops = []
        for o in d['script']:
            ops.append(o)
            if 'file' in o and r.random() < 0.5:
                ops.append(dict(op=r.choice(['hover', 'lens']), file=o['file'],
                                line=r.randint(0, 8), col=r.randint(0, 9)))
            if o['op'] == 'command' and r.random() < 0.25:
                if r.random() < 0.5:
                    ops.append(P.stagger(r))
                ops.append(dict(op='cancelrequest'))
        if len(files) > 1 and r.random() < 0.3:
            # several documents opened at once
            ops = [dict(op='open', file=f) for f in files] + ops
        d['script'] = ops
        d['policy'].pop('delays', None)
        return d

    def judge(self, rep, plan, programs, solo):
        v = self.view(rep, plan, programs, solo)
        return JL.r_responsive(v) + JL.r_accounts(v) + JL.r_started_once(v) + JL.r_retry(v) \
            + JL.r_ends(v)


class McpProp(Prop):
    runs = dict(quick=120, thorough=6000)
    real = ['nagini_translation.mcp_server (main, tools)', 'mcp (FastMCP, stdio transport), '
            'anyio, pydantic', 'asyncio event loop code (over a simulated selector)'] + REAL
    stubs = ['standard input and output of the server (simulated pipes)', 'the agent (scripted)',
             'open() and mkdir() below the temporary directory can fail'] + STUBS
    rule = ('one case = one seeded simulated session of an agent with the real tool server '
            '(script, schedule, durations, faults drawn from the seed); distinct as for C01')

    def scenario(self, plan):
        return M.McpScenario

    def view(self, rep, plan, programs, solo):
        return JM.MView(rep, plan, programs, solo)

    def pool(self, r, w):
        return PM.pool(r, 6, 10 * w)


@reg
class C10(McpProp):
    id = 'C10'
    tech = 'sessions with inline snippets, client cancellations, disk faults and shutdown'

    def plan(self, r, progs):
        d = PM.mcp_plan(r, progs, n=(2, 5), snip=0.85, others=0.15, cancels=0.3)
        if r.random() < 0.35:
            d['faults'] = [dict(site=r.choice(['tmp.open', 'tmp.full', 'tmp.mkdir']),
                                nth=r.randint(1, 3)) for _ in range(r.randint(1, 2))]
        elif r.random() < 0.4:
            d['faults'] = [dict(f, prog='snippet.py') if 'prog' in f else f
                           for f in P.some_faults(r, progs, P.RUN_FAULTS + P.PRE_FAULTS, (1, 2))]
        if r.random() < 0.2:
            d.setdefault('faults', []).append(dict(site='job.stall', prog='snippet.py',
                                                   nth=r.randint(1, 2)))
        if r.random() < 0.25:
            d['locale'] = r.choice(['latin-1', 'ascii'])
        if r.random() < 0.35:
            # the client goes away while verifications run
            d['settle'] = round(P.loguni(r, 0.01, 20.0), 3)
        return d

    def judge(self, rep, plan, programs, solo):
        v = self.view(rep, plan, programs, solo)
        return JM.r_private(v) + JM.r_clean(v) + JM.r_answers(v, snippet=True)


@reg
class C17(McpProp):
    id = 'C17'
    tech = 'agent sessions with stalled runs, hanging backends, malformed input and reconfiguration'

    def plan(self, r, progs):
        d = PM.mcp_plan(r, progs, n=(2, 5), snip=0.2, others=0.7,
                        configs=r.choice([0, 0, 0.4]), cancels=0.0)
        fs = d['faults'] = []
        ops = d['script']
        if r.random() < 0.35:
            for _ in range(r.randint(1, 2)):
                ops.insert(r.randrange(len(ops) + 1), PM.bad(r))
        k = r.random()
        files = [p for p in progs if not p.snippet]
        if k < 0.3:
            for p in r.sample(files, r.randint(1, 2)):
                fs.append(dict(site='job.stall', prog=p.name, nth=1))
        elif k < 0.5:
            # one verification at a time, the first one takes for ever
            ops.insert(0, dict(op='call', tool='configure',
                               args=dict(options={'useViperServer': False})))
            ops.insert(1, dict(op='answered', s=400.0))
            fs.append(dict(site='direct.stall', nth=r.randint(1, 2)))
            ops.insert(2, PM.call(r, progs, 0.2))
            ops.insert(3, dict(op='until', kind='direct.stalled', where={}, s=60.0))
        elif k < 0.65:
            fs.append(dict(site='server.interrupt', nth=1, kind=r.choice(['hang', 'fail'])))
            ops.insert(r.randrange(1, len(ops) + 1), dict(op='call', tool='cancel', args={}))
        if r.random() < 0.3:
            fs += [dict(f, prog='snippet.py') if 'prog' in f and r.random() < 0.4 else f
                   for f in P.some_faults(r, progs, P.RUN_FAULTS + P.PRE_FAULTS, (1, 2))]
        if r.random() < 0.1:
            fs.append(dict(site='server.flush', nth=1))
        if r.random() < 0.1 and any(o.get('tool') == 'configure' for o in ops):
            fs.append(dict(site='sil.parse', nth=2))
        d['epilogue'] = [dict(op='request', method='ping')]
        d['policy'].pop('delays', None)
        return d

    def judge(self, rep, plan, programs, solo):
        v = self.view(rep, plan, programs, solo)
        return JM.r_responsive(v) + JM.r_answers(v) + JM.r_config(v) + JM.r_ends(v)


@reg
class C09(LspProp):
    id = 'C09'
    tech = 'editor and agent sessions whose standard output is parsed strictly'
    real = LspProp.real[:1] + McpProp.real[:2] + LspProp.real[1:]
    stubs = McpProp.stubs
    rule = McpProp.rule

    def scenario(self, plan):
        return (L.LspScenario if plan['scenario'] == 'lsp' else M.McpScenario)

    def view(self, rep, plan, programs, solo):
        if plan['scenario'] == 'lsp':
            return JL.LView(rep, plan, programs, solo)
        return JM.MView(rep, plan, programs, solo)

    def pool(self, r, w):
        if w % 2:
            return PL.pool(r, 5, 10 * w) + P.pool_mixed(r, 5, 10 * w + 5, odd=2)
        ps = PM.pool(r, 6, 10 * w)
        for p in P.pool_mixed(r, 4, 10 * w + 6, odd=2):
            p.snippet = False
            ps.append(p)
        return ps

    def plan(self, r, progs):
        lsp = not hasattr(progs[0], 'snippet')
        fs = []
        sites = P.RUN_FAULTS + P.PRE_FAULTS + P.DIRECT_FAULTS
        if lsp:
            for p in progs:
                p.vmethods = getattr(p, 'vmethods', p.methods) or ['nothing']
                p.methods = p.methods or ['nothing']
                if not hasattr(p, 'versions'):
                    p.versions = [p.files]
            d = PL.lsp_plan(r, progs, n=(2, 5), nfiles=r.choice([1, 2, 3]))
            if r.random() < 0.6:
                d['init'] = dict(d['init'] or {}, counterexamples=True)
            for o in d['script']:
                if o['op'] == 'command' and r.random() < 0.25:
                    o['selected'] = 'no_such_method'
            d['finish'] = r.choice(['exit', 'eof', 'exit'])
        else:
            d = PM.mcp_plan(r, progs, n=(2, 5), snip=0.5, others=0.3, configs=0.15, cancels=0.0)
            for o in d['script']:
                if o.get('tool', '').startswith('verify'):
                    if r.random() < 0.6:
                        o['args']['counterexample'] = True
                    if 'method' in o['args'] and r.random() < 0.25:
                        o['args']['method'] = 'no_such_method'
        if r.random() < 0.15:
            d['argv'] = d.get('argv', []) + r.choice([
                ['--log', 'DEBUG'], ['--log', 'INFO'], ['--log', 'ERROR']])
        k = r.random()
        if k < 0.5:
            fs += P.some_faults(r, progs, sites, (1, 3))
        if r.random() < 0.25:
            fs.append(dict(site='server.start', nth=1, kind=r.choice(['fail', 'hang'])))
        if r.random() < 0.15:
            fs.append(dict(site=r.choice(['jvm.path', 'jvm.start', 'sil.parse', 'server.stop',
                                          'server.flush', 'server.interrupt']), nth=1))
        if r.random() < 0.2:
            d['settle'] = round(P.loguni(r, 0.1, 20.0), 3)      # ends while verifying
        d['faults'] = fs
        return d

    def judge(self, rep, plan, programs, solo):
        v = self.view(rep, plan, programs, solo)
        return JL.r_protocol(v) if plan['scenario'] == 'lsp' else JM.r_protocol(v)


class CliProp(Prop):
    real = ['nagini_translation.main (main, translate_and_verify, option parsing)'] + REAL[1:]
    stubs = ['standard output of the process; exit (sys.exit, os._exit, waiting for the '
             'threads of the backend)'] + STUBS

    def view(self, rep, plan, programs, solo):
        return JC.CView(rep, plan, programs, solo)

    def pool(self, r, w):
        return PCL.pool(r, 8, 10 * w)


@reg
class C15(CliProp):
    id = 'C15'
    tech = 'whole runs of the command line with faults at every step'
    runs = dict(quick=320, thorough=12000)
    rule = ('one case = one seeded simulated run of the command line (program, options, faults '
            'drawn from the seed); distinct as for C01')

    def scenario(self, plan):
        return CL.CliScenario

    def plan(self, r, progs):
        return PCL.cli_plan(r, progs)

    def judge(self, rep, plan, programs, solo):
        return JC.r_exit(self.view(rep, plan, programs, solo))


@reg
class C11(CliProp):
    id = 'C11'
    tech = 'sessions of several clients with the socket server, malformed requests and faults'
    real = CliProp.real + ['nagini_translation.client']
    stubs = ['ZeroMQ (in-process REQ/REP sockets, clients may disappear)'] + CliProp.stubs
    rule = ('one case = one seeded simulated session of clients with the socket server; '
            'distinct as for C01')

    def scenario(self, plan):
        return CL.ZmqScenario

    def plan(self, r, progs):
        return PCL.zmq_plan(r, progs)

    def judge(self, rep, plan, programs, solo):
        return JC.r_replies(self.view(rep, plan, programs, solo))


@reg
class C12(Prop):
    id = 'C12'
    tech = 'start-up, shutdown and fallback of the backend server under faults and races'
    real = Prop.real + ['nagini_translation.viper_server (ViperServerManager, ViperServer)',
                        'lsp_server, mcp_server, main in a share of the runs']
    runs = dict(quick=400, thorough=12000)

    def pool(self, r, w):
        ps = [p for p in P.pool_mixed(r, 6, 10 * w, odd=1)]
        for p in PM.pool(r, 3, 10 * w + 6):
            ps.append(p)
        for p in ps:
            p.snippet = False
            p.versions = getattr(p, 'versions', [p.files])
            p.vmethods = p.methods = p.methods or ['nothing']
        return ps

    def scenario(self, plan):
        return {'lsp': L.LspScenario, 'mcp': M.McpScenario, 'cli': CL.CliScenario}.get(
            plan['scenario'], SV.ServiceScenario)

    def view(self, rep, plan, programs, solo):
        return {'lsp': JL.LView, 'mcp': JM.MView, 'cli': JC.CView}.get(
            plan['scenario'], J.View)(rep, plan, programs, solo)

    def plan(self, r, progs):
        k = r.random()
        if k < 0.12:
            d = PL.lsp_plan(r, progs, n=(1, 4), nfiles=r.choice([1, 2]))
            d['policy'].pop('delays', None)
        elif k < 0.24:
            d = PM.mcp_plan(r, progs, n=(1, 4), snip=0.0, others=0.5, cancels=0.0)
            d['policy'].pop('delays', None)
        elif k < 0.32:
            d = PCL.cli_plan(r, [p for p in progs if p.kind == 'ok'])
            d['argv'] = [a for a in d['argv'] if a != '--viper-server'] + ['--viper-server']
            d['faults'] = [f for f in d.get('faults', ()) if f['site'] != 'server.start']
        else:
            return self.svc_plan(r, progs)
        fs = d.setdefault('faults', [])
        self.server_faults(r, fs, 0.7)
        if d['scenario'] != 'cli' and r.random() < 0.5:
            d['settle'] = round(P.loguni(r, 0.01, 20.0), 3)
        return d

    def server_faults(self, r, fs, p):
        if r.random() < p:
            for n in range(1, r.choice([2, 2, 3])):
                fs.append(dict(site='server.start', nth=n,
                               kind=r.choice(['fail', 'fail', 'hang', 'late'])))
        late = any(f['kind'] == 'late' for f in fs if f['site'] == 'server.start')
        for s, q in (('server.stop', 0.2), ('executor.terminate', 0.1)):
            # (a server that starts too late and cannot be killed is beyond help)
            if r.random() < q and not (late and s == 'executor.terminate'):
                fs.append(dict(site=s, nth=1, kind=r.choice(['fail', 'hang'])))

    def svc_plan(self, r, progs):
        d = P.base(r)
        late = r.random() < 0.45        # enabled in the middle of things
        d['config'] = dict(use_viper_server=not late)
        if r.random() < 0.2:
            d['config'].update(P.options(r, (1, 1), ['verifier_backend', 'sif',
                                                     'disable_branch_conditions']))
        d['clients'] = P.clients(r, progs, n=(2, 4), ops=(1, 2), rich=0.3,
                                 tokens=['t0', 't1'])
        extra = []
        for _ in range(r.randint(1, 3)):
            c = []
            for _ in range(r.randint(1, 3)):
                if r.random() < 0.6:
                    c.append(P.stagger(r))
                q = r.random()
                c.append(dict(op='flush') if q < 0.3 else
                         dict(op='cancel', token=r.choice(['t0', 't1', 'nobody'])) if q < 0.5 else
                         dict(op='cancel') if q < 0.6 else
                         dict(op='reconfigure', options=P.options(
                             r, (1, 1), ['use_viper_server', 'verifier_backend']))
                         if q < 0.8 and not extra else dict(op='options'))
            extra.append(c)
        if late:
            extra[0].insert(r.choice([0, 0, len(extra[0])]), dict(
                op='reconfigure', options=dict(use_viper_server=True)))
        if r.random() < 0.25:
            extra.append([P.stagger(r), dict(op='shutdown')])
        d['clients'] += extra
        fs = d['faults'] = []
        self.server_faults(r, fs, 0.55)
        if r.random() < 0.15:
            fs.append(dict(site='server.flush', nth=1))
        if r.random() < 0.15:
            fs.append(dict(site='server.interrupt', nth=1, kind='fail'))
        if r.random() < 0.2:
            fs += P.some_faults(r, progs, P.RUN_FAULTS + P.PRE_FAULTS + P.DIRECT_FAULTS, (1, 2))
        good = [p for p in progs if p.kind == 'ok']
        d['epilogue'] = [P.verify_op(r, r.choice(good), 0.3) for _ in range(r.randint(0, 2))]
        d['policy'] = P.policy(r, 6000 * P.count(d['clients']))
        return d

    def judge(self, rep, plan, programs, solo):
        v = self.view(rep, plan, programs, solo)
        s = plan['scenario']
        if rep['stuck'] or s == 'cli' and not (v.ended and v.ended['ended']):
            return [] if s in ('lsp', 'mcp', 'cli') else J.r_live(v)
        if s in ('lsp', 'mcp'):
            if not any(h[3] == 'finish' for h in v.h):
                return []
            return JS.r_single(v) + JS.r_released(v, True)
        if s == 'cli':
            return JS.r_single(v) + JS.r_released(v, True)
        return JS.r_single(v) + JS.r_released(v) + JS.r_used(v) + JS.r_harmless(v) + \
            J.r_answer(v) + J.r_job(v) + J.r_escape(v)


@reg
class C14(Prop):
    id = 'C14'
    tech = 'histories of processes over one simulated disk: edits, crashes, damage, hash seeds'
    real = ['nagini_translation (TypeInfo, analyzer, translators, service)', 'mypy itself, with '
            'its cache on a (scratch) disk'] + REAL[3:]
    stubs = ['disk faults and crashes at the file accesses of the cache (open, write, rename, '
             'mkdir, stat); time stamps from a simulated disk clock'] + STUBS[:3]
    runs = dict(quick=120, thorough=6000)
    per_pool = 40
    memoise = False
    rule = ('one case = one seeded history of a directory (processes, edits, crashes, damage); '
            'it counts as distinct and non-trivial if its event history differs from that of '
            'every other run and it had a fault or at least two processes')

    def pool(self, r, w):
        return PD.pool(r, 3, 10 * w)

    def scenario(self, plan):
        return D.DiskScenario

    def plan(self, r, progs):
        return PD.disk_plan(r, progs)

    def shrink(self, plan):
        yield from R.shrink_lists(plan)
        for i, a in enumerate(plan['script']):
            for k in ('faults', 'peer', 'relative', 'cwd'):
                if k in a:
                    n = list(plan['script'])
                    n[i] = {x: y for x, y in a.items() if x != k}
                    yield dict(plan, script=n)

    def judge(self, rep, plan, programs, solo):
        return JD.r_disk(rep, plan, solo)


@reg
class C16(C14):
    id = 'C16'
    tech = 'edits of the sources at every access to them while requests run, compared with every version'
    stubs = ['edits placed between two accesses (stat, open) to the project files; time stamps '
             'from a simulated disk clock'] + STUBS[:3]
    runs = dict(quick=110, thorough=8000)
    rule = ('one case = one seeded history of requests with edits at seeded accesses; it counts '
            'as distinct and non-trivial if its event history differs from that of every other '
            'run and at least one edit happened')

    def scenario(self, plan):
        return D.EditScenario

    def plan(self, r, progs):
        return PD.edit_plan(r, progs)

    def shrink(self, plan):
        yield from R.shrink_lists(plan)
        for i, e in enumerate(plan['edits']):
            yield dict(plan, edits=plan['edits'][:i] + plan['edits'][i + 1:])
            if len(e['files']) > 1:
                for n in e['files']:
                    ed = list(plan['edits'])
                    ed[i] = dict(e, files={a: b for a, b in e['files'].items() if a != n})
                    yield dict(plan, edits=ed)

    def judge(self, rep, plan, programs, solo):
        return JD.r_edit(rep, plan, solo)
