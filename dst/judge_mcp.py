"""Oracles over the history of a tool-server scenario."""

import json
import os

from . import engine as E
from . import history as H
from . import mcp as M
from . import svc as SV
from .judge import V, ddiff, shape

ANSWER_BOUND = 120.0        # simulated seconds
VERIFY = ('verify_file', 'verify_method', 'verify_snippet')


class Call:
    def __init__(self, h):
        self.seq, self.t, self.kw = h[0], h[1], h[4]
        self.id, self.tool = h[4]['id'], h[4].get('tool')
        self.args = h[4].get('args') or {}
        self.end, self.t1, self.res = float('inf'), None, None
        self.extra = 0

    def __repr__(self):
        a = {k: v for k, v in self.args.items() if k != 'code'}
        return '#%d %s %s%s' % (self.id, self.tool or self.kw['method'],
                                self.kw.get('prog') or '', a or '')


class MView:
    def __init__(self, rep, plan, programs, solo):
        from nagini_translation import service as S
        self.rep, self.plan, self.solo = rep, plan, solo
        self.h = rep['history']
        self.progs = {p.name: p for p in programs}
        self.reqs = [Call(h) for h in self.h if h[3] == 'request']
        by = {c.id: c for c in self.reqs}
        for h in self.h:
            if h[3] == 'response' and h[4]['id'] in by:
                c = by[h[4]['id']]
                if c.res is not None:
                    c.extra += 1
                else:
                    c.end, c.t1, c.res = h[0], h[1], h[4]
        self.calls = [c for c in self.reqs if c.tool]
        self.verifies = [c for c in self.calls if c.tool in VERIFY]
        self.cancelled = {h[4]['id']: h[0] for h in self.h if h[3] == 'cancelrequest'}
        self.faults = [(h[0], h[4]) for h in self.h if h[3] == 'fault']
        self.finish = next((h[0] for h in self.h if h[3] == 'finish'), float('inf'))
        cfg = dict(SV.BASE_CFG)
        cfg.update(plan.get('cfg', {}))
        self.tl = [[0, float('inf'), cfg]]
        for c in self.calls:
            if c.tool != 'configure' or c.res is None and c.id not in self.cancelled:
                if c.tool == 'configure':
                    self.tl.append([c.seq, float('inf'), self.apply(c, S)])
                continue
            if c.tool != 'configure':
                continue
            if c.res is not None and c.res.get('isError'):
                continue
            new = self.apply(c, S)
            if new == self.tl[-1][2]:
                continue
            self.tl[-1][1] = c.end if c.id not in self.cancelled else float('inf')
            self.tl.append([c.seq, float('inf'), new])

    def apply(self, c, S):
        o = {S.OPTION_TO_KWARG[k]: v for k, v in c.args.get('options', {}).items()
             if k in S.OPTION_TO_KWARG}
        return H.apply_options(self.tl[-1][2], o)

    def op(self, c):
        a = c.args
        name = c.kw.get('prog') or a['path']
        d = dict(file=name, sig=self.progs[name].sig)
        for k in ('counterexample', 'ignore_global', 'viper_args'):
            if a.get(k):
                d[k] = a[k]
        if a.get('method'):
            d['selected'] = [a['method']]
        return d

    def name(self, c):
        return c.kw.get('prog') or c.args['path']

    def answers(self, c):
        p = self.progs[self.name(c)]
        return [self.solo.get(p, self.op(c), cfg)
                for cfg in H.candidates(self.tl, c.seq, c.end)]

    def struck(self, c):
        nm = 'snippet.py' if c.tool == 'verify_snippet' else self.name(c)
        return [f for s, f in self.faults if c.seq < s < c.end and f['site'] not in (
            'server.start', 'job.stall') and f.get('prog') in (None, nm)] + \
            [h for h in self.h if h[3] in ('job.crashed', 'job.timeout')
             and h[4]['prog'] == nm and c.seq < h[0] < c.end]

    def stalls(self, c=None):
        """Stalled backend runs (those that may belong to the call, if given)."""
        nm = None if c is None else 'snippet.py' if c.tool == 'verify_snippet' else self.name(c)
        return [h for h in self.h if h[3] in ('job.stalled', 'direct.stalled')
                and (c is None or h[0] > c.seq and h[4].get('prog') in (None, nm))]

    def may_cancel(self, c):
        tok = c.args.get('job_token')
        return [x for x in self.calls if x.tool == 'cancel' and x.seq < c.end and x.end > c.seq
                and x.args.get('job_token') in (None, tok)]


def bare(res):
    return {k: x for k, x in res.items() if k not in ('hasViper', 'viperSig')}


def plain(res):
    """A result with the place of the file left out (for snippets).

    Branch conditions and other texts may mention the file as well.
    """
    if not isinstance(res, dict) or 'diagnostics' not in res:
        return res
    r = dict(res)
    ds = []
    for x in r['diagnostics']:
        x = json.loads(x)
        name = os.path.basename(x['file'] or 'snippet.py')
        x['file'] = '*'
        ds.append(json.dumps(x, sort_keys=True).replace(name, '*'))
    r['diagnostics'] = sorted(ds)
    return r


def r_answers(v, snippet=None, rule='answer'):
    """Every verification tool answers what an isolated run answers."""
    out = []
    for c in v.verifies:
        if c.res is None or snippet is not None and (c.tool == 'verify_snippet') != snippet:
            continue
        if c.id in v.cancelled and c.res.get('error') is not None:
            continue
        ans = v.answers(c)
        if any('harness' in a or a['res'] is None for a in ans):
            continue
        if c.res.get('error') is not None or c.res.get('isError'):
            if not v.struck(c):
                out.append(V(rule, 'call %r failed: %s %s' % (
                    c, c.res.get('text'), str(c.res.get('res'))[:200]), rule + '/error'))
            continue
        got = c.res['res']
        ans = [dict(a, res=bare(a['res'])) for a in ans]
        if v.struck(c) or any(f['site'].startswith('server.inter') for _, f in v.faults):
            if not isinstance(got, dict) or got.get('success') and not any(
                    a['res']['success'] for a in ans):
                out.append(V(rule, 'call %r, struck by a fault, answered %s' % (
                    c, E.brief(got)), rule + '/fault'))
            continue
        if isinstance(got, dict) and got.get('cancelled') and v.may_cancel(c):
            continue
        if c.tool == 'verify_snippet':
            g = plain(got)
            ok = any(plain(a['res']) == g for a in ans)
            fs = {json.loads(x)['file'] for x in got.get('diagnostics', ())} \
                if isinstance(got, dict) else ()
            fs = {f for f in fs if f.startswith(M.TMP)}
            if ok and len(fs) > 1:
                out.append(V(rule, 'diagnostics of snippet %r lie in %s' % (c, sorted(fs))))
        else:
            ok = any(a['res'] == got for a in ans)
        if not ok:
            out.append(V(rule, 'call %r answered %s (%d possible configurations)' % (
                c, ddiff(plain(got), plain(ans[0]['res'])) if isinstance(got, dict) else got,
                len(ans))))
        elif bool(c.args.get('include_viper')) != bool(c.res.get('viper')) and \
                not got['translationFailed'] and not got['cancelled']:
            out.append(V(rule, 'call %r: Viper program %s' % (
                c, 'missing' if c.args.get('include_viper') else 'returned unasked')))
    return out


def r_private(v):
    """What is verified is a snippet as given, in a place of its own, while it exists."""
    out = []
    texts = {}
    for c in v.verifies:
        if c.tool == 'verify_snippet':
            p = v.progs[c.kw['prog']]
            texts[E.digest(p.files[p.name])] = p.name
    seen = {}
    for h in v.h:
        kw = h[4]
        if h[3] == 'missing':
            out.append(V('vanished', 'the file %s of a snippet was gone while the verification '
                         'read it' % kw['path']))
        elif h[3] == 'typecheck' and 'sha' in kw:
            if kw['sha'] is None:
                out.append(V('vanished', 'the file %s of a snippet was gone when its '
                             'verification began to read it' % kw['path']))
            elif kw['sha'] not in texts:
                out.append(V('altered', 'the file %s being verified is none of the snippets '
                             'given' % kw['path']))
            elif seen.setdefault(kw['path'], kw['sha']) != kw['sha']:
                out.append(V('shared', 'two snippets were verified in %s' % kw['path']))
    return out


def r_clean(v):
    """Nothing of a snippet remains once its verification is over."""
    out = []
    if v.rep['stuck']:
        return out
    running = bool(v.stalls()) or v.plan['settle'] < 500
    for h in v.h:
        if h[3] in ('settled', 'finish') and h[4].get('tmp') and not running:
            out.append(V('left', 'left behind when every request was over: %s' % h[4]['tmp']))
            break
        if h[3] == 'ended' and h[4].get('tmp') and 'mcp' in v.rep['exit_codes']:
            out.append(V('left-at-exit', 'left behind by the ended server: %s' % h[4]['tmp']))
    return out


def r_responsive(v):
    """Calls that need no verification are answered at once, the others exactly once."""
    out = []
    direct = any(h[3] == 'direct.stalled' for h in v.h)
    up = next((c for c in v.reqs if c.kw['method'] == 'initialize'), None)
    if up is None or up.res is None:
        if not any(f['site'] in ('jvm.path', 'jvm.start', 'sil.parse') for _, f in v.faults):
            out.append(V('no-answer', 'the server never answered the first request (%s)' % (
                v.rep['stuck'],)))
        return out
    for c in v.reqs:
        if c.seq > v.finish or c is up:
            continue
        if c.extra:
            out.append(V('two-answers', 'request %r was answered %d times' % (c, c.extra + 1)))
        if c.tool in VERIFY:
            if c.res is None and not v.stalls() and not c.id in v.cancelled:
                out.append(V('no-answer', 'call %r was never answered%s' % (
                    c, ' (stuck: %s)' % (v.rep['stuck'],) if v.rep['stuck'] else '')))
            continue
        if direct and 'configure' in (c.tool, c.kw.get('bad')):
            continue                    # waits for the one verification at a time
        if c.id in v.cancelled:
            continue
        if c.tool in ('cancel', 'flush_cache') and any(
                f['site'] in ('server.interrupt', 'server.flush') for _, f in v.faults):
            continue
        if c.res is None:
            out.append(V('no-answer', 'request %r was never answered%s' % (
                c, ' (stuck: %s)' % (v.rep['stuck'],) if v.rep['stuck'] else '')))
        elif c.t1 - c.t > ANSWER_BOUND:
            out.append(V('slow-answer', 'request %r was answered after %.0f simulated seconds'
                         % (c, c.t1 - c.t)))
        elif (c.res.get('error') is not None or c.res.get('isError')) and not v.faults \
                and not c.kw.get('bad') and c.kw['method'] != 'no/such':
            out.append(V('error-answer', 'request %r was answered with an error: %s %s' % (
                c, c.res.get('text'), str(c.res.get('res'))[:200])))
    return out


def r_config(v):
    """configure answers with the configuration then in effect."""
    out = []
    for c in v.calls:
        if c.tool != 'configure' or c.res is None or not isinstance(c.res.get('res'), dict):
            continue
        want = [x for lo, hi, x in v.tl if lo <= c.end and hi >= c.seq]
        for k, n in H.PUBLIC.items():
            got = c.res['res'].get(k, '?')
            if not any(got == w[n] or not got and not w[n] for w in want):
                out.append(V('reported-config', 'call %r returned %s=%r; in effect: %r' % (
                    c, k, got, [w[n] for w in want])))
                break
    return out


def r_protocol(v):
    from . import judge_lsp as JL
    out = JL.r_protocol(v)
    # nothing but what the client asked for
    for h in v.h:
        if h[3] == 's2c' and not h[4]['method'].startswith('notifications/'):
            out.append(V('unexpected-message', 'the server sent %s' % h[4]['method']))
    return out


def r_ends(v):
    from . import judge_lsp as JL
    if any(f['site'] in ('server.stop',) for _, f in v.faults):
        return []
    return JL.r_ends(v, 'mcp')
